CONSTANTS
 Opts = {"0", "1", "6"}
 Tabs = {"8", "4"}
 Prefixes = {"-", "s"}
 Encodings = {"UTF-8", "ISO-8859-1"}
 Texts = {"t1"}
 Others = {"fail", "glob"}
SPECIFICATION Spec
VIEW View1
INVARIANT Independent
ACTION_CONSTRAINT Emit
