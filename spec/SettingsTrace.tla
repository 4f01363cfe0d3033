---------------------------- MODULE SettingsTrace ----------------------------
EXTENDS Settings
VARIABLES tid, l, S, ok
Start(cfg) == {InitSettings}
INSTANCE TraceCheck
=============================================================================
