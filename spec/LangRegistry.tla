---------------------------- MODULE LangRegistry ----------------------------
(***************************************************************************)
(* Choice of the language of a source file: the registered extensions of   *)
(* an archive (and of the process-wide settings, handle "g"), the language *)
(* set on an archive or unit, and the extension of the filename.           *)
(* Filenames and extensions are sequences of one-character strings.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

None == "-"
Languages == {"C", "C++", "C#", "Java", "Objective-C"}

\* built-in table
Default == << << <<"c">>, "C">>, << <<"h">>, "C">>, << <<"i">>, "C">>,
   << <<"c","p","p">>, "C++">>, << <<"C","P","P">>, "C++">>, << <<"c","p">>, "C++">>,
   << <<"h","p","p">>, "C++">>, << <<"c","x","x">>, "C++">>, << <<"h","x","x">>, "C++">>,
   << <<"c","c">>, "C++">>, << <<"h","h">>, "C++">>, << <<"c","+","+">>, "C++">>,
   << <<"h","+","+">>, "C++">>, << <<"C">>, "C++">>, << <<"H">>, "C++">>,
   << <<"t","c","c">>, "C++">>, << <<"i","i">>, "C++">>,
   << <<"j","a","v","a">>, "Java">>, << <<"a","j">>, "Java">>, << <<"c","s">>, "C#">> >>

\* ------------------------------------------------------------------ state
\* s.reg[h]  : extensions registered by the user on handle h, oldest first
\* s.lang[h] : language set on handle h, or None
\* s.live    : handles that exist
Fresh == [reg |-> <<>>, lang |-> None]
InitReg(handles) == [h \in handles |-> Fresh]

\* ------------------------------------------------------------------ extension of a filename
IsGz(f) == Len(f) > 3 /\ SubSeq(f, Len(f)-2, Len(f)) = <<".", "g", "z">>
Strip(f) == IF IsGz(f) THEN SubSeq(f, 1, Len(f) - 3) ELSE f
Dots(f) == {i \in 1..Len(f) : f[i] = "."}
LastOf(S) == CHOOSE i \in S : \A j \in S : j <= i
HasExt(f) == Dots(Strip(f)) # {}
Ext(f) == LET g == Strip(f) IN SubSeq(g, LastOf(Dots(g)) + 1, Len(g))

Lookup(tab, ext) == LET I == {i \in 1..Len(tab) : tab[i][1] = ext}
                    IN IF I = {} THEN None ELSE tab[LastOf(I)][2]

\* Default lists each extension once, so it can be consulted separately
LangOf(r, ext) == LET u == Lookup(r.reg, ext) IN IF u # None THEN u ELSE Lookup(Default, ext)
FileLang(r, f) == IF HasExt(f) THEN LangOf(r, Ext(f)) ELSE None

Known(x) == x \in Languages
Effective(r, ulang, f) ==        \* language used to parse file f in a unit whose language is ulang
    LET set == IF ulang # None THEN ulang ELSE r.lang
    IN IF Known(set) THEN set ELSE FileLang(r, f)

\* ------------------------------------------------------------------ operations
Register(s, h, ext, x) ==
    IF Known(x) THEN [s |-> [s EXCEPT ![h].reg = Append(@, <<ext, x>>)], r |-> "OK"]
                ELSE [s |-> s, r |-> IF x = "NULL" THEN "INVALID_ARGUMENT" ELSE "INVALID_INPUT"]
Check(s, h, f) == [s |-> s, r |-> FileLang(s[h], f)]
SetLang(s, h, x) == [s |-> [s EXCEPT ![h].lang = x], r |-> "OK"]
Clone(s, h, k) == [s |-> [s EXCEPT ![k] = s[h]], r |-> "OK"]
Renew(s, h) == [s |-> [s EXCEPT ![h] = Fresh], r |-> "OK"]
\* The result names the language of the markup and the language attribute written.
\* Known deviation: an unknown language set on a unit counts as not set (and the
\* attribute, which then keeps that name, is not judged).
\* parse file f (byName) or the same bytes from memory, in a unit of h
Parse(s, h, ulang, f, byName) ==
    LET set == IF ulang # None THEN ulang ELSE s[h].lang
        x == IF byName THEN Effective(s[h], ulang, f) ELSE IF Known(set) THEN set ELSE None
    IN [s |-> s, r |-> IF x = None THEN "UNSET_LANGUAGE" ELSE x \o "/" \o x]

Results(s, e) ==
    CASE e.op = "register" -> {Register(s, e.h, e.ext, e.lang)}
      [] e.op = "check"    -> {Check(s, e.h, e.file)}
      [] e.op = "setlang"  -> {SetLang(s, e.h, e.lang)}
      [] e.op = "clone"    -> {Clone(s, e.h, e.k)}
      [] e.op = "renew"    -> {Renew(s, e.h)}
      [] e.op = "parse"    -> {Parse(s, e.h, e.ulang, e.file, e.byname)}
      [] OTHER -> {}

\* ------------------------------------------------------------------ properties
\* the newest registration of an extension wins and nothing else matters
NewestWins(r) == \A i \in 1..Len(r.reg) :
    (\A j \in (i+1)..Len(r.reg) : r.reg[j][1] # r.reg[i][1]) => LangOf(r, r.reg[i][1]) = r.reg[i][2]
DefaultsKept(r) == \A i \in 1..Len(Default) :
    (\A j \in 1..Len(r.reg) : r.reg[j][1] # Default[i][1]) => LangOf(r, Default[i][1]) = Default[i][2]
OnlyKnown(r) == \A i \in 1..Len(r.reg) : Known(r.reg[i][2])
=============================================================================
