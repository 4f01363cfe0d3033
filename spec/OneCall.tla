------------------------------ MODULE OneCall -------------------------------
(***************************************************************************)
(* The interface of one call.  The state is the process-wide settings (g,   *)
(* registers as in Settings) and the registered extensions.  A conversion  *)
(* goes from source to srcML if the name of the input has an extension of a *)
(* language, from srcML to source if it is that of srcML, and does not      *)
(* happen otherwise; its result is that of the steps done one by one with   *)
(* an archive of exactly these settings (e.with), which the event carries;  *)
(* and it changes no setting, whether it succeeds or fails.                 *)
(***************************************************************************)
EXTENDS Settings, TLC

Default == {"c", "cpp", "java"}
Known == {"C", "C++", "C#", "Java"}

Init1 == [g |-> InitSettings.g, ext |-> <<>>]
Reg(ext, x, l) == Append(SelectSeq(ext, LAMBDA p : p[1] # x), <<x, l>>)
HasLang(st, x) == x \in Default \/ \E i \in 1..Len(st.ext) : st.ext[i][1] = x
Dir(st, x) == IF HasLang(st, x) THEN "srcml"
              ELSE IF x \in {"xml", "XML", "srcml"} \/ st.g.lang = "xml" THEN "source" ELSE "none"

\* a setter, through Settings
Lift(st, e) == {[s |-> [st EXCEPT !.g = o.s.g], r |-> [st |-> o.r.st, g |-> o.s.g]] : o \in Results([InitSettings EXCEPT !.g = st.g], e)}

\* step: status and digest of the output of the steps; none are done if there is no direction or a file is missing
Convert(st, e) ==
    LET d == Dir(st, e.ext) IN
    IF e.with # [g |-> st.g, ext |-> st.ext, dir |-> d] THEN {[s |-> st, r |-> [needs |-> [g |-> st.g, ext |-> st.ext, dir |-> d]]]}
    ELSE IF d = "none" \/ e.bad # None \/ e.step[1] # "OK" THEN {[s |-> st, r |-> [st |-> "error", out |-> None, g |-> st.g]]}
    ELSE {[s |-> st, r |-> [st |-> "OK", out |-> e.step[2], g |-> st.g]]}

XResults(st, e) ==
    CASE e.op = "convert" -> Convert(st, e)
      [] e.op = "ext" -> IF e.lang \in Known THEN {[s |-> [st EXCEPT !.ext = Reg(@, e.x, e.lang)], r |-> [st |-> "OK", g |-> st.g]]}
                         ELSE {[s |-> st, r |-> [st |-> "INVALID_INPUT", g |-> st.g]]}
      \* an archive of its own does not take part in the settings
      [] e.op = "apart" -> {[s |-> st, r |-> [st |-> "OK", g |-> st.g]]}
      [] OTHER -> Lift(st, e)
=============================================================================
