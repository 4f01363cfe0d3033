----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Generic trace validation.  A trace is a line of the file named by the   *)
(* environment variable TRACE:  {"id": .., "cfg": .., "ev": [e1, e2, ..]}. *)
(* Every event e carries the operation e.op with its arguments and the     *)
(* result e.r observed on the implementation.  Results(s, e) is the set of *)
(* [s |-> next state, r |-> result] the specification allows for e in s.   *)
(*                                                                         *)
(* S is the set of specification states compatible with the prefix seen    *)
(* (subset construction), so unlogged nondeterminism is handled and the    *)
(* search is linear in the length of the trace.  Each trace is its own     *)
(* initial state.  A crash or a hang of the process under test is the      *)
(* event CRASH / HANG, which no specification allows.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Start(_),            \* cfg record -> set of initial states
          Results(_, _)        \* state, event -> set of [s |-> .., r |-> ..]

Traces == TLCGet(1)          \* read once, in Init

VARIABLES tid, l, S, ok

tvars == <<tid, l, S, ok>>

Dead(e) == e.op \in {"CRASH", "HANG"}

After(s, e) == IF Dead(e) THEN {} ELSE {o.s : o \in {p \in Results(s, e) : p.r = e.r}}

Expected(e) == IF Dead(e) THEN {"the operation returns"}
               ELSE UNION {{p.r : p \in Results(s, e)} : s \in S}

Init == /\ TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
        /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ ok = TRUE
        /\ S = Start(Traces[tid].cfg)

Next == /\ ok
        /\ l <= Len(Traces[tid].ev)
        /\ LET e  == Traces[tid].ev[l]
               S2 == UNION {After(s, e) : s \in S}
           IN /\ l' = l + 1
              /\ IF S2 # {}
                   THEN S' = S2 /\ ok' = TRUE
                   ELSE /\ PrintT("MISMATCH " \o ToJson([id |-> Traces[tid].id, l |-> l,
                                    expected |-> ToString(Expected(e))]))
                        /\ S' = {} /\ ok' = FALSE
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_tvars
=============================================================================
