------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* Exhaustive exploration of a specification given by Results(s, op), and  *)
(* emission of its complete labelled transition graph.  Every line         *)
(*      EDGE [state, op, next state]                                       *)
(* becomes part of a test that is replayed into the implementation, so     *)
(* that every transition of the bounded model is exercised there.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS StartX,             \* set of initial states
          OpsOf(_),           \* state -> set of operations tried in it
          Results(_, _)

VARIABLES s, last

xvars == <<s, last>>

Init == s \in StartX /\ last = [op |-> [op |-> "init"], r |-> "-", from |-> s]

Next == \E op \in OpsOf(s) : \E o \in Results(s, op) :
            /\ s' = o.s
            /\ last' = [op |-> op, r |-> o.r, from |-> s]

Spec == Init /\ [][Next]_xvars

Emit == PrintT("EDGE " \o ToJson(<<s, last'.op, s'>>))
=============================================================================
