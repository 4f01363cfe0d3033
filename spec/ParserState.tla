---------------------------- MODULE ParserState -----------------------------
(***************************************************************************)
(* Where the parser keeps things, under Parsing.tla: tables built once and  *)
(* shared by all threads, storage of the thread, objects made for each      *)
(* parse, and the settings of the archive, only read by a parse.  A parse   *)
(* is a sequence of steps; those of different threads interleave.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS T, MaxParses, Bug
Settings == {"p", "q"}
Texts == {"x", "y", "bad"}          \* the last one cannot be parsed

VARIABLES built,        \* the shared table: "no", "half", "yes"
          builder,      \* thread that builds it
          scratch,      \* storage for a moment: of the thread, or (Bug) of all
          own,          \* storage of a thread for more than a parse
          arch,         \* settings of the archive
          pc, job, out, \* of each thread
          left,         \* parses still to do
          wrong         \* results that depended on something else
vars == <<built, builder, scratch, own, arch, pc, job, out, left, wrong>>

Th == 1..T
Cell(t) == IF Bug = "shared" THEN 1 ELSE t
Init == /\ built = "no" /\ builder = 0 /\ scratch = [t \in Th |-> "-"]
        /\ own = [t \in Th |-> "-"] /\ arch = "p"
        /\ pc = [t \in Th |-> "idle"] /\ job = [t \in Th |-> <<"-", "-">>] /\ out = [t \in Th |-> <<>>]
        /\ left = MaxParses /\ wrong = {}

\* settings change between parses only
Set == /\ \A t \in Th : pc[t] = "idle"
       /\ arch' \in Settings /\ UNCHANGED <<built, builder, scratch, own, pc, job, out, left, wrong>>
Begin(t) == /\ pc[t] = "idle" /\ left > 0 /\ left' = left - 1
            /\ \E x \in Texts : job' = [job EXCEPT ![t] = <<x, arch>>]
            /\ pc' = [pc EXCEPT ![t] = "table"]
            /\ out' = [out EXCEPT ![t] = IF Bug = "leftover" THEN @ ELSE <<>>]       \* made for this parse
            /\ own' = [own EXCEPT ![t] = IF Bug = "latched" /\ @ # "-" THEN @ ELSE arch]
            /\ UNCHANGED <<built, builder, scratch, arch, wrong>>
\* the first to come builds the table, the others wait for it
Table(t) == /\ pc[t] = "table"
            /\ CASE built = "no" -> built' = "half" /\ builder' = t /\ UNCHANGED pc
                 [] built = "half" /\ builder = t -> built' = "yes" /\ UNCHANGED <<builder, pc>>
                 [] built = "half" /\ builder # t -> Bug = "unguarded" /\ pc' = [pc EXCEPT ![t] = "put"] /\ UNCHANGED <<built, builder>>
                 [] OTHER -> pc' = [pc EXCEPT ![t] = "put"] /\ UNCHANGED <<built, builder>>
            /\ out' = [out EXCEPT ![t] = IF built = "half" /\ builder # t THEN Append(@, "half a table") ELSE @]
            /\ UNCHANGED <<scratch, own, arch, job, left, wrong>>
\* a piece of the result passes through the scratch storage
Put(t) == /\ pc[t] = "put" /\ scratch' = [scratch EXCEPT ![Cell(t)] = job[t][1]] /\ pc' = [pc EXCEPT ![t] = "take"]
          /\ arch' = (IF Bug = "writes" /\ job[t][1] = "y" THEN "q" ELSE arch)
          /\ UNCHANGED <<built, builder, own, job, out, left, wrong>>
Take(t) == /\ pc[t] = "take" /\ out' = [out EXCEPT ![t] = Append(Append(@, scratch[Cell(t)]), own[t])] /\ pc' = [pc EXCEPT ![t] = "end"]
           /\ UNCHANGED <<built, builder, scratch, own, arch, job, left, wrong>>
End(t) == /\ pc[t] = "end" /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ wrong' = (IF job[t][1] = "bad" \/ (out[t] = <<job[t][1], job[t][2]>> /\ arch = job[t][2]) THEN wrong ELSE wrong \cup {<<job[t], out[t], arch>>})
          /\ out' = [out EXCEPT ![t] = IF Bug = "leftover" /\ job[t][1] = "bad" THEN @ ELSE <<>>]
          /\ UNCHANGED <<built, builder, scratch, own, arch, job, left>>
Step(t) == Begin(t) \/ Table(t) \/ Put(t) \/ Take(t) \/ End(t)
Next == Set \/ \E t \in Th : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Th : WF_vars(Table(t) \/ Put(t) \/ Take(t) \/ End(t))

OnlyItsInput == wrong = {}
Ends == \A t \in Th : pc[t] = "table" ~> pc[t] = "idle"
=============================================================================
