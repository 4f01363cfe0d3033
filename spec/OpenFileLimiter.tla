-------------------------- MODULE OpenFileLimiter ---------------------------
(***************************************************************************)
(* A counter, a mutex and a condition (OpenFileLimiter.hpp), and threads    *)
(* that take Depth places each and give them back, Rounds times.  A thread  *)
(* holds at most Depth places, and Threads * (Depth - 1) < Max, so that no  *)
(* thread waits for ever by the fault of the threads themselves.            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Threads, Max, Depth, Rounds, Bug
L == INSTANCE Limiter
VARIABLES mutex, waiting, count, pc, mine, left, abs
vars == <<mutex, waiting, count, pc, mine, left, abs>>
T == 1..Threads
Step(e) == abs' = UNION {{x.s : x \in L!LResults(a, e)} : a \in abs}
Init == /\ mutex = 0 /\ waiting = {} /\ count = 0
        /\ pc = [t \in T |-> "up"] /\ mine = [t \in T |-> 0] /\ left = [t \in T |-> Rounds]
        /\ abs = {[L!Fresh EXCEPT !.max = Max]}
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Full == IF Bug = "bound" THEN count > Max ELSE count >= Max
Want(t) == pc[t] = "up" /\ Go(t, "lock") /\ Step([op |-> "want", t |-> t]) /\ UNCHANGED <<mutex, waiting, count, mine, left>>
Lock(t) == pc[t] = "lock" /\ mutex = 0 /\ mutex' = t /\ Go(t, "test") /\ UNCHANGED <<waiting, count, mine, left, abs>>
Test(t) == /\ pc[t] = "test"
           /\ (IF Full THEN Go(t, "asleep") /\ mutex' = 0 /\ waiting' = waiting \cup {t} /\ UNCHANGED count
               ELSE Go(t, "got") /\ count' = count + 1 /\ mutex' = 0 /\ UNCHANGED waiting)
           /\ UNCHANGED <<mine, left, abs>>
Wake(t) == /\ pc[t] = "asleep" /\ t \notin waiting /\ mutex = 0
           /\ (IF Bug = "if" THEN Go(t, "got") /\ count' = count + 1 /\ UNCHANGED mutex ELSE mutex' = t /\ Go(t, "test") /\ UNCHANGED count)
           /\ UNCHANGED <<waiting, mine, left, abs>>
Got(t) == /\ pc[t] = "got" /\ mine' = [mine EXCEPT ![t] = @ + 1] /\ Go(t, IF mine'[t] < Depth THEN "up" ELSE "down") /\ Step([op |-> "got", t |-> t])
          /\ UNCHANGED <<mutex, waiting, count, left>>
Gave(t) == pc[t] = "down" /\ Go(t, "unlock") /\ Step([op |-> "gave"]) /\ UNCHANGED <<mutex, waiting, count, mine, left>>
Close(t) == /\ pc[t] = "unlock" /\ mutex = 0 /\ count' = count - 1 /\ mine' = [mine EXCEPT ![t] = @ - 1]
            /\ \/ waiting = {} /\ UNCHANGED waiting
               \/ Bug = "silent" /\ UNCHANGED waiting
               \/ Bug = "full" /\ count' # Max - 1 /\ UNCHANGED waiting
               \/ Bug \notin {"silent"} /\ (Bug = "full" => count' = Max - 1) /\ \E w \in waiting : waiting' = waiting \ {w}
            /\ left' = [left EXCEPT ![t] = IF mine'[t] = 0 THEN @ - 1 ELSE @]
            /\ Go(t, IF mine'[t] > 0 THEN "down" ELSE IF left'[t] > 0 THEN "up" ELSE "end")
            /\ UNCHANGED <<mutex, abs>>
Run(t) == Want(t) \/ Lock(t) \/ Test(t) \/ Wake(t) \/ Got(t) \/ Gave(t) \/ Close(t)
Spurious == \E w \in waiting : waiting' = waiting \ {w} /\ UNCHANGED <<mutex, count, pc, mine, left, abs>>
Next == (\E t \in T : Run(t)) \/ Spurious
Spec == Init /\ [][Next]_vars /\ \A t \in T : SF_vars(Run(t))
Refines == abs # {}
Bounded == count <= Max
Ends == <>(\A t \in T : pc[t] = "end")
AllFree == (\A t \in T : pc[t] = "end") => count = 0
=============================================================================
