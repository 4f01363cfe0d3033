----------------------------- MODULE WriteQueue -----------------------------
(***************************************************************************)
(* The threads behind ClientQueue.tla: the main thread, which numbers the   *)
(* inputs and gives them to the pool (or, when they are in error already,   *)
(* to the writer), the threads of the pool, which parse and give the result *)
(* to the writer, and the writer, which takes the results from a queue      *)
(* ordered by number (WriteQueue.cpp, ParseQueue.hpp, srcml_consume.cpp).   *)
(* Every access to what they share is a step; the wait may end by itself.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N, W, D, Bug         \* D: main may also wait, before an input
Q == INSTANCE ClientQueue

VARIABLES kind, mutex, asleep, q, completed,      \* shared; kind of each input
          mpc, nxt, tasks, waits, dozing,         \* main; the inputs it waits before; it is waiting
          wpc, wpos,                              \* pool
          rpc, pos, cur, written,                 \* writer
          abs                                     \* what ClientQueue.tla allows
shared == <<kind, mutex, asleep, q, completed>>
main == <<mpc, nxt, tasks, waits>>
pool == <<wpc, wpos>>
writer == <<rpc, pos, cur, written>>
vars == <<shared, main, pool, writer, dozing, abs>>

Name(i) == "f" \o ToString(i)
Step(e, res) == abs' = UNION {{x.s : x \in {y \in Q!QResults(a, e) : y.r = res}} : a \in abs}
Min(s) == CHOOSE x \in s : \A y \in s : x <= y
Free == mutex = 0
Kinds == {"o", "e", "m"}        \* good; in error before; in error after

Init == /\ kind \in [1..N -> Kinds] /\ mutex = 0 /\ asleep = FALSE /\ q = {} /\ completed = FALSE
        /\ mpc = "go" /\ nxt = 1 /\ tasks = <<>>
        /\ wpc = [w \in 1..W |-> "idle"] /\ wpos = [w \in 1..W |-> 0]
        /\ rpc = "lock" /\ pos = 0 /\ cur = 0 /\ written = 0
        /\ dozing = FALSE /\ waits \in (IF D THEN SUBSET (2..N) ELSE {{}})
        /\ abs = {Q!Fresh}

---------------------------------------------------------------------------
\* (the writer has the mutex while it counts, so the test and falling asleep are one step)
MDoze == /\ mpc = "go" /\ nxt \in waits /\ ~dozing /\ Free /\ written < nxt - 1 /\ dozing' = TRUE /\ mpc' = "dozing"
         /\ UNCHANGED <<shared, nxt, tasks, waits, pool, writer, abs>>
MUp == /\ mpc = "dozing" /\ ~dozing /\ Free /\ mpc' = "go"
       /\ UNCHANGED <<shared, nxt, tasks, waits, dozing, pool, writer, abs>>
MWaited == /\ mpc = "go" /\ nxt \in waits /\ Free /\ (Bug = "nowait" \/ written >= nxt - 1) /\ waits' = waits \ {nxt}
           /\ Step([op |-> "waited"], "-")
           /\ UNCHANGED <<shared, mpc, nxt, tasks, dozing, pool, writer>>
MSchedule == /\ mpc = "go" /\ nxt <= N /\ nxt \notin waits
             /\ Step([op |-> "schedule", k |-> kind[nxt], n |-> Name(nxt)], "-")
             /\ (IF kind[nxt] = "e" THEN mpc' = "push" /\ UNCHANGED tasks /\ UNCHANGED nxt
                 ELSE tasks' = Append(tasks, nxt) /\ nxt' = nxt + 1 /\ UNCHANGED mpc)
             /\ UNCHANGED <<shared, waits, dozing, pool, writer>>
MPush == /\ mpc = "push" /\ Free /\ q' = q \cup {nxt} /\ mpc' = "notify"
         /\ UNCHANGED <<kind, mutex, asleep, completed, nxt, tasks, waits, dozing, pool, writer, abs>>
MNotify == /\ mpc = "notify" /\ asleep' = FALSE /\ mpc' = "go" /\ nxt' = nxt + 1
           /\ UNCHANGED <<kind, mutex, q, completed, tasks, waits, dozing, pool, writer, abs>>
MWait == /\ mpc = "go" /\ nxt > N /\ mpc' = "stop"
         /\ (Bug = "early" \/ (tasks = <<>> /\ \A w \in 1..W : wpc[w] = "idle"))
         /\ UNCHANGED <<shared, nxt, tasks, waits, dozing, pool, writer, abs>>
MStop == /\ mpc = "stop" /\ Free /\ completed' = TRUE /\ mpc' = (IF Bug = "stopsilent" THEN "join" ELSE "stopnotify")
         /\ UNCHANGED <<kind, mutex, asleep, q, nxt, tasks, waits, dozing, pool, writer, abs>>
MStopNotify == /\ mpc = "stopnotify" /\ asleep' = FALSE /\ mpc' = "join"
               /\ UNCHANGED <<kind, mutex, q, completed, nxt, tasks, waits, dozing, pool, writer, abs>>
MJoin == /\ mpc = "join" /\ rpc = "ended" /\ mpc' = "returned"
         /\ Step([op |-> "stop"], Cardinality({i \in 1..N : kind[i] = "o"}))
         /\ UNCHANGED <<shared, nxt, tasks, waits, dozing, pool, writer>>
Main == MDoze \/ MUp \/ MWaited \/ MSchedule \/ MPush \/ MNotify \/ MWait \/ MStop \/ MStopNotify \/ MJoin

---------------------------------------------------------------------------
WTake(w) == /\ wpc[w] = "idle" /\ tasks # <<>> /\ wpos' = [wpos EXCEPT ![w] = Head(tasks)] /\ tasks' = Tail(tasks)
            /\ wpc' = [wpc EXCEPT ![w] = IF Bug = "notifyfirst" THEN "notify" ELSE "push"]
            /\ UNCHANGED <<shared, mpc, nxt, waits, dozing, writer, abs>>
WPush(w) == /\ wpc[w] = "push" /\ Free /\ q' = q \cup {wpos[w]}
            /\ wpc' = [wpc EXCEPT ![w] = IF Bug \in {"silent", "notifyfirst"} THEN "idle" ELSE "notify"]
            /\ UNCHANGED <<kind, mutex, asleep, completed, main, dozing, wpos, writer, abs>>
WNotify(w) == /\ wpc[w] = "notify" /\ asleep' = FALSE /\ wpc' = [wpc EXCEPT ![w] = IF Bug = "notifyfirst" THEN "push" ELSE "idle"]
              /\ UNCHANGED <<kind, mutex, q, completed, main, dozing, wpos, writer, abs>>
Pool(w) == WTake(w) \/ WPush(w) \/ WNotify(w)

---------------------------------------------------------------------------
RLock == /\ rpc = "lock" /\ Free /\ mutex' = 1 /\ rpc' = "test"
         /\ UNCHANGED <<kind, asleep, q, completed, main, dozing, pool, pos, cur, written, abs>>
Waits == IF q = {} THEN TRUE ELSE Bug # "unordered" /\ Min(q) # pos + 1
RTest == /\ rpc = "test" /\ Waits
         /\ (IF q = {} /\ completed THEN rpc' = "ended" /\ mutex' = 0 ELSE rpc' = "sleep" /\ UNCHANGED mutex)
         /\ UNCHANGED <<kind, asleep, q, completed, main, dozing, pool, pos, cur, written, abs>>
RSleep == /\ rpc = "sleep" /\ mutex' = 0 /\ asleep' = TRUE /\ rpc' = "asleep"
          /\ UNCHANGED <<kind, q, completed, main, dozing, pool, pos, cur, written, abs>>
\* without testing again: Bug "once"
RWake == /\ rpc = "asleep" /\ ~asleep /\ Free /\ mutex' = 1 /\ rpc' = (IF Bug = "once" /\ q # {} THEN "take" ELSE "test")
         /\ UNCHANGED <<kind, asleep, q, completed, main, dozing, pool, pos, cur, written, abs>>
RTake == /\ ((rpc = "test" /\ ~Waits) \/ rpc = "take") /\ cur' = (IF Bug = "unordered" THEN CHOOSE x \in q : TRUE ELSE Min(q)) /\ q' = q \ {cur'}
         /\ pos' = pos + 1 /\ mutex' = 0 /\ rpc' = "write"
         /\ UNCHANGED <<kind, asleep, completed, main, dozing, pool, written, abs>>
RWrite == /\ rpc = "write" /\ rpc' = (IF D THEN "count" ELSE "lock") /\ Step([op |-> "wrote"], [n |-> Name(cur), what |-> Q!Outcome(kind[cur])])
          /\ UNCHANGED <<shared, main, dozing, pool, pos, cur, written>>
RCount == /\ rpc = "count" /\ Free /\ written' = written + 1 /\ rpc' = (IF Bug = "waitsilent" THEN "lock" ELSE "tell")
          /\ UNCHANGED <<shared, main, dozing, pool, pos, cur, abs>>
RTell == /\ rpc = "tell" /\ dozing' = FALSE /\ rpc' = "lock"
         /\ UNCHANGED <<shared, main, pool, pos, cur, written, abs>>
Writer == RCount \/ RTell \/ RLock \/ RTest \/ RSleep \/ RWake \/ RTake \/ RWrite
Spurious == \/ asleep /\ asleep' = FALSE /\ UNCHANGED <<kind, mutex, q, completed, main, dozing, pool, writer, abs>>
            \/ dozing /\ Bug # "waitsilent" /\ dozing' = FALSE /\ UNCHANGED <<shared, main, pool, writer, abs>>

Next == Main \/ (\E w \in 1..W : Pool(w)) \/ Writer \/ Spurious
Spec == Init /\ [][Next]_vars /\ SF_vars(Main) /\ (\A w \in 1..W : SF_vars(Pool(w))) /\ SF_vars(Writer)

Refines == abs # {}
Stops == <>(mpc = "returned")
Symmetric == \A w \in 1..W : wpos[w] <= N
=============================================================================
