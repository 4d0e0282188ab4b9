------------------------------- MODULE RowStore -------------------------------
(* The storage of a sparse result that several threads fill: an array that may grow while they     *)
(* work.  This is all a user relies on: every slot is written by one thread only, never outside    *)
(* the array as it currently is, never into the array it has been moved away from.                 *)
(* RowAssembly.tla (the protocol of the library) is checked to implement it; RowTrace.tla replays  *)
(* what the real code wrote against it.                                                            *)
EXTENDS Integers, FiniteSets
VARIABLES cap, gen, own          \* capacity, how often the array moved, slot -> thread (0..cap-1, -1 = nobody)
svars == <<cap, gen, own>>
Nobody == -1
SInit(c) == cap = c /\ gen = 0 /\ own = [s \in 0..(c - 1) |-> Nobody]
CanWrite(t, g, s) == g = gen /\ s \in 0..(cap - 1) /\ own[s] \in {Nobody, t}
SWrite(t, g, s) == CanWrite(t, g, s) /\ own' = [own EXCEPT ![s] = t] /\ UNCHANGED <<cap, gen>>
CanGrow(c) == c >= 0 /\ \A s \in c..(cap - 1) : own[s] = Nobody
SGrow(c) == /\ CanGrow(c) /\ cap' = c /\ gen' = gen + 1
            /\ own' = [s \in 0..(c - 1) |-> IF s < cap THEN own[s] ELSE Nobody]
===============================================================================
