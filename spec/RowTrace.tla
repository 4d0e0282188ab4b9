------------------------------- MODULE RowTrace -------------------------------
(* Trace validation against RowStore: record l of the file holds the traces of several arrays (one *)
(* after the other, e counts their events); each event must be an enabled action of RowStore.      *)
EXTENDS RowStore, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, e, bad            \* record, array of the record, event, clauses broken so far
vars == <<cap, gen, own, l, k, e, bad>>
(* column indices, values, row pointers, and the three arrays of the lower factor *)
Arrays(r) == LET o == r.o IN <<[ev |-> o.tj], [ev |-> o.tx], [ev |-> o.tp]>> \o (IF "ti" \in DOMAIN o THEN <<[ev |-> o.ti], [ev |-> o.tlj], [ev |-> o.tlx]>> ELSE <<>>)
Ev(r, kk, ee) == Arrays(r)[kk].ev[ee]
Init == l = 1 /\ k = 1 /\ e = 1 /\ bad = {} /\ SInit(0)
Step == /\ l <= Len(Trace) /\ Trace[l].s = "ok" /\ k <= Len(Arrays(Trace[l]))
        /\ LET r == Trace[l]
               a == Arrays(r)[k]
           IN IF e <= Len(a.ev)
              THEN LET v == a.ev[e] IN
                   /\ e' = e + 1 /\ UNCHANGED <<l, k>>
                   /\ IF v[1] = -2       \* a parallel region starts, or a barrier: what was written belongs to everybody
                      THEN own' = [s \in DOMAIN own |-> Nobody] /\ UNCHANGED <<cap, gen, bad>>
                      ELSE IF v[1] = -1
                      THEN IF v[2] = 0 THEN (cap' = v[4] /\ gen' = 0 /\ own' = [s \in 0..(v[4] - 1) |-> Nobody]) /\ bad' = bad
                           ELSE IF CanGrow(v[4]) THEN SGrow(v[4]) /\ bad' = bad ELSE bad' = bad \cup {"shrunk-below-contents"} /\ UNCHANGED svars
                      ELSE IF CanWrite(v[1], v[2], v[3]) THEN SWrite(v[1], v[2], v[3]) /\ bad' = bad
                           ELSE /\ UNCHANGED svars
                                /\ bad' = bad \cup {IF v[2] # gen THEN "write-into-moved-array" ELSE IF v[3] \notin 0..(cap - 1) THEN "write-outside-array" ELSE "write-into-slot-of-another-thread"}
              ELSE /\ k' = k + 1 /\ e' = 1 /\ l' = l
                   /\ cap' = 0 /\ gen' = 0 /\ own' = [s \in {} |-> Nobody]
                   /\ bad' = bad
Next == \/ Step
        \/ /\ l <= Len(Trace) /\ (Trace[l].s # "ok" \/ k > Len(Arrays(Trace[l])))
           /\ LET b == IF Trace[l].s = "ok" THEN bad ELSE {"status"}
              IN IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(Trace[l].id) \o " " \o ToString(b))
           /\ l' = l + 1 /\ k' = 1 /\ e' = 1 /\ bad' = {}
           /\ cap' = 0 /\ gen' = 0 /\ own' = [s \in {} |-> Nobody]
Spec == Init /\ [][Next]_vars
RECURSIVE Steps1(_, _), Steps(_)
Steps1(A, n) == IF n = 0 THEN 1 ELSE Len(A[n].ev) + 1 + Steps1(A, n - 1)
Steps(n) == IF n = 0 THEN 0 ELSE (IF Trace[n].s = "ok" THEN Steps1(Arrays(Trace[n]), Len(Arrays(Trace[n]))) ELSE 1) + Steps(n - 1)
Accepted == TLCGet("stats").diameter - 1 = Steps(Len(Trace))
===============================================================================
