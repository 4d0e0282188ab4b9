---- MODULE EchPhases ----
(* The control structure of spasm_echelonize: rounds of structural pivots and Schur complements, then one
   finishing method (GPLU with early abort, dense blocks with a switch to low-rank mode, low-rank mode) or none.
   Everything the code decides by heuristics is nondeterministic here: which structural pivots are found, when to
   stop the rounds, which method finishes, which combinations are drawn, when dense mode gives up.
   A row is the set of its nonzero columns over GF(2): control does not depend on the field.  The completion test
   is taken to be exact (its error is 2^-128 in the code).  All N x M matrices.  Switches turn on mistakes, the
   first four of which were in the code or were planted there.                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M, MaxRound, Block,
          LocalBound,     \* GPLU stops at min(n, m) pivots, those of earlier rounds included
          PrefixTest,     \* the completion test of GPLU looks only at the rows seen so far
          ForgetRows,     \* the dense loop gives up on the wrong rows when it switches mode
          BoundTwice,     \* low-rank mode lowers its bound twice
          KeepPivots,     \* after the last round the pivotal rows of the previous matrix are skipped again
          NoRetry         \* low-rank mode stops at the first empty draw, untested
Cols == 1 .. M
VARIABLES A0, A, U, round, npiv, order, pc, i, since, ub, processed, full
vars == <<A0, A, U, round, npiv, order, pc, i, since, ub, processed, full>>
Xor(v, w) == (v \ w) \cup (w \ v)
Min(a, b) == IF a < b THEN a ELSE b

(* U is a sequence of <<vector, pivot>>; elimination in order *)
RECURSIVE Red(_, _, _)
Red(v, u, k) == IF k > Len(u) THEN v ELSE Red(IF u[k][2] \in v THEN Xor(v, u[k][1]) ELSE v, u, k + 1)
Reduce(v, u) == Red(v, u, 1)
RECURSIVE Span(_)
Span(S) == IF S = {} THEN {{}} ELSE LET v == CHOOSE v \in S : TRUE
                                       T == Span(S \ {v}) IN T \cup {Xor(v, t) : t \in T}
RECURSIVE Log(_)
Log(k) == IF k = 1 THEN 0 ELSE 1 + Log(k \div 2)
Rank(S) == Log(Cardinality(Span(S)))
Rows(s) == {s[k] : k \in DOMAIN s}
(* echelonize a set of vectors already free of U's pivots: any pivot order, RREF among themselves *)
RECURSIVE Ech(_, _)
Ech(S, acc) == LET T == {Reduce(v, acc) : v \in S} \ {{}} IN
               IF T = {} THEN acc
               ELSE LET v == CHOOSE v \in T : TRUE
                        j == CHOOSE j \in v : \A k \in v : j <= k IN Ech(S, Append(acc, <<v, j>>))
AddAll(u, S) == LET T == {Reduce(v, u) : v \in S} \ {{}} IN Ech(T, u)

Init == /\ A0 \in [1 .. N -> SUBSET Cols]
        /\ A = A0 /\ U = <<>> /\ round = 0 /\ npiv = 0 /\ order = [k \in 1 .. N |-> k]
        /\ pc = "round" /\ i = 0 /\ since = 0 /\ ub = 0 /\ processed = 0 /\ full = FALSE
n == Len(A)
PivCols == {U[k][2] : k \in DOMAIN U}
(* structural pivots: entries of the current matrix, triangular after reordering *)
Found(s, c) == \A a \in DOMAIN s : /\ c[a] \in A[s[a]]
                                   /\ \A b \in DOMAIN s : a < b => s[a] /= s[b] /\ c[a] /= c[b] /\ c[a] \notin A[s[b]]
Rest(s) == CHOOSE t \in [1 .. n - Len(s) -> 1 .. n] :
             /\ Rows(t) = (1 .. n) \ Rows(s) /\ \A a, b \in DOMAIN t : a < b => t[a] < t[b]
Search == /\ pc = "round" /\ round < MaxRound
          /\ IF \A k \in 1 .. n : A[k] = {} THEN pc' = "done" /\ full' = TRUE /\ UNCHANGED <<U, npiv, order>>
             ELSE \E k \in 0 .. Min(n, M - Len(U)) : \E s \in [1 .. k -> 1 .. n], c \in [1 .. k -> Cols] :
                    /\ Found(s, c)
                    /\ U' = U \o [a \in 1 .. k |-> <<A[s[a]], c[a]>>]
                    /\ npiv' = k
                    /\ order' = s \o Rest(s)
                    /\ pc' \in (IF k = 0 THEN {"finish"} ELSE {"finish", "schur"})
                    /\ UNCHANGED full
          /\ UNCHANGED <<A0, A, round, i, since, ub, processed>>
Schur == /\ pc = "schur"
         /\ A' = [k \in 1 .. n - npiv |-> Reduce(A[order[npiv + k]], U)]
         /\ round' = round + 1 /\ pc' = "round"
         /\ UNCHANGED <<A0, U, npiv, order, i, since, ub, processed, full>>
LastRound == /\ pc = "round" /\ round = MaxRound
             /\ npiv' = IF KeepPivots THEN Min(npiv, n) ELSE 0
             /\ order' = [k \in 1 .. n |-> k]
             /\ pc' = "finish"
             /\ UNCHANGED <<A0, A, U, round, i, since, ub, processed, full>>
nn == n - npiv
Row(k) == A[order[npiv + k]]
Finish == /\ pc = "finish"
          /\ \/ pc' = "done" /\ UNCHANGED <<i, since, ub, processed, full>>     \* nothing enabled: incomplete
             \/ pc' = "gplu" /\ i' = 0 /\ since' = 0 /\ full' = TRUE /\ UNCHANGED processed
                /\ ub' = IF LocalBound THEN Min(nn, M) ELSE Len(U) + Min(nn, M - Len(U))
             \/ pc' = "dense" /\ processed' = 0 /\ full' = TRUE /\ UNCHANGED <<i, since, ub>>
             \/ pc' = "low" /\ processed' = 0 /\ ub' = Min(nn, M - Len(U)) /\ full' = TRUE /\ UNCHANGED <<i, since>>
          /\ UNCHANGED <<A0, A, U, round, npiv, order>>
Exhausted(from, to) == \A k \in from .. to : Reduce(Row(k), U) = {}
Gplu == /\ pc = "gplu"
        /\ \/ (i = nn \/ Len(U) = ub) /\ pc' = "done" /\ UNCHANGED <<i, U, since>>
           \/ since > 0 /\ Exhausted(1, IF PrefixTest THEN i ELSE nn) /\ pc' = "done" /\ UNCHANGED <<i, U, since>>
           \/ /\ i < nn /\ Len(U) /= ub
              /\ i' = i + 1 /\ UNCHANGED pc
              /\ LET v == Reduce(Row(i + 1), U) IN
                 IF v = {} THEN since' = since + 1 /\ UNCHANGED U
                 ELSE since' = 0 /\ U' = Append(U, <<v, CHOOSE j \in v : \A k \in v : j <= k>>)
        /\ UNCHANGED <<A0, A, round, npiv, order, ub, processed, full>>
Dense == /\ pc = "dense"
         /\ LET sn == Min(Block, nn - processed) IN
            IF sn <= 0 THEN pc' = "done" /\ UNCHANGED <<U, processed, ub>>
            ELSE /\ U' = AddAll(U, {Row(processed + k) : k \in 1 .. sn})
                 /\ processed' = processed + sn
                 /\ \/ pc' = "dense" /\ UNCHANGED ub
                    \/ LET left == nn - processed'
                           b == Min(left, M - Len(U')) IN
                       /\ ub' = b /\ pc' = IF b > 0 THEN "low" ELSE "done"
         /\ UNCHANGED <<A0, A, round, npiv, order, i, since, full>>
LowRows == IF ForgetRows THEN {Row(k) : k \in 1 .. nn - processed} ELSE {Row(k) : k \in processed + 1 .. nn}
Low == /\ pc = "low"
       /\ LET sn == Min(ub, Block)
              space == Span({Reduce(v, U) : v \in LowRows}) IN
          IF sn <= 0 THEN pc' = "done" /\ UNCHANGED <<U, ub>>
          ELSE \E D \in SUBSET space :
                 /\ Cardinality(D) <= sn
                 /\ LET u == AddAll(U, D)
                        rr == Len(u) - Len(U) IN
                    /\ U' = u
                    /\ ub' = ub - (IF BoundTwice THEN 2 * rr ELSE rr)
                    /\ pc' = IF rr = 0 /\ (NoRetry \/ space = {{}}) THEN "done" ELSE "low"
       /\ UNCHANGED <<A0, A, round, npiv, order, i, since, processed, full>>
Done == pc = "done" /\ UNCHANGED vars
Next == Search \/ Schur \/ LastRound \/ Finish \/ Gplu \/ Dense \/ Low \/ Done
Spec == Init /\ [][Next]_vars

Space == Span(Rows(A0))
(* at all times: rows of A's row space, distinct pivots, eliminable in order *)
Sound == /\ \A k \in DOMAIN U : U[k][1] \in Space /\ U[k][2] \in U[k][1]
         /\ \A a, b \in DOMAIN U : a < b => U[a][2] /= U[b][2] /\ U[a][2] \notin U[b][1]
         /\ Rank({U[k][1] : k \in DOMAIN U}) = Len(U)
Exact == pc = "done" /\ full => Len(U) = Rank(Rows(A0))
(* until the end nothing is lost: what is not yet in U can still be found in the rows ahead *)
NothingLost == pc \in {"round", "schur", "finish"} =>
                 Span({U[k][1] : k \in DOMAIN U} \cup {A[k] : k \in 1 .. n}) = Space
====
