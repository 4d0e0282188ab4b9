----------------------------- MODULE PivotSearch -----------------------------
(* The parallel search for structural pivots (spasm_find_cycle_free_pivots): threads examine rows  *)
(* without pivot; each search is a transaction that starts by noting the number of pivots found so *)
(* far, walks alternating paths through the pivot table while others extend it, and commits a      *)
(* surviving column only if no pivot was added meanwhile; otherwise it examines the pivots that     *)
(* were added (the journal) and goes on.  Checked for every matrix of a small family and every      *)
(* interleaving: the pivots are entries of the matrix, on distinct rows and columns, and admit a    *)
(* triangular order at all times.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads,
          Base,               \* rows that have a pivot before the search: sequence of <<columns, pivot column>>
          NCand, Cols,        \* number of rows without pivot, columns
          MaxLen,             \* entries per such row
          LateBegin,          \* note the number of pivots after having started reading the table
          NoHit,              \* a new pivot on a column already reached is not followed
          NoRetry,            \* commit even though pivots were added
          SplitCommit         \* the table and the counter change outside the critical section
VARIABLES cand,               \* the rows (sets of columns), chosen at the start
          piv,                \* column -> row that has its pivot there, 0 = none
          journal, npiv, lock,
          todo,               \* rows not yet handed out
          pc, row, scan, w, queue, seen, tgt, sel
vars == <<cand, piv, journal, npiv, lock, todo, pc, row, scan, w, queue, seen, tgt, sel>>
NB == Len(Base)
RowCols(i) == IF i <= NB THEN Base[i][1] ELSE cand[i - NB]
RowsBy(lo, hi) == {S \in SUBSET Cols : Cardinality(S) \in lo..hi}
Free == -1
(* marks: 0 absent, 1 entry of the row still possible, 2 reached *)
NoMark == [c \in Cols |-> 0]
Init == /\ cand \in [1..NCand -> RowsBy(2, MaxLen)]
        /\ \A k \in 1..NCand : cand[k] \cap {Base[i][2] : i \in 1..NB} # {}
        /\ piv = [c \in Cols |-> IF \E i \in 1..NB : Base[i][2] = c THEN CHOOSE i \in 1..NB : Base[i][2] = c ELSE 0]
        /\ journal = <<>> /\ npiv = 0 /\ lock = Free /\ todo = 1
        /\ pc = [t \in Threads |-> "idle"] /\ row = [t \in Threads |-> 0] /\ scan = [t \in Threads |-> {}]
        /\ w = [t \in Threads |-> NoMark] /\ queue = [t \in Threads |-> <<>>]
        /\ seen = [t \in Threads |-> 0] /\ tgt = [t \in Threads |-> 0] /\ sel = [t \in Threads |-> 0]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Table == <<piv, journal, npiv, lock>>
Surv(t) == {c \in Cols : w[t][c] = 1}
Take(t) == /\ pc[t] = "idle" /\ todo <= NCand /\ todo' = todo + 1
           /\ row' = [row EXCEPT ![t] = NB + todo] /\ scan' = [scan EXCEPT ![t] = cand[todo]]
           /\ Go(t, IF LateBegin THEN "scan" ELSE "begin") /\ UNCHANGED <<cand, Table, w, queue, seen, tgt, sel>>
Begin(t) == /\ pc[t] = "begin" /\ seen' = [seen EXCEPT ![t] = npiv]
            /\ Go(t, IF LateBegin THEN "bfs" ELSE "scan") /\ UNCHANGED <<cand, Table, todo, row, scan, w, queue, tgt, sel>>
Least(S) == CHOOSE c \in S : \A d \in S : c <= d
Scan(t) == /\ pc[t] = "scan"
           /\ IF scan[t] = {} THEN Go(t, IF LateBegin THEN "begin" ELSE "bfs") /\ UNCHANGED <<scan, w, queue>>
              ELSE LET c == Least(scan[t]) IN
                   /\ scan' = [scan EXCEPT ![t] = @ \ {c}] /\ pc' = pc
                   /\ IF piv[c] = 0 THEN w' = [w EXCEPT ![t][c] = 1] /\ queue' = queue
                      ELSE w' = [w EXCEPT ![t][c] = 2] /\ queue' = [queue EXCEPT ![t] = Append(@, c)]
           /\ UNCHANGED <<cand, Table, todo, row, seen, tgt, sel>>
RECURSIVE Enq(_, _, _)
Enq(q, m, S) == IF S = {} THEN <<q, m>> ELSE LET c == Least(S) IN
                Enq(IF m[c] # 2 THEN Append(q, c) ELSE q, IF m[c] # 2 THEN [m EXCEPT ![c] = 2] ELSE m, S \ {c})
Bfs(t) == /\ pc[t] = "bfs"
          /\ IF queue[t] = <<>> \/ Surv(t) = {}
             THEN Go(t, IF Surv(t) = {} THEN "clean" ELSE "choose") /\ UNCHANGED <<w, queue>>
             ELSE LET c == Head(queue[t])
                      i == piv[c]
                      e == IF i = 0 THEN <<Tail(queue[t]), w[t]>> ELSE Enq(Tail(queue[t]), w[t], RowCols(i))
                  IN /\ queue' = [queue EXCEPT ![t] = e[1]] /\ w' = [w EXCEPT ![t] = e[2]] /\ pc' = pc
          /\ UNCHANGED <<cand, Table, todo, row, scan, seen, tgt, sel>>
Choose(t) == /\ pc[t] = "choose" /\ \E c \in Surv(t) \cap RowCols(row[t]) : sel' = [sel EXCEPT ![t] = c]
             /\ Go(t, "enter") /\ UNCHANGED <<cand, Table, todo, row, scan, w, queue, seen, tgt>>
Enter(t) == /\ pc[t] = "enter" /\ lock = Free /\ lock' = t
            /\ IF NoRetry \/ npiv = seen[t] THEN Go(t, IF SplitCommit THEN "unlock" ELSE "register") /\ tgt' = tgt ELSE Go(t, "fail") /\ tgt' = [tgt EXCEPT ![t] = npiv]
            /\ UNCHANGED <<cand, piv, journal, npiv, todo, row, scan, w, queue, seen, sel>>
Register(t) == /\ pc[t] = "register" /\ piv' = [piv EXCEPT ![sel[t]] = row[t]] /\ Go(t, "log")
               /\ UNCHANGED <<cand, journal, npiv, lock, todo, row, scan, w, queue, seen, tgt, sel>>
Log(t) == /\ pc[t] = "log" /\ journal' = Append(SubSeq(journal, 1, npiv), sel[t]) /\ Go(t, "count")
          /\ UNCHANGED <<cand, piv, npiv, lock, todo, row, scan, w, queue, seen, tgt, sel>>
Count(t) == /\ pc[t] = "count" /\ npiv' = npiv + 1 /\ Go(t, IF SplitCommit THEN "clean" ELSE "unlock")
            /\ UNCHANGED <<cand, piv, journal, lock, todo, row, scan, w, queue, seen, tgt, sel>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = Free /\ Go(t, IF SplitCommit THEN "register" ELSE "clean")
             /\ UNCHANGED <<cand, piv, journal, npiv, todo, row, scan, w, queue, seen, tgt, sel>>
Fail(t) == /\ pc[t] = "fail" /\ lock' = Free /\ Go(t, "replay")
           /\ UNCHANGED <<cand, piv, journal, npiv, todo, row, scan, w, queue, seen, tgt, sel>>
Replay(t) == /\ pc[t] = "replay"
             /\ IF seen[t] = tgt[t] THEN Go(t, "bfs") /\ UNCHANGED <<w, queue, seen>>
                ELSE LET c == journal[seen[t] + 1]
                         e == CASE w[t][c] = 0 -> <<queue[t], w[t]>>
                                [] w[t][c] = 1 -> Enq(queue[t], w[t], {c})
                                [] w[t][c] = 2 -> IF NoHit THEN <<queue[t], w[t]>> ELSE Enq(queue[t], w[t], RowCols(piv[c]))
                     IN /\ seen' = [seen EXCEPT ![t] = @ + 1] /\ pc' = pc
                        /\ queue' = [queue EXCEPT ![t] = e[1]] /\ w' = [w EXCEPT ![t] = e[2]]
             /\ UNCHANGED <<cand, Table, todo, row, scan, tgt, sel>>
Clean(t) == /\ pc[t] = "clean" /\ w' = [w EXCEPT ![t] = NoMark] /\ queue' = [queue EXCEPT ![t] = <<>>] /\ Go(t, "idle")
            /\ row' = [row EXCEPT ![t] = 0] /\ sel' = [sel EXCEPT ![t] = 0] /\ tgt' = [tgt EXCEPT ![t] = 0] /\ seen' = [seen EXCEPT ![t] = 0]
            /\ UNCHANGED <<cand, Table, todo, scan>>
Terminated == todo > NCand /\ \A t \in Threads : pc[t] = "idle"
Step(t) == Take(t) \/ Begin(t) \/ Scan(t) \/ Bfs(t) \/ Choose(t) \/ Enter(t) \/ Register(t) \/ Log(t) \/ Count(t) \/ Unlock(t) \/ Fail(t) \/ Replay(t) \/ Clean(t)
Next == (\E t \in Threads : Step(t)) \/ (Terminated /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
(* ---- properties ---- *)
Pivots == {c \in Cols : piv[c] # 0}
Entries == \A c \in Pivots : c \in RowCols(piv[c])
Distinct == \A c, d \in Pivots : c # d => piv[c] # piv[d]
(* column c must be eliminated before d when the pivot row of c has an entry on the pivotal column d *)
Arc(c, d) == c # d /\ d \in RowCols(piv[c])
RECURSIVE Peel(_)
Peel(S) == LET free == {c \in S : \A d \in S : ~Arc(d, c)} IN IF S = {} THEN TRUE ELSE IF free = {} THEN FALSE ELSE Peel(S \ free)
Acyclic == Peel(Pivots)
JournalOK == \A k \in 1..npiv : piv[journal[k]] > NB
Kept == [][\A c \in Cols : piv[c] # 0 => piv'[c] = piv[c]]_vars
Counted == lock = Free => SplitCommit \/ npiv = Cardinality(Pivots) - NB
Terminates == <>Terminated
===============================================================================
