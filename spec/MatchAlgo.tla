---- MODULE MatchAlgo ----
(* The maximum matching of spasm_matching.c as a state machine: one augmenting search per unmatched row, depth
   first, with a lookahead that never moves backwards.  Explored for every bipartite graph of N rows and M
   columns, every order of the entries inside the rows included.  Switches turn on mistakes.                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M,
          StaleMarks,      \* rows stay marked from one search to the next
          StalePointer,    \* a row is entered without resetting its scanning position
          TopOnly,         \* the augmentation stops before the root of the path
          SkipLook         \* the lookahead position is moved past an unmatched column
Rows == 1 .. N
Cols == 1 .. M
Inj == UNION {{s \in [1 .. k -> Cols] : \A a, b \in 1 .. k : a /= b => s[a] /= s[b]} : k \in 0 .. M}
VARIABLES adj, row, p, q, marks, look, ist, jst, pst, pc, size
vars == <<adj, row, p, q, marks, look, ist, jst, pst, pc, size>>

RECURSIVE Best(_, _, _)
Best(a, i, used) == IF i > N THEN 0
                    ELSE LET skip == Best(a, i + 1, used)
                             take == {1 + Best(a, i + 1, used \cup {a[i][k]}) : k \in {k \in DOMAIN a[i] : a[i][k] \notin used}}
                         IN CHOOSE v \in take \cup {skip} : \A w \in take \cup {skip} : w <= v

Init == /\ adj \in [Rows -> Inj]
        /\ row = 0 /\ p = [i \in Rows |-> 0] /\ q = [j \in Cols |-> 0]
        /\ marks = [i \in Rows |-> 0] /\ look = [i \in Rows |-> 0]
        /\ ist = <<>> /\ jst = [h \in Rows |-> 0] /\ pst = [h \in Rows |-> 0] /\ pc = "row" /\ size = 0

Top == ist[Len(ist)]
NextRow == /\ pc = "row"
           /\ IF row = N \/ size = (IF N < M THEN N ELSE M) THEN pc' = "done" /\ UNCHANGED <<row, ist>>
              ELSE /\ row' = row + 1
                   /\ IF p[row + 1] = 0 THEN pc' = "look" /\ ist' = <<row + 1>> ELSE UNCHANGED <<pc, ist>>
           /\ UNCHANGED <<adj, p, q, marks, look, jst, pst, size>>

Marked(i) == IF StaleMarks THEN marks[i] /= 0 ELSE marks[i] = row
Free(i) == {k \in look[i] + 1 .. Len(adj[i]) : q[adj[i][k]] = 0}
First(S) == CHOOSE k \in S : \A l \in S : k <= l
(* the path ist[1..h] / js[1..h] becomes part of the matching, from its end to its root *)
RECURSIVE Augment(_, _, _, _, _)
Augment(h, js, pp, qq, stop) == IF h = stop THEN <<pp, qq>>
                                ELSE Augment(h - 1, js, [pp EXCEPT ![ist[h]] = js[h]], [qq EXCEPT ![js[h]] = ist[h]], stop)
Look == /\ pc = "look" /\ ist /= <<>>
        /\ LET i == Top
               h == Len(ist) IN
           IF Marked(i) THEN pc' = "scan" /\ UNCHANGED <<p, q, marks, look, jst, pst, size, ist>>
           ELSE /\ marks' = [marks EXCEPT ![i] = row]
                /\ IF Free(i) /= {}
                   THEN LET k == First(Free(i))
                            js == [jst EXCEPT ![h] = adj[i][k]]
                            r == Augment(h, js, p, q, IF TopOnly /\ h > 2 THEN 1 ELSE 0) IN
                        /\ look' = [look EXCEPT ![i] = k - 1]
                        /\ jst' = js /\ p' = r[1] /\ q' = r[2] /\ size' = size + 1 /\ pc' = "row" /\ ist' = <<>> /\ UNCHANGED pst
                   ELSE /\ look' = [look EXCEPT ![i] = IF SkipLook THEN Len(adj[i]) + 1 ELSE Len(adj[i])]
                        /\ pst' = IF StalePointer THEN pst ELSE [pst EXCEPT ![h] = 0]
                        /\ pc' = "scan" /\ UNCHANGED <<p, q, jst, size, ist>>
        /\ UNCHANGED <<adj, row>>

Scan == /\ pc = "scan"
        /\ LET i == Top
               h == Len(ist)
               cand == {k \in pst[h] + 1 .. Len(adj[i]) : q[adj[i][k]] /= 0 /\ ~Marked(q[adj[i][k]])} IN
           IF cand = {} THEN /\ ist' = SubSeq(ist, 1, h - 1)
                             /\ pc' = IF h = 1 THEN "row" ELSE "scan"
                             /\ UNCHANGED <<jst, pst>>
           ELSE LET k == First(cand) IN
                /\ pst' = [pst EXCEPT ![h] = @ + 1]      \* as in the code: counts descents, not positions
                /\ jst' = [jst EXCEPT ![h] = adj[i][k]]
                /\ ist' = Append(ist, q[adj[i][k]])
                /\ pc' = "look"
        /\ UNCHANGED <<adj, row, p, q, marks, look, size>>

Done == pc = "done" /\ UNCHANGED vars
Next == NextRow \/ Look \/ Scan \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(NextRow \/ Look \/ Scan)

Has(i, j) == \E k \in DOMAIN adj[i] : adj[i][k] = j
Valid == /\ \A i \in Rows : p[i] /= 0 => q[p[i]] = i /\ Has(i, p[i])
         /\ \A j \in Cols : q[j] /= 0 => p[q[j]] = j
         /\ size = Cardinality({i \in Rows : p[i] /= 0})
(* the assertion of the code: after the lookahead every adjacent column is matched *)
AllMatched == pc = "scan" => \A k \in DOMAIN adj[Top] : q[adj[Top][k]] /= 0
Maximum == pc = "done" => size = Best(adj, 1, {})
Monotone == [][(\A i \in Rows : p[i] /= 0 => p'[i] /= 0) /\ (\A j \in Cols : q[j] /= 0 => q'[j] /= 0)]_vars
Terminates == <>(pc = "done")
====
