---- MODULE ReachAlgo ----
(* spasm_reach / spasm_dfs: the pattern of x in x*U = b.  xj[1..head] is the recursion stack, xj[top+1..M] the
   output, both in one array of size M; marks survive a call only if they are erased.  Two calls share one
   workspace.  All U patterns (which pivotal rows, which entries; order of entries nondeterministic) and all
   pairs of right-hand sides.                                                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS M, NRows, Calls,
          NoUnmark,      \* marks are not erased between calls
          NoPivotSkip,   \* the scanning position is saved before the entry instead of after (re-examined; harmless)
          Reversed       \* columns are returned in the order they leave, not the opposite
Cols == 1 .. M
VARIABLES U, qinv, rhs, call, xj, head, top, rest, marks, seeds, pc, outs
vars == <<U, qinv, rhs, call, xj, head, top, rest, marks, seeds, pc, outs>>
(* row i of U has its pivot on column piv(i); acyclic: other entries of a row are on columns that are not pivots
   of earlier rows: U is upper triangular up to permutation *)
Init == /\ \E piv \in [1 .. NRows -> Cols] :
             /\ \A a, b \in 1 .. NRows : a /= b => piv[a] /= piv[b]
             /\ qinv = [j \in Cols |-> IF \E i \in 1 .. NRows : piv[i] = j THEN CHOOSE i \in 1 .. NRows : piv[i] = j ELSE 0]
             /\ U \in [1 .. NRows -> SUBSET Cols]
             /\ \A i \in 1 .. NRows : piv[i] \in U[i] /\ \A h \in 1 .. i - 1 : piv[h] \notin U[i]
        /\ rhs \in [1 .. Calls -> SUBSET Cols]
        /\ call = 1 /\ xj = [k \in Cols |-> 0] /\ head = 0 /\ top = M /\ rest = [k \in Cols |-> {}]
        /\ marks = {} /\ seeds = rhs[1] /\ pc = "seed" /\ outs = <<>>

Push(j) == /\ head < top       \* the stack must not run into the output
           /\ head' = head + 1
Seed == /\ pc = "seed" /\ seeds /= {}
        /\ \E j \in seeds :
             /\ seeds' = seeds \ {j}
             /\ IF j \in marks THEN UNCHANGED <<xj, head, pc>>
                ELSE xj' = [xj EXCEPT ![1] = j] /\ head' = 1 /\ pc' = "enter"
        /\ UNCHANGED <<U, qinv, rhs, call, top, rest, marks, outs>>
Enter == /\ pc = "enter"
         /\ LET j == xj[head] IN
            /\ marks' = marks \cup {j}
            /\ rest' = [rest EXCEPT ![head] = IF qinv[j] = 0 THEN {} ELSE U[qinv[j]]]
         /\ pc' = "scan"
         /\ UNCHANGED <<U, qinv, rhs, call, xj, head, top, seeds, outs>>
Scan == /\ pc = "scan"
        /\ IF rest[head] \ marks /= {}
           THEN \E k \in rest[head] \ marks :
                  /\ rest' = [rest EXCEPT ![head] = IF NoPivotSkip THEN @ ELSE @ \ {k}]
                  /\ IF head < M
                     THEN xj' = [xj EXCEPT ![head + 1] = k] /\ head' = head + 1 /\ pc' = "enter"
                     ELSE UNCHANGED <<xj, head>> /\ pc' = "overflow"
                  /\ UNCHANGED <<top, marks>>
           ELSE /\ top' = top - 1
                /\ xj' = [xj EXCEPT ![top] = xj[head]]
                /\ head' = head - 1
                /\ UNCHANGED marks
                /\ pc' = IF head = 1 THEN "seed" ELSE "scan"
                /\ UNCHANGED rest
        /\ UNCHANGED <<U, qinv, rhs, call, seeds, outs>>
Return == /\ pc = "seed" /\ seeds = {}
          /\ outs' = Append(outs, IF Reversed THEN [k \in 1 .. M - top |-> xj[M + 1 - k]] ELSE SubSeq(xj, top + 1, M))
          /\ marks' = IF NoUnmark THEN marks ELSE marks \ {xj[k] : k \in top + 1 .. M}
          /\ top' = M /\ head' = 0
          /\ IF call = Calls THEN pc' = "done" /\ UNCHANGED <<call, seeds>>
             ELSE call' = call + 1 /\ seeds' = rhs[call + 1] /\ pc' = "seed"
          /\ UNCHANGED <<U, qinv, rhs, xj, rest>>
Done == pc \in {"done", "overflow"} /\ UNCHANGED vars
Next == Seed \/ Enter \/ Scan \/ Return \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Seed \/ Enter \/ Scan \/ Return)

RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {U[qinv[j]] : j \in {j \in S : qinv[j] /= 0}} IN IF T = S THEN S ELSE Close(T)
Range(s) == {s[k] : k \in DOMAIN s}
(* every returned list is the reachable set, each column once, every column after those that update it *)
Correct == \A c \in DOMAIN outs :
             /\ Range(outs[c]) = Close(rhs[c])
             /\ Cardinality(Range(outs[c])) = Len(outs[c])
             /\ \A a, b \in DOMAIN outs[c] : LET i == qinv[outs[c][a]] IN
                   (i /= 0 /\ outs[c][b] /= outs[c][a] /\ outs[c][b] \in U[i]) => a < b
NoClash == head <= top /\ pc /= "overflow"
Clean == pc = "done" => marks = {}
Terminates == <>(pc = "done")
====
