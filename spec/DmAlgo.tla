---- MODULE DmAlgo ----
(* The coarse Dulmage-Mendelsohn decomposition of spasm_dm.c as a state machine: ANY maximum matching, a search
   from the unmatched rows (it marks 3), a search from the unmatched columns on the transpose (it marks 1), and
   the collection of the marked lines into two permutations and five bounds.  Every bipartite graph of N rows and
   M columns, every maximum matching of it, every order of the two searches.  The oracle knows nothing of
   searches: a line belongs to the horizontal or vertical part when some maximum matching misses it.
   Switches turn on mistakes.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M,
          NotMaximum,      \* the matching may be improved
          OneHop,          \* the partner of a marked column is marked but not put in the queue
          SameGraph,       \* the second search runs on the rows again (no transpose)
          NoReset,         \* the marks are 0 at the start, not -1
          CollectLate      \* the unmatched columns are collected after the matched ones
Rows == 1 .. N
Cols == 1 .. M
VARIABLES adj, im, jm, wi, wj, queue, pc, p, q, rr, cc
vars == <<adj, im, jm, wi, wj, queue, pc, p, q, rr, cc>>

Matchings(a) == {f \in [Rows -> 0 .. M] : /\ \A i \in Rows : f[i] /= 0 => f[i] \in a[i]
                                          /\ \A i, k \in Rows : i /= k /\ f[i] /= 0 => f[i] /= f[k]}
Size(f) == Cardinality({i \in Rows : f[i] /= 0})
Maximal(f, a) == ~\E i \in Rows : f[i] = 0 /\ \E j \in a[i] : \A k \in Rows : f[k] /= j
(* size of a maximum matching of the rows i..N with the columns that are not used, row x left out *)
RECURSIVE Best(_, _, _, _)
Best(a, i, used, x) ==
    IF i > N THEN 0
    ELSE LET skip == Best(a, i + 1, used, x)
             take == IF i = x THEN {} ELSE {1 + Best(a, i + 1, used \cup {j}, x) : j \in a[i] \ used}
             all == take \cup {skip} IN
         CHOOSE v \in all : \A w \in all : w <= v
Maximum(a) == LET b == Best(a, 1, {}, 0) IN {f \in Matchings(a) : Size(f) = b}
Start == IF NoReset THEN 0 ELSE -1

Init == /\ adj \in [Rows -> SUBSET Cols]
        /\ jm \in (IF NotMaximum THEN {f \in Matchings(adj) : Maximal(f, adj)} ELSE Maximum(adj))
        /\ im = [j \in Cols |-> IF \E i \in Rows : jm[i] = j THEN CHOOSE i \in Rows : jm[i] = j ELSE 0]
        /\ wi = [i \in Rows |-> Start] /\ wj = [j \in Cols |-> Start]
        /\ queue = {} /\ pc = "seedR" /\ p = <<>> /\ q = <<>> /\ rr = <<>> /\ cc = <<>>

SeedR == /\ pc = "seedR" /\ pc' = "bfsR"
         /\ queue' = {i \in Rows : jm[i] = 0}
         /\ wi' = [i \in Rows |-> IF jm[i] = 0 THEN 0 ELSE wi[i]]
         /\ UNCHANGED <<adj, im, jm, wj, p, q, rr, cc>>
(* one row leaves the queue: all its unmarked columns are marked, their partners enter *)
BfsR == /\ pc = "bfsR"
        /\ IF queue = {} THEN pc' = "seedC" /\ UNCHANGED <<queue, wi, wj>>
           ELSE \E i \in queue :
                LET J == {j \in adj[i] : wj[j] < 0}
                    I == {im[j] : j \in J} \cap {k \in Rows : wi[k] < 0} IN
                /\ wj' = [j \in Cols |-> IF j \in J THEN 3 ELSE wj[j]]
                /\ wi' = [k \in Rows |-> IF k \in I THEN 3 ELSE wi[k]]
                /\ queue' = (queue \ {i}) \cup (IF OneHop THEN {} ELSE I)
                /\ pc' = IF 0 \in {im[j] : j \in J} THEN "outside" ELSE pc
        /\ UNCHANGED <<adj, im, jm, p, q, rr, cc>>
SeedC == /\ pc = "seedC" /\ pc' = "bfsC"
         /\ queue' = {j \in Cols : im[j] = 0}
         /\ wj' = [j \in Cols |-> IF im[j] = 0 THEN 0 ELSE wj[j]]
         /\ UNCHANGED <<adj, im, jm, wi, p, q, rr, cc>>
Back(j) == IF SameGraph THEN IF j \in Rows THEN {i \in Rows : i \in adj[j]} ELSE {} ELSE {i \in Rows : j \in adj[i]}
BfsC == /\ pc = "bfsC"
        /\ IF queue = {} THEN pc' = "collect" /\ UNCHANGED <<queue, wi, wj>>
           ELSE \E j \in queue :
                LET I == {i \in Back(j) : wi[i] < 0}
                    J == {jm[i] : i \in I} \cap {k \in Cols : wj[k] < 0} IN
                /\ wi' = [i \in Rows |-> IF i \in I THEN 1 ELSE wi[i]]
                /\ wj' = [k \in Cols |-> IF k \in J THEN 1 ELSE wj[k]]
                /\ queue' = (queue \ {j}) \cup (IF OneHop THEN {} ELSE J)
                /\ pc' = IF 0 \in {jm[i] : i \in I} THEN "outside" ELSE pc
        /\ UNCHANGED <<adj, im, jm, p, q, rr, cc>>

RECURSIVE Up(_, _, _)
Up(S, k, n) == IF k > n THEN <<>> ELSE (IF k \in S THEN <<k>> ELSE <<>>) \o Up(S, k + 1, n)
ColsWith(mark) == Up({j \in Cols : wj[j] = mark}, 1, M)
Partners(s) == [k \in DOMAIN s |-> im[s[k]]]
Collect == /\ pc = "collect" /\ pc' = "done"
           /\ LET c0 == ColsWith(0)
                  c1 == ColsWith(1)
                  c2 == ColsWith(-1)
                  c3 == ColsWith(3)
                  r0 == Up({i \in Rows : wi[i] = 0}, 1, N) IN
              /\ q' = IF CollectLate THEN c1 \o c0 \o c2 \o c3 ELSE c0 \o c1 \o c2 \o c3
              /\ p' = Partners(c1) \o Partners(c2) \o Partners(c3) \o r0
              /\ cc' = <<0, Len(c0), Len(c0) + Len(c1), Len(c0) + Len(c1) + Len(c2), Len(c0 \o c1 \o c2 \o c3)>>
              /\ rr' = <<0, Len(c1), Len(c1) + Len(c2), Len(c1) + Len(c2) + Len(c3), Len(c1 \o c2 \o c3 \o r0)>>
           /\ UNCHANGED <<adj, im, jm, wi, wj, queue>>
Done == pc = "done" /\ UNCHANGED vars
Next == SeedR \/ BfsR \/ SeedC \/ BfsC \/ Collect \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(SeedR \/ BfsR \/ SeedC \/ BfsC \/ Collect)

(* the definition: a line is loose when leaving it out costs nothing *)
LooseRows == LET b == Best(adj, 1, {}, 0) IN {i \in Rows : Best(adj, 1, {}, i) = b}
LooseCols == LET b == Best(adj, 1, {}, 0) IN {j \in Cols : Best(adj, 1, {j}, 0) = b}
Seg(s, b, k) == {s[x] : x \in b[k] + 1 .. b[k + 1]}
Safe == pc /= "outside"        \* index -1 is never used: no alternating path leaves the matching
Perms == pc = "done" => /\ Len(p) = N /\ {p[k] : k \in DOMAIN p} = Rows
                        /\ Len(q) = M /\ {q[k] : k \in DOMAIN q} = Cols
Blocks == pc = "done" =>
    LET lr == LooseRows
        lc == LooseCols IN
    /\ Seg(p, rr, 3) \cup Seg(p, rr, 4) = lr
    /\ Seg(q, cc, 1) \cup Seg(q, cc, 2) = lc
    /\ Seg(q, cc, 4) = UNION {adj[i] : i \in lr}
    /\ Seg(p, rr, 1) = {i \in Rows : adj[i] \cap lc /= {}}
Aligned == pc = "done" =>      \* the matched lines meet on a diagonal of nonzero entries
    \A k \in 1 .. rr[4] : q[cc[2] + k] \in adj[p[k]]
Triangular == pc = "done" =>
    \A x \in DOMAIN p, y \in DOMAIN q : q[y] \in adj[p[x]] => /\ x > rr[2] => y > cc[3]
                                                              /\ x > rr[3] => y > cc[4]
Terminates == <>(pc \in {"done", "outside"})
====
