--------------------------------- MODULE Graph ---------------------------------
(* Sparse patterns as bipartite graphs (rows / columns) and, when square, as directed graphs.      *)
(* A pattern is a record n, m, p, j as in LinAlg (0-based indices).                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

GSlots(A, i) == (A.p[i + 1] + 1)..A.p[i + 2]              \* i in 0..n-1
Adj(A, i) == {A.j[k] : k \in GSlots(A, i)}                \* columns present in row i
Rows(A) == 0..(A.n - 1)
Cols(A) == 0..(A.m - 1)
Edge(A, i, j) == j \in Adj(A, i)

(* ---- matchings: a set of (row, column) edges, no two on a line ---- *)
RECURSIVE MMSet(_, _, _, _)
MaxN(S) == CHOOSE x \in S : \A y \in S : y <= x
(* size of a maximum matching using rows i..n-1 of the set R and columns of the set C *)
MMSet(A, R, C, i) == IF i >= A.n THEN 0
    ELSE IF i \notin R THEN MMSet(A, R, C, i + 1)
    ELSE MaxN({MMSet(A, R, C, i + 1)} \cup {1 + MMSet(A, R, C \ {j}, i + 1) : j \in Adj(A, i) \cap C})
MaxMatch(A, R, C) == MMSet(A, R, C, 0)                    \* (J)
SRank(A) == MaxMatch(A, Rows(A), Cols(A))                 \* structural rank

(* mutually inverse partial maps that use existing entries only; -1 = unmatched *)
IsMatching(A, jm, im) ==
    /\ Len(jm) = A.n /\ Len(im) = A.m
    /\ \A i \in Rows(A) : jm[i + 1] = -1 \/ (jm[i + 1] \in Cols(A) /\ Edge(A, i, jm[i + 1]) /\ im[jm[i + 1] + 1] = i)
    /\ \A j \in Cols(A) : im[j + 1] = -1 \/ (im[j + 1] \in Rows(A) /\ jm[im[j + 1] + 1] = j)
MatchSize(jm) == Cardinality({i \in 1..Len(jm) : jm[i] # -1})
(* the columns met by a set of rows *)
AdjAll(A, R) == UNION {Adj(A, i) : i \in R}               \* (J)
(* no augmenting path (Berge): alternating closure of the unmatched rows *)
RECURSIVE AltClose(_, _, _)
AltClose(A, im, R) == LET C == AdjAll(A, R)
                          R2 == R \cup {im[j + 1] : j \in {c \in C : im[c + 1] # -1}}
                      IN IF R2 = R THEN R ELSE AltClose(A, im, R2)   \* (J)
NoAugmenting(A, jm, im) == LET R == AltClose(A, im, {i \in Rows(A) : jm[i + 1] = -1})
                           IN \A i \in R : \A j \in Adj(A, i) : im[j + 1] # -1

(* ---- Dulmage-Mendelsohn: a column is in the horizontal part when some maximum matching misses   *)
(* it, a row is in the vertical part when some maximum matching misses it                          *)
HCols(A) == LET k == TLCEval(SRank(A)) IN {j \in Cols(A) : MaxMatch(A, Rows(A), Cols(A) \ {j}) = k}     \* (J)
VRows(A) == LET k == TLCEval(SRank(A)) IN {i \in Rows(A) : MaxMatch(A, Rows(A) \ {i}, Cols(A)) = k}     \* (J)
HRowsOf(A, hc) == {i \in Rows(A) : \E j \in Adj(A, i) : j \in hc}
HRows(A) == LET hc == TLCEval(HCols(A)) IN HRowsOf(A, hc)
VCols(A) == AdjAll(A, VRows(A))
SRows(A) == Rows(A) \ (VRows(A) \cup HRows(A))
SCols(A) == Cols(A) \ (VCols(A) \cup HCols(A))

(* ---- directed graphs (square patterns): Reach(A)[i+1] = vertices reachable from i, i included ---- *)
RECURSIVE ReachFrom(_, _)
ReachFrom(A, S) == LET T == S \cup UNION {Adj(A, i) : i \in S} IN IF T = S THEN S ELSE ReachFrom(A, T)
Reach(A) == [i \in 1..A.n |-> ReachFrom(A, {i - 1})]      \* (J)
(* the same for a graph given by its successor sets: succ[i+1] = successors of i *)
RECURSIVE SReachFrom(_, _)
SReachFrom(succ, S) == LET T == S \cup UNION {succ[i + 1] : i \in S} IN IF T = S THEN S ELSE SReachFrom(succ, T)
CReach(succ) == [i \in 1..Len(succ) |-> SReachFrom(succ, {i - 1})]
(* the strongly connected component of each vertex, named by its smallest vertex *)
CSccLabel(succ) == LET R == CReach(succ)                  \* (J)
                   IN [i \in 1..Len(succ) |-> CHOOSE v \in R[i] : i - 1 \in R[v + 1] /\ \A w \in R[i] : i - 1 \in R[w + 1] => v <= w]
SccLabel(A) == CSccLabel([i \in 1..A.n |-> Adj(A, i - 1)])
(* position k-1 belongs to block b when r[b] <= k-1 < r[b+1] *)
BlockOf(r, n) == [k \in 1..n |-> CHOOSE b \in 1..(Len(r) - 1) : r[b] <= k - 1 /\ k - 1 < r[b + 1]]   \* (J)
PermInv(p) == [v \in 1..Len(p) |-> CHOOSE k \in 1..Len(p) : p[k] = v - 1]                             \* (J)
================================================================================
