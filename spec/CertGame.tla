---- MODULE CertGame ----
(* The rank certificate as a game: the prover commits to (r, rows, columns), the verifier draws a challenge, the
   prover answers, the verifier applies the tests of spasm_certificate_rank_verify.  For every N x M matrix over
   GF(P) and every commitment, meaningful or not, the number of challenges that some answer survives is counted.
   Complete: a true claim on pivots survives all of them.  Sound: any other claim survives at most one in P.
   The prover commits before the draw (in the code the challenge depends on
   the digest of the matrix only: a prover who may choose the commitment afterwards is not covered).                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, N, M,
          NoFirst,       \* the first equation is not tested
          NoSecond,      \* the second equation is not tested
          TailOnly,      \* the second equation is tested outside the pivotal columns only
          NoCommit       \* the commitment is not checked for range: rows may be repeated and columns too
F == 0 .. P - 1
Is == 1 .. N
Js == 1 .. M
VARIABLES A, r, ri, cj, pc, won
vars == <<A, r, ri, cj, pc, won>>
Vec(n) == [1 .. n -> F]
RECURSIVE Dot(_, _, _)
Dot(x, j, k) == IF k = 0 THEN 0 ELSE (Dot(x, j, k - 1) + x[k] * A[k][j]) % P
Image(x) == [j \in Js |-> Dot(x, j, N)]
(* the row vector built from the answers; later positions overwrite earlier ones, as in the code *)
Pos(i) == {k \in 1 .. r : ri[k] = i}
Last(S) == CHOOSE k \in S : \A l \in S : l <= k
Put(a, other) == [i \in Is |-> IF Pos(i) /= {} THEN a[Last(Pos(i))] ELSE other[i]]
Free == {i \in Is : Pos(i) = {}}
Order(i) == Cardinality({t \in Free : t <= i})
Eq1(c, a) == LET z == Image(Put(a, [i \in Is |-> 0])) IN \A k \in 1 .. r : z[cj[k]] = c[k]
Cols2 == IF TailOnly THEN Js \ {cj[k] : k \in 1 .. r} ELSE Js
Eq2(c, a) == LET z == Image(Put(a, [i \in Is |-> IF i \in Free THEN c[Order(i)] ELSE 0])) IN \A j \in Cols2 : z[j] = 0
Win1 == IF NoFirst THEN Vec(r) ELSE {c \in Vec(r) : \E a \in Vec(r) : Eq1(c, a)}
Win2 == LET f == Cardinality(Free) IN IF NoSecond THEN Vec(f) ELSE {c \in Vec(f) : \E a \in Vec(r) : Eq2(c, a)}
Total1 == P ^ r
Total2 == P ^ Cardinality(Free)

RECURSIVE Dim(_)
Dim(k) == IF k = 1 THEN 0 ELSE 1 + Dim(k \div P)
RowRank(S) == Dim(Cardinality({Image([i \in Is |-> IF i \in S THEN x[i] ELSE 0]) : x \in Vec(N)}))
Rank == RowRank(Is)
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ A \in [Is -> Vec(M)]
        /\ r \in 0 .. Min(N, M)
        /\ ri \in [1 .. r -> Is] /\ cj \in [1 .. r -> Js]
        /\ (~NoCommit) => \A a, b \in 1 .. r : a /= b => ri[a] /= ri[b] /\ cj[a] /= cj[b]
        /\ pc = "committed" /\ won = <<0, 0>>
Play == /\ pc = "committed" /\ pc' = "played"
        /\ won' = <<Cardinality(Win1), Cardinality(Win2)>>
        /\ UNCHANGED <<A, r, ri, cj>>
Stay == pc = "played" /\ UNCHANGED vars
Next == Play \/ Stay
Spec == Init /\ [][Next]_vars
(* the rows carry the rank and the pivotal block is invertible on the columns *)
Block == Cardinality({[k \in 1 .. r |-> Image(Put(a, [i \in Is |-> 0]))[cj[k]]] : a \in Vec(r)}) = Total1
Good == r = Rank /\ RowRank({ri[k] : k \in 1 .. r}) = r /\ Block
Complete == pc = "played" /\ Good => won[1] = Total1 /\ won[2] = Total2
Sound == pc = "played" /\ r /= Rank => won[1] * won[2] * P <= Total1 * Total2
====
