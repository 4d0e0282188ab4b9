---------------------------------- MODULE C20 ----------------------------------
(* Dense elimination wrappers and representations of field elements in dense storage.              *)
EXTENDS Replay, LinAlg

AsMat(R, m) == [n |-> Len(R), m |-> m, v |-> 1, p |-> [i \in 1..(Len(R) + 1) |-> (i - 1) * m],
                j |-> [t \in 1..(Len(R) * m) |-> (t - 1) % m], x |-> [t \in 1..(Len(R) * m) |-> R[((t - 1) \div m) + 1][((t - 1) % m) + 1]]]
Canon(a, o) == \A i \in 1..a.n : \A c \in 1..a.m : IsRes(a.h, o.D[i][c])
(* rows of the reduced form: implicit 1 on column q[i], stored part on columns q[rank+1 ..] *)
RRow(o, at, i) == [c \in 1..Len(o.q) |-> LET k == at[c - 1] IN IF k = i THEN 1 ELSE IF k <= o.rank THEN 0 ELSE o.D[i][k]]
Rref(a, o) == LET at == IndexMap(o.q)
                  R == TLCEval([i \in 1..o.rank |-> RRow(o, at, i)])
                  MA == AsMat(a.D, a.m)
                  MR == AsMat(R, a.m)
              IN Cl("rank", o.rank = Rank(a.h, MA)) \cup Cl("rowspace", Rank(a.h, Stack(MA, MR)) = o.rank /\ o.rank = Rank(a.h, MA))
(* P A = L U: unit upper U (rows 1..rank, columns permuted by q), L below and on the diagonal *)
URow(o, at, i) == [c \in 1..Len(o.q) |-> LET k == at[c - 1] IN IF k = i THEN 1 ELSE IF k < i THEN 0 ELSE o.D[i][k]]
Min2(x, y) == IF x < y THEN x ELSE y
LU(a, o) == LET at == IndexMap(o.q)
                U == TLCEval(AsMat(TLCEval([i \in 1..o.rank |-> URow(o, at, i)]), a.m))
            IN Cl("rank", o.rank = Rank(a.h, AsMat(a.D, a.m)))
               \cup Cl("row-permutation", IsPerm0(o.pp, a.n))
               \cup (IF ~IsPerm0(o.pp, a.n) THEN {} ELSE
                     Cl("product", \A i \in 1..a.n : VecMat(a.h, [j \in 1..o.rank |-> IF j <= i THEN o.D[i][j] ELSE 0], U) = a.D[o.pp[i] + 1])
                     \cup Cl("unit-free-diagonal", \A i \in 1..o.rank : o.D[i][i] # 0))
DenseF(a, o) == IF ~(o.rank >= 0 /\ o.rank <= Min2(a.n, a.m) /\ IsPerm0(o.q, a.m)) THEN {"shape"}
                ELSE IF ~Canon(a, o) THEN {"canonical"}
                ELSE Cl("padding", o.pad) \cup (IF a.op = "rref" THEN Rref(a, o) ELSE LU(a, o))
Dtype(a, o) == Cl("round-trip", o.back = a.v) \cup Cl("size", o.size = (CASE o.name = "double" -> 8 [] o.name = "float" -> 4 [] o.name = "i64" -> 8 [] OTHER -> 0))
Fail(r) == IF r.s # "ok" THEN {"status"} ELSE IF r.a.op = "dtype" THEN Dtype(r.a, r.o) ELSE DenseF(r.a, r.o)
================================================================================
