-------------------------------- MODULE LinAlgPure --------------------------------
(* Sparse matrices as the library exposes them (compressed rows: row i owns positions              *)
(* p[i]+1 .. p[i+1] of j and x; indices in j are 0-based) and their linear algebra.                *)
EXTENDS ZpPure, FiniteSets, TLC

Slots(A, i) == (A.p[i] + 1)..A.p[i + 1]                   \* i in 1..A.n

(* well-formed storage *)
WFShape(A) == /\ "n" \in DOMAIN A
              /\ A.n >= 0 /\ A.m >= 0 /\ Len(A.p) = A.n + 1 /\ A.p[1] = 0
              /\ \A i \in 1..A.n : A.p[i] <= A.p[i + 1]
              /\ Len(A.j) = A.p[A.n + 1]
              /\ \A k \in 1..Len(A.j) : A.j[k] \in 0..(A.m - 1)
WFVals(h, A) == A.v = 1 /\ Len(A.x) = Len(A.j) /\ \A k \in 1..Len(A.x) : IsRes(h, A.x[k])
WFMat(h, A) == WFShape(A) /\ (Len(A.j) = 0 \/ WFVals(h, A))    \* nothing is said about the values of a matrix without entries
NoZero(A) == \A k \in 1..Len(A.x) : A.x[k] # 0
NoDup(A) == \A i \in 1..A.n : Cardinality({A.j[k] : k \in Slots(A, i)}) = A.p[i + 1] - A.p[i]
Nnz(A) == A.p[A.n + 1]
(* the dense rows of the n * m matrix given by entries <<row, column, residue>> that add up *)
RECURSIVE SumEnt(_, _, _, _)
SumEnt(h, ent, D, e) == IF e > Len(ent) THEN D
   ELSE SumEnt(h, ent, [D EXCEPT ![ent[e][1] + 1] = [@ EXCEPT ![ent[e][2] + 1] = ZAdd(h, @, ent[e][3])]], e + 1)
DenseOf(h, n, m, ent) == SumEnt(h, ent, [i \in 1..n |-> VZero(m)], 1)                 \* (J)
(* the column sets of the rows of the pattern given by entries <<row, column, anything>> *)
PatOf(n, ent) == [i \in 1..n |-> {ent[e][2] : e \in {x \in 1..Len(ent) : ent[x][1] = i - 1}}]   \* (J)
(* where each value of a sequence of distinct integers is *)
IndexMap(s) == [v \in {s[k] : k \in 1..Len(s)} |-> CHOOSE k \in 1..Len(s) : s[k] = v]   \* (J)

RowCols(A, i) == {A.j[s] : s \in Slots(A, i)}
(* columns reachable from the set S: a pivotal column leads to the columns of its row *)
RECURSIVE ReachCols(_, _, _)
ReachCols(A, qinv, S) == LET S2 == S \cup UNION {RowCols(A, qinv[c + 1] + 1) : c \in {c \in S : qinv[c + 1] >= 0}}   \* (J)
                         IN IF S2 = S THEN S ELSE ReachCols(A, qinv, S2)
RECURSIVE SumAt(_, _, _, _, _)
SumAt(h, A, c, k, last) == IF k > last THEN 0
    ELSE IF A.j[k] = c THEN ZAdd(h, A.x[k], SumAt(h, A, c, k + 1, last)) ELSE SumAt(h, A, c, k + 1, last)
(* dense row i (1-based), entries at the same position add up *)
DRow(h, A, i) == [c \in 1..A.m |-> SumAt(h, A, c - 1, A.p[i] + 1, A.p[i + 1])]      \* (J)
Dense(h, A) == [i \in 1..A.n |-> DRow(h, A, i)]
SameMatrix(h, A, B) == A.n = B.n /\ A.m = B.m /\ \A i \in 1..A.n : DRow(h, A, i) = DRow(h, B, i)
PatRow(A, i) == {A.j[k] : k \in Slots(A, i)}
SamePattern(A, B) == A.n = B.n /\ A.m = B.m /\ \A i \in 1..A.n : PatRow(A, i) = PatRow(B, i)

(* x * A for a dense row vector x (length A.n), and A * y for a column (length A.m) *)
RECURSIVE VMRec(_, _, _, _)
VMRec(h, x, A, i) == IF i = 0 THEN VZero(A.m) ELSE VAxpy(h, x[i], DRow(h, A, i), VMRec(h, x, A, i - 1))
VecMat(h, x, A) == VMRec(h, x, A, A.n)                                              \* (J)
RECURSIVE Dot(_, _, _, _)
Dot(h, X, Y, c) == IF c = 0 THEN 0 ELSE ZAxpy(h, X[c], Y[c], Dot(h, X, Y, c - 1))   \* (J)
MatVec(h, A, y) == [i \in 1..A.n |-> Dot(h, DRow(h, A, i), y, A.m)]                 \* (J)
(* y + x * D for a list D of dense rows *)
RECURSIVE DVecMatR(_, _, _, _, _)
DVecMatR(h, x, D, y, i) == IF i = 0 THEN y ELSE VAxpy(h, x[i], D[i], DVecMatR(h, x, D, y, i - 1))
DVecMat(h, x, D, y) == DVecMatR(h, x, D, y, Len(D))                                 \* (J)
(* row i of the product L * U *)
ProdRow(h, L, i, U) == VecMat(h, DRow(h, L, i), U)                                  \* (J)
(* the rows of A listed in I (a set of row numbers) are those of L * U *)
ProdRows(h, L, I, U, A) == \A i \in I : ProdRow(h, L, i, U) = DRow(h, A, i)         \* (J)
(* L is lower triangular, without zeros on the diagonal, once its rows are taken in the order pi (0-based) *)
LowerAt(h, L, pi) == \A k \in 1..Len(pi) : LET row == DRow(h, L, pi[k] + 1)         \* (J)
                                           IN row[k] # 0 /\ \A c \in (k + 1)..L.m : row[c] = 0

(* rank of a list of dense rows, by elimination *)
NonZeroAt(v) == {c \in 1..Len(v) : v[c] # 0}
RECURSIVE RankOf(_, _)
RankOf(h, rows) ==
    IF rows = <<>> THEN 0
    ELSE LET v == rows[1]
             rest == Tail(rows)
         IN IF NonZeroAt(v) = {} THEN RankOf(h, rest)
            ELSE LET c == CHOOSE c \in NonZeroAt(v) : TRUE
                     a == ZInv(h, v[c])
                 IN 1 + RankOf(h, [i \in 1..Len(rest) |-> VAxpy(h, ZMul(h, ZMul(h, -1, rest[i][c]), a), v, rest[i])])
Rank(h, A) == RankOf(h, Dense(h, A))                                                \* (J)
(* A on top of B *)
Stack(A, B) == [n |-> A.n + B.n, m |-> A.m, v |-> 1,
                p |-> A.p \o [i \in 1..B.n |-> Nnz(A) + B.p[i + 1]], j |-> A.j \o B.j, x |-> A.x \o B.x]
RowSpaceIn(h, A, B) == Rank(h, Stack(B, A)) = Rank(h, B)          \* rowspace(A) is contained in rowspace(B)
SameRowSpace(h, A, B) == /\ A.m = B.m /\ RowSpaceIn(h, A, B) /\ RowSpaceIn(h, B, A)
(* the matrix with the rows of A listed in sequence s (1-based) *)
RECURSIVE PickP(_, _, _)
PickP(A, s, k) == IF k = 0 THEN <<0>> ELSE LET q == PickP(A, s, k - 1) IN Append(q, q[k] + A.p[s[k] + 1] - A.p[s[k]])
RECURSIVE PickSeq(_, _, _, _)
PickSeq(A, f, s, k) == IF k = 0 THEN <<>> ELSE PickSeq(A, f, s, k - 1) \o SubSeq(f, A.p[s[k]] + 1, A.p[s[k] + 1])
PickRows(A, s) == [n |-> Len(s), m |-> A.m, v |-> 1, p |-> PickP(A, s, Len(s)),     \* (J)
                   j |-> PickSeq(A, A.j, s, Len(s)), x |-> PickSeq(A, A.x, s, Len(s))]

(* ---- echelon forms ---- *)
PivCol(U, i) == U.j[U.p[i] + 1]                          \* column (0-based) of the first entry of row i
(* each row starts with a 1 on its own pivot column, the table qinv locates exactly these, and no   *)
(* row has a non-zero coefficient on the pivot column of an earlier row                            *)
PivotsFirst(U) == \A i \in 1..U.n : U.p[i] < U.p[i + 1] /\ U.x[U.p[i] + 1] = 1
PivotsLocated(U, qinv) == /\ Len(qinv) = U.m
                          /\ \A i \in 1..U.n : qinv[PivCol(U, i) + 1] = i - 1
                          /\ \A c \in 1..U.m : qinv[c] = -1 \/ (qinv[c] \in 0..(U.n - 1) /\ PivCol(U, qinv[c] + 1) = c - 1)
Triangular(U, qinv) == \A i \in 1..U.n : \A k \in (U.p[i] + 2)..U.p[i + 1] :
                          U.x[k] # 0 => LET q == qinv[U.j[k] + 1] IN q = -1 \/ q > i - 1
EchelonForm(h, U, qinv) == WFMat(h, U) /\ NoDup(U) /\ PivotsFirst(U) /\ PivotsLocated(U, qinv) /\ Triangular(U, qinv)

(* eliminate the pivot columns of U from v, processing rows in order *)
RECURSIVE ElimRec(_, _, _, _)
ElimRec(h, U, v, i) == IF i > U.n THEN v
    ELSE ElimRec(h, U, VAxpy(h, ZMul(h, -1, v[PivCol(U, i) + 1]), DRow(h, U, i), v), i + 1)
Elim(h, U, v) == ElimRec(h, U, v, 1)                                                \* (J)
(* coefficient used for each row of U during that elimination *)
RECURSIVE ElimCRec(_, _, _, _)
ElimCRec(h, U, v, i) == IF i > U.n THEN <<>>
    ELSE LET a == v[PivCol(U, i) + 1] IN <<a>> \o ElimCRec(h, U, VAxpy(h, ZMul(h, -1, a), DRow(h, U, i), v), i + 1)
ElimCoeffs(h, U, v) == ElimCRec(h, U, v, 1)                                         \* (J)

(* the same with the pivot column piv[i] of row i given (it need not come first), rows taken in     *)
(* the order ord (a sequence of row numbers); coefficients are listed by row number                *)
RECURSIVE ElimPRec(_, _, _, _, _, _)
ElimPRec(h, U, piv, ord, v, k) == IF k > Len(ord) THEN v
    ELSE ElimPRec(h, U, piv, ord, VAxpy(h, ZMul(h, -1, v[piv[ord[k]] + 1]), DRow(h, U, ord[k]), v), k + 1)
ElimP(h, U, piv, ord, v) == ElimPRec(h, U, piv, ord, v, 1)                          \* (J)
RECURSIVE ElimPCRec(_, _, _, _, _, _, _)
ElimPCRec(h, U, piv, ord, v, k, c) == IF k > Len(ord) THEN c
    ELSE LET a == v[piv[ord[k]] + 1]
         IN ElimPCRec(h, U, piv, ord, VAxpy(h, ZMul(h, -1, a), DRow(h, U, ord[k]), v), k + 1, [c EXCEPT ![ord[k]] = a])
ElimPC(h, U, piv, ord, v) == ElimPCRec(h, U, piv, ord, v, 1, VZero(U.n))            \* (J)
===============================================================================
