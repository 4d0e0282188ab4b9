---------------------------------- MODULE Ech ----------------------------------
(* What a factorization returned by echelonization, and everything computed from it, must satisfy. *)
(* a: h, A, opts (only what decides the expected outcome), o: what the library returned.           *)
EXTENDS Replay, LinAlg

Shape(a, o) == WFMat(a.h, o.U) /\ o.U.m = a.A.m /\ o.U.n = o.r /\ o.r >= 0
Unchanged(a, o) == Cl("input-modified", WFMat(a.h, o.A2) /\ SameMatrix(a.h, a.A, o.A2))
(* ---- C01 ---- *)
(* a.full: some finishing method is usable whatever the (estimated) density *)
Basis(a, o) ==
    IF ~Shape(a, o) THEN {"well-formed"}
    ELSE Cl("pivots-first", PivotsFirst(o.U))
         \cup (IF PivotsFirst(o.U) THEN Cl("pivot-table", PivotsLocated(o.U, o.qinv)) ELSE {})
         \cup (IF PivotsFirst(o.U) /\ PivotsLocated(o.U, o.qinv) THEN Cl("echelon", Triangular(o.U, o.qinv)) ELSE {})
         \cup Cl("no-duplicate", NoDup(o.U))
         \cup LET ra == Rank(a.h, a.A) IN
              Cl("independent", Rank(a.h, o.U) = o.r)
              \cup Cl("inside-row-space", Rank(a.h, Stack(a.A, o.U)) = ra)
              \cup (IF a.full THEN Cl("rank", o.r = ra) ELSE Cl("rank", o.r <= ra))
(* ---- C02 ---- *)
LShape(a, o, L) == WFMat(a.h, L) /\ L.n = a.A.n /\ L.m = o.r
PivRows(a, o, L, U) == ProdRows(a.h, L, {o.Lp[k] + 1 : k \in 1..o.r}, U, a.A)
AllRows(a, L, U) == ProdRows(a.h, L, 1..a.A.n, U, a.A)
LowerTri(a, o) == LowerAt(a.h, o.L, o.Lp)
PermOK(a, o) == Len(o.Lp) = o.r /\ Injective(o.Lp) /\ \A k \in 1..o.r : o.Lp[k] \in 0..(a.A.n - 1)
Factors(a, o) ==
    IF ~(Shape(a, o) /\ Has(o, "L")) THEN {"well-formed"}
    ELSE IF ~LShape(a, o, o.L) THEN {"well-formed-L"}
    ELSE IF ~PermOK(a, o) THEN {"row-permutation"}
    ELSE Cl("product-pivotal", PivRows(a, o, o.L, o.U))
         \cup Cl("lower-triangular", LowerTri(a, o))
         \cup (IF a.complete /\ a.full THEN Cl("product-complete", o.complete /\ AllRows(a, o.L, o.U)) ELSE {})
         \cup (IF a.full THEN Cl("rank", o.r = Rank(a.h, a.A)) ELSE {})
         \cup (IF Has(o, "fv") THEN Cl("check-accepts", \A t \in 1..Len(o.fv) : o.fv[t] = 1) ELSE {})
         \cup (IF Has(o, "fv2") /\ Has(o, "L2")
               THEN IF PivRows(a, o, o.L2, o.U2)
                    THEN (IF a.complete /\ ~AllRows(a, o.L2, o.U2) THEN {} ELSE Cl("check-accepts-2", \A t \in 1..Len(o.fv2) : o.fv2[t] = 1))
                    ELSE (IF a.h > 1000000000 THEN Cl("check-rejects", \A t \in 1..Len(o.fv2) : o.fv2[t] = 0) ELSE {})
               ELSE {})
(* ---- C03 ---- *)
KerOf(a, o, K, name) ==
    IF ~(WFMat(a.h, K) /\ K.m = a.A.m /\ NoDup(K)) THEN {name \o "-well-formed"}
    ELSE Cl(name \o "-dimension", K.n = a.A.m - Rank(a.h, a.A))
         \cup Cl(name \o "-independent", Rank(a.h, K) = K.n)
         \cup Cl(name \o "-orthogonal", \A i \in 1..K.n : MatVec(a.h, a.A, DRow(a.h, K, i)) = VZero(a.A.n))
Kernels(a, o) == LET c == KerOf(a, o, o.K, "kernel") \cup (IF Has(o, "KR") THEN KerOf(a, o, o.KR, "rref-kernel") ELSE {})
                 IN c \cup (IF c = {} /\ Has(o, "KR") THEN Cl("same-space", Rank(a.h, Stack(o.K, o.KR)) = o.K.n) ELSE {})
(* ---- C04 ---- *)
Cols(U) == {PivCol(U, i) : i \in 1..U.n}
Reduced(a, o) ==
    IF ~(Shape(a, o) /\ PivotsFirst(o.U) /\ PivotsLocated(o.U, o.qinv)) THEN {"echelon-form"}
    ELSE IF ~(WFMat(a.h, o.R) /\ o.R.m = a.A.m /\ o.R.n = o.r /\ NoDup(o.R)) THEN {"well-formed"}
    ELSE IF ~PivotsFirst(o.R) THEN {"pivots-first"}
    ELSE Cl("pivot-columns", Cols(o.R) = Cols(o.U))
         \cup Cl("pivot-table", PivotsLocated(o.R, o.Rqinv))
         \cup Cl("reduced", \A i \in 1..o.R.n : \A k \in (o.R.p[i] + 2)..o.R.p[i + 1] : o.R.x[k] # 0 => o.R.j[k] \notin Cols(o.R))
         \cup Cl("row-space", Rank(a.h, Stack(o.U, o.R)) = o.r)
(* ---- C05 ---- *)
One(b, m) == [n |-> 1, m |-> m, v |-> 1, p |-> <<0, m>>, j |-> [c \in 1..m |-> c - 1], x |-> b]
Solvable(a, b) == Rank(a.h, Stack(a.A, One(b, a.A.m))) = Rank(a.h, a.A)
CanonV(a, x, n) == Len(x) = n /\ \A i \in 1..n : IsRes(a.h, x[i])
SolveOne(a, b, s) == Cl("decision", s.ok = Solvable(a, b)) \cup Cl("rhs-kept", s.pure)
                     \cup (IF Solvable(a, b) THEN Cl("solution", CanonV(a, s.x, a.A.n) /\ VecMat(a.h, s.x, a.A) = b) ELSE {})
Solves(a, o) == IF Len(o.sol) # Len(a.b) THEN {"count"} ELSE UNION {SolveOne(a, a.b[t], o.sol[t]) : t \in 1..Len(a.b)}
(* what row i of a batch asks and gets; equal rows are judged once *)
Row(A, i) == <<SubSeq(A.j, A.p[i] + 1, A.p[i + 1]), SubSeq(A.x, A.p[i] + 1, A.p[i + 1])>>
OfRow(r, m) == [n |-> 1, m |-> m, v |-> 1, p |-> <<0, Len(r[1])>>, j |-> r[1], x |-> r[2]]
Multi(a, o) == IF ~(WFMat(a.h, o.X) /\ o.X.n = a.B.n /\ o.X.m = a.A.n /\ NoDup(o.X)) THEN {"gesv-well-formed"}
               ELSE UNION {LET b == DRow(a.h, OfRow(q[1], a.B.m), 1)
                               s == Solvable(a, b)
                           IN (IF a.withok THEN Cl("gesv-decision", q[3] = (IF s THEN 1 ELSE 0)) ELSE {})
                              \cup (IF s THEN Cl("gesv-solution", VecMat(a.h, DRow(a.h, OfRow(q[2], a.A.n), 1), a.A) = b) ELSE {})
                           : q \in {<<Row(a.B, i), Row(o.X, i), IF a.withok THEN o.ok[i] ELSE 0>> : i \in 1..a.B.n}}
================================================================================
