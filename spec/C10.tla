---------------------------------- MODULE C10 ----------------------------------
(* Schur complements: rows of A (listed by prm) with the pivots of U eliminated.                   *)
EXTENDS Replay, LinAlg

Lab(a, k) == IF a.pin = <<>> THEN a.prm[k] ELSE a.pin[a.prm[k] + 1]
NonPiv(a) == {c \in 0..(a.A.m - 1) : a.qinv[c + 1] < 0}
RowE(a, k) == ElimP(a.h, a.U, a.piv, a.ord, DRow(a.h, a.A, a.prm[k] + 1))
CoefE(a, k) == ElimPC(a.h, a.U, a.piv, a.ord, DRow(a.h, a.A, a.prm[k] + 1))
Index(a) == IndexMap([k \in 1..Len(a.prm) |-> Lab(a, k)])     \* position of a label in the list of rows

(* elimination coefficients: entries <<row label, row of U, value>> added to L, each exactly once *)
LOK(a, L) == /\ L.fits
             /\ Len(L.i) = L.nz /\ Len(L.j) = L.nz /\ Len(L.x) = L.nz /\ L.nz >= Len(a.pre)
             /\ \A t \in 1..Len(a.pre) : L.i[t] = a.pre[t] /\ L.j[t] = 0 /\ L.x[t] = 1
             /\ LET at == Index(a)
                    C == TLCEval([k \in 1..Len(a.prm) |-> CoefE(a, k)])
                    T == (Len(a.pre) + 1)..L.nz
                IN /\ L.nz - Len(a.pre) = Cardinality({ki \in (1..Len(a.prm)) \X (1..a.U.n) : C[ki[1]][ki[2]] # 0})
                   /\ Cardinality({<<L.i[t], L.j[t]>> : t \in T}) = L.nz - Len(a.pre)
                   /\ \A t \in T : L.i[t] \in DOMAIN at /\ L.j[t] \in 0..(a.U.n - 1) /\ L.x[t] # 0 /\ L.x[t] = C[at[L.i[t]]][L.j[t] + 1]
LClause(a, o) == IF a.wl = 1 THEN Cl("coefficients", LOK(a, o.L)) ELSE {}
Labels(a, pout) == Len(pout) = Len(a.prm) /\ SeqSet(pout) = {Lab(a, k) : k \in 1..Len(a.prm)}

Sparse(a, o) ==
    IF ~(WFMat(a.h, o.S) /\ o.S.n = Len(a.prm) /\ o.S.m = a.A.m) THEN {"well-formed"}
    ELSE IF ~Labels(a, o.pout) THEN {"labels"}
    ELSE Cl("rows", LET at == Index(a) IN \A s \in 1..o.S.n : DRow(a.h, o.S, s) = RowE(a, at[o.pout[s]]))
         \cup Cl("entries", NoZero(o.S) /\ NoDup(o.S)) \cup LClause(a, o)

QOK(a, o) == Len(o.q) = Cardinality(NonPiv(a)) /\ SeqSet(o.q) = NonPiv(a)
CanonD(a, D) == \A s \in 1..Len(D) : \A c \in 1..Len(D[s]) : IsRes(a.h, D[s][c])
At(row, q) == LET v == TLCEval(row) IN [c \in 1..Len(q) |-> v[q[c] + 1]]
DenseS(a, o) ==
    IF ~(QOK(a, o) /\ Len(o.D) = Len(a.prm) /\ CanonD(a, o.D)) THEN {"well-formed"}
    ELSE IF ~Labels(a, o.pout) THEN {"labels"}
    ELSE Cl("rows", LET at == Index(a) IN \A s \in 1..Len(o.D) : o.D[s] = At(RowE(a, at[o.pout[s]]), o.q)) \cup LClause(a, o)

(* a list of dense rows as a matrix record *)
AsMat(R, m) == [n |-> Len(R), m |-> m, v |-> 1, p |-> [i \in 1..(Len(R) + 1) |-> (i - 1) * m],
                j |-> [t \in 1..(Len(R) * m) |-> (t - 1) % m], x |-> [t \in 1..(Len(R) * m) |-> R[((t - 1) \div m) + 1][((t - 1) % m) + 1]]]
Multiple(h, u, v) == \/ \A c \in 1..Len(u) : u[c] = 0
                     \/ \E c \in 1..Len(v) : v[c] # 0 /\ LET f == ZMul(h, u[c], ZInv(h, v[c])) IN f # 0 /\ \A d \in 1..Len(v) : u[d] = ZMul(h, f, v[d])
Random(a, o) ==
    IF ~(QOK(a, o) /\ Len(o.D) = a.N /\ CanonD(a, o.D)) THEN {"well-formed"}
    ELSE LET sm == Len(o.q)
             E == TLCEval([k \in 1..Len(a.prm) |-> At(RowE(a, k), o.q)])
             re == Rank(a.h, AsMat(E, sm))
         IN IF sm = 0 THEN {}
            ELSE Cl("span", Rank(a.h, AsMat(E \o o.D, sm)) = re)
                 \cup (IF a.w = 1 THEN Cl("single-row", \A s \in 1..Len(o.D) : \E k \in 1..Len(E) : Multiple(a.h, o.D[s], E[k])) ELSE {})
                 (* combinations of all the rows are uniform: over a large field they reach the largest possible rank *)
                 \cup (IF a.w <= 0 /\ a.h > 1000000000 THEN Cl("full-rank", Rank(a.h, AsMat(o.D, sm)) = (IF re < a.N THEN re ELSE a.N)) ELSE {})
Weight(row) == Cardinality(NonZeroAt(row))
Density(a, o) == LET W == {Weight(RowE(a, k)) : k \in 1..Len(a.prm)}
                     lo == CHOOSE w \in W : \A v \in W : w <= v
                     hi == CHOOSE w \in W : \A v \in W : w >= v
                 IN Cl("density-integral", o.int)
                    \cup (IF W = {} THEN Cl("density", o.cnt = 0) ELSE Cl("density", o.cnt >= a.N * lo /\ o.cnt <= a.N * hi))
Fail(r) == IF r.s # "ok" THEN {"status"}
           ELSE CASE r.a.kind = 0 -> Sparse(r.a, r.o)
                  [] r.a.kind = 1 -> DenseS(r.a, r.o)
                  [] r.a.kind = 2 -> Random(r.a, r.o)
                  [] r.a.kind = 3 -> Density(r.a, r.o)
================================================================================
