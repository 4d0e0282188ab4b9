---------------------------------- MODULE C08 ----------------------------------
(* Structural pivots extracted from A: distinct rows and columns, entries of A, triangular order,  *)
(* whatever the interleaving of the parallel search.                                               *)
EXTENDS Replay, LinAlg

Lab(a, i) == IF a.pin = <<>> THEN i ELSE a.pin[i + 1]
AtRow(a, i, c) == DRow(a.h, a.A, i)[c + 1]
Scaled(h, f, v) == [c \in 1..Len(v) |-> ZMul(h, f, v[c])]
RowOK(a, o, k) == LET c == PivCol(o.U, k)
                      i == o.p[k] + 1
                      piv == AtRow(a, i, c)
                  IN piv # 0 /\ DRow(a.h, o.U, k) = Scaled(a.h, ZInv(a.h, piv), DRow(a.h, a.A, i))
LOK(a, o) == /\ o.L.fits /\ o.L.nz = o.npiv
             /\ Len(o.Lp) = o.npiv /\ \A k \in 1..o.npiv : o.Lp[k] = Lab(a, o.p[k])
             /\ {<<o.L.i[t], o.L.j[t], o.L.x[t]>> : t \in 1..o.L.nz} = {<<Lab(a, o.p[k]), k - 1, AtRow(a, o.p[k] + 1, PivCol(o.U, k))>> : k \in 1..o.npiv}
Fail(r) ==
  IF r.s # "ok" THEN {"status"}
  ELSE LET a == r.a  o == r.o IN
       IF ~(WFMat(a.h, o.U) /\ o.U.m = a.A.m /\ o.npiv = o.U.n) THEN {"count-or-shape"}
       ELSE IF ~IsPerm0(o.p, a.A.n) THEN {"row-order"}
       ELSE IF ~(PivotsFirst(o.U) /\ PivotsLocated(o.U, o.qinv)) THEN {"pivot-table"}
       ELSE Cl("rows", \A k \in 1..o.npiv : RowOK(a, o, k))
            \cup Cl("no-duplicate", NoDup(o.U) /\ NoZero(o.U))
            \cup Cl("acyclic-order", Triangular(o.U, o.qinv))
            \cup (IF a.wl = 1 /\ (\A k \in 1..o.npiv : RowOK(a, o, k)) THEN Cl("lower-factor", LOK(a, o)) ELSE {})
================================================================================
