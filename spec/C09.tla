---------------------------------- MODULE C09 ----------------------------------
(* Results assembled in parallel from a given echelon form U (and lower factor L): each computed   *)
(* row once, intact.  a.kind: 0 reduced form, 1 kernel, 2 several right-hand sides.                *)
EXTENDS Ech
Form(a) == [U |-> a.U, qinv |-> a.qinv, r |-> a.U.n]
(* reduced form: row by row, since it is unique *)
Rref(a, o) == IF ~(WFMat(a.h, o.R) /\ o.R.n = a.U.n /\ o.R.m = a.U.m /\ NoDup(o.R) /\ PivotsFirst(o.R)) THEN {"well-formed"}
              ELSE Reduced(a @@ [A |-> a.U], o @@ Form(a))
(* kernel: the vector of column j is determined by -1 on column j and 0 on the other free columns *)
Free(a) == {c \in 1..a.U.m : a.qinv[c] < 0}
Ker(a, o) == IF ~(WFMat(a.h, o.K) /\ o.K.n = Cardinality(Free(a)) /\ o.K.m = a.U.m /\ NoDup(o.K)) THEN {"well-formed"}
             ELSE LET D == TLCEval(Dense(a.h, o.K))  F == TLCEval(Free(a)) IN
                  Cl("one-row-per-free-column", {{c \in F : D[i][c] # 0} : i \in 1..o.K.n} = {{c} : c \in F})
                  \cup Cl("orthogonal", \A i \in 1..o.K.n : MatVec(a.h, a.U, D[i]) = VZero(a.U.n))
(* X * L * U = B wherever B allows it *)
Gesv(a, o) == IF ~(WFMat(a.h, o.X) /\ o.X.n = a.B.n /\ o.X.m = a.L.n /\ NoDup(o.X)) THEN {"well-formed"}
              ELSE LET ru == a.U.n IN
                   UNION {LET b == DRow(a.h, a.B, i)
                              sol == Rank(a.h, Stack(a.U, One(b, a.U.m))) = ru
                          IN (IF a.withok THEN Cl("decision", o.ok[i] = (IF sol THEN 1 ELSE 0)) ELSE {})
                             \cup (IF sol THEN Cl("solution", VecMat(a.h, VecMat(a.h, DRow(a.h, o.X, i), a.L), a.U) = b) ELSE {}) : i \in 1..a.B.n}
Fail(r) == IF r.s # "ok" THEN {"status"}
           ELSE CASE r.a.kind = 0 -> Rref(r.a, r.o)
                  [] r.a.kind = 1 -> Ker(r.a, r.o)
                  [] r.a.kind = 2 -> Gesv(r.a, r.o)
================================================================================
