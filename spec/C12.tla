---------------------------------- MODULE C12 ----------------------------------
(* Maximum matchings (contract of spasm_maximum_matching and of the matching transformations).     *)
EXTENDS Replay, Graph

(* the matching of P*A*Q that corresponds to jm: row i of the permuted matrix is row p[i]; column  *)
(* j of A becomes column qinv[j] *)
PermRow(jm, p, qinv) == [i \in 1..Len(jm) |-> IF jm[p[i] + 1] = -1 THEN -1 ELSE qinv[jm[p[i] + 1] + 1]]
Inv(p) == LET q == PermInv(p) IN [v \in 1..Len(p) |-> q[v] - 1]

(* a matrix of which only the last rows are given; all the rows before are full, and there are columns enough for them *)
Far(r) == LET A == r.a.A
              jm == r.o.jmatch
          IN Cl("inverse", r.o.inverse) \cup Cl("size", r.o.size = r.o.full + MatchSize(jm))
             \cup Cl("entries", Len(jm) = A.n /\ \A i \in 1..A.n : jm[i] # -1 => jm[i] \in Adj(A, i - 1))
             \cup Cl("maximum", r.o.size = r.o.before + SRank(A))
Fail(r) ==
  IF r.s # "ok" THEN {"status"}
  ELSE IF Has(r.a, "far") THEN Far(r)
  ELSE LET A == r.a.A
           jm == r.o.jmatch
           im == r.o.imatch
           basic == Cl("valid", IsMatching(A, jm, im)) \cup Cl("pure", r.o.pure)
       IN IF basic # {} THEN basic
          ELSE Cl("size", r.o.size = MatchSize(jm))
            \cup Cl("maximum", r.o.size = SRank(A))
            \cup Cl("berge", NoAugmenting(A, jm, im))
            \cup (IF r.a.more = 0 THEN {} ELSE
                  Cl("permrow", r.o.pj = PermRow(jm, r.a.p, Inv(r.a.q)))
                  \cup Cl("permcol", r.o.pi = PermRow(im, r.a.q, Inv(r.a.p)))
                  \cup (IF ~Has(r.o, "sub") THEN {} ELSE
                        Cl("sub", r.o.sub = [i \in 1..(r.a.b - r.a.a) |-> LET v == jm[r.a.a + i] IN IF v = -1 THEN -1 ELSE v - r.a.c])))
================================================================================
