---------------------------------- MODULE C14 ----------------------------------
(* Strongly connected components of a square pattern read as a directed graph (edge i -> j for     *)
(* every entry (i,j)).                                                                             *)
EXTENDS Replay, Graph, TLC
Mono(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]

Fail(rec) ==
  IF rec.s # "ok" THEN {"status"}
  ELSE LET A == rec.a.A
           o == rec.o
           n == A.n
           r == o.r
       IN IF ~(IsPerm0(o.p, n) /\ o.q = o.p) THEN {"perm"}
          ELSE IF n = 0 THEN Cl("nb", o.nb = 0)
          ELSE IF ~(o.nb \in 1..n /\ Len(r) = o.nb + 1 /\ r[1] = 0 /\ r[o.nb + 1] = n /\ o.c = r
                    /\ \A b \in 1..o.nb : r[b] < r[b + 1]) THEN {"blocks"}
          ELSE LET lab == TLCEval(SccLabel(A))
                   blkpos == TLCEval(BlockOf(r, n))
                   inv == TLCEval(PermInv(o.p))
                   blk == TLCEval([v \in 1..n |-> blkpos[inv[v]]])
                   both == {<<blk[v], lab[v]>> : v \in 1..n}
               \* same block <=> same component
               IN Cl("scc", Cardinality(both) = o.nb /\ Cardinality({lab[v] : v \in 1..n}) = o.nb)
                  \cup Cl("topological", \A u \in 1..n : \A v \in Adj(A, u - 1) : blk[u] <= blk[v + 1])
                  \cup Cl("pure", o.pure)
================================================================================
