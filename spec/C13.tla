---------------------------------- MODULE C13 ----------------------------------
(* Dulmage-Mendelsohn decomposition: canonical coarse blocks, strongly connected fine blocks.      *)
EXTENDS Replay, Graph, TLC

Mono(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
Slice(p, a, b) == {p[k] : k \in (a + 1)..b}

FineClauses(A, o) ==
  LET p == o.p
      q == o.q
      r1 == o.rr[2]
      c2 == o.cc[3]
      s == o.rr[3] - o.rr[2]
      nb == o.nb
      r == o.r
      c == o.c
      \* the square part as a digraph, position k standing for row p[r1+k] and column q[c2+k]
      qi == TLCEval(PermInv(q))
      In(j) == qi[j + 1] > c2 /\ qi[j + 1] <= c2 + s
      succ == TLCEval([k \in 1..s |-> {qi[j + 1] - c2 - 1 : j \in {j \in Adj(A, p[r1 + k]) : In(j)}}])
      lab == TLCEval(CSccLabel(succ))
      blkpos == TLCEval(BlockOf(r, A.n))
      blk == TLCEval([k \in 1..s |-> blkpos[r1 + k]])
  IN IF ~(Len(r) = nb + 1 /\ Len(c) = nb + 1 /\ r[1] = 0 /\ c[1] = 0 /\ r[nb + 1] = A.n /\ c[nb + 1] = A.m /\ Mono(r) /\ Mono(c)) THEN {"blocks"}
     ELSE IF ~(r[2] = r1 /\ c[2] = c2 /\ r[nb] = o.rr[3] /\ c[nb] = o.cc[4]) THEN {"blocks-coarse"}
     ELSE IF ~(\A b \in 2..(nb - 1) : r[b + 1] - r[b] = c[b + 1] - c[b] /\ r[b] < r[b + 1]) THEN {"blocks-square"}
     ELSE Cl("diagonal", \A k \in 1..s : (k - 1) \in succ[k])
          \cup Cl("fine-triangular", \A k \in 1..s : \A t \in succ[k] : blk[t + 1] >= blk[k])
          \* same block <=> same component
          \cup Cl("fine-scc", Cardinality({<<blk[k], lab[k]>> : k \in 1..s}) = nb - 2 /\ Cardinality({lab[k] : k \in 1..s}) = nb - 2)

Fail(r) ==
  IF r.s # "ok" THEN {"status"}
  ELSE LET A == r.a.A
           o == r.o
           n == A.n
           m == A.m
           rr == o.rr
           cc == o.cc
       IN IF ~(IsPerm0(o.p, n) /\ IsPerm0(o.q, m)) THEN {"perm"}
          ELSE IF ~(rr[1] = 0 /\ cc[1] = 0 /\ Mono(rr) /\ Mono(cc) /\ rr[5] = n /\ cc[5] = m) THEN {"coarse-bounds"}
          ELSE LET H == TLCEval(HRows(A))
                   V == TLCEval(VRows(A))
                   HC == TLCEval(HCols(A))
                   VC == TLCEval(VCols(A))
                   k == TLCEval(SRank(A))
                   coarse == Cl("R1", Slice(o.p, 0, rr[2]) = H)
                        \cup Cl("R0R3", Slice(o.p, rr[3], n) = V)
                        \cup Cl("R2", Slice(o.p, rr[2], rr[3]) = SRows(A))
                        \cup Cl("C0C1", Slice(o.q, 0, cc[3]) = HC)
                        \cup Cl("C3", Slice(o.q, cc[4], m) = VC)
                        \cup Cl("C2", Slice(o.q, cc[3], cc[4]) = SCols(A))
                        \cup Cl("C0", cc[2] = m - k /\ cc[3] - cc[2] = rr[2])
                        \cup Cl("R0", n - rr[4] = n - k /\ rr[4] - rr[3] = m - cc[4])
                        \cup Cl("pure", o.pure)
               IN IF coarse # {} THEN coarse
                  ELSE IF rr[3] = rr[2] THEN Cl("nb0", o.nb \in {0, 2})
                  ELSE IF o.nb < 3 THEN {"nb"}
                  ELSE FineClauses(A, o)
================================================================================
