---------------------------------- MODULE C11 ----------------------------------
(* Reachability of patterns and triangular solves (sparse and dense right-hand sides).             *)
EXTENDS Replay, LinAlg

(* order compatible with elimination: a pivotal column comes before the other columns of its row *)
Ordered(A, qinv, xj) == LET pos == TLCEval(IndexMap(xj))
                        IN \A c \in SeqSet(xj) : qinv[c + 1] >= 0 => \A d \in RowCols(A, qinv[c + 1] + 1) \ {c} : pos[c] < pos[d]
ReachOK(A, B, qinv, run, acyclic) ==
    IF ~(run.top = A.m - Len(run.xj) /\ \A s \in 1..Len(run.xj) : run.xj[s] \in 0..(A.m - 1)) THEN {"reach-range"}
    ELSE Cl("reach-once", Injective(run.xj))
         \cup Cl("reach-set", SeqSet(run.xj) = ReachCols(A, qinv, RowCols(B, run.k + 1)))
         \cup (IF acyclic /\ SeqSet(run.xj) = ReachCols(A, qinv, RowCols(B, run.k + 1)) THEN Cl("reach-order", Ordered(A, qinv, run.xj)) ELSE {})

SolveOK(h, U, B, qinv, run) ==
    LET r1 == ReachOK(U, B, qinv, run, TRUE)
    IN IF r1 # {} THEN r1
       ELSE IF ~(Len(run.x) = Len(run.xj) /\ \A s \in 1..Len(run.x) : IsRes(h, run.x[s])) THEN {"solve-canonical"}
       ELSE LET where == TLCEval(IndexMap(run.xj))
                at == TLCEval([c \in 1..U.m |-> IF c - 1 \in DOMAIN where THEN run.x[where[c - 1]] ELSE 0])
                piv == TLCEval(IndexMap(qinv))
                coef == [i \in 1..U.n |-> IF i - 1 \in DOMAIN piv THEN at[piv[i - 1]] ELSE 0]
                rest == [c \in 1..U.m |-> IF qinv[c] < 0 THEN at[c] ELSE 0]
            IN Cl("solve", VAxpy(h, 1, VecMat(h, coef, U), rest) = DRow(h, B, run.k + 1))

(* dense: x * M = b *)
One(b, m) == [n |-> 1, m |-> m, v |-> 1, p |-> <<0, m>>, j |-> [c \in 1..m |-> c - 1], x |-> b]
Forward(h, U, b, run) == LET can == RowSpaceIn(h, One(b, U.m), U)
                         IN Cl("forward-decision", run.ok = can)
                            \cup (IF run.ok THEN Cl("forward", (\A i \in 1..U.n : IsRes(h, run.x[i])) /\ VecMat(h, run.x, U) = b) ELSE {})
Back(h, L, p, b, run) == Cl("back", /\ \A i \in 1..L.n : IsRes(h, run.x[i])
                                    /\ VecMat(h, run.x, L) = b
                                    /\ LET P == TLCEval(SeqSet(p)) IN \A i \in 1..L.n : (i - 1) \notin P => run.x[i] = 0)
Fail(r) ==
  IF r.s # "ok" THEN {"status"}
  ELSE LET a == r.a IN
    CASE a.op = "reach" -> UNION {ReachOK(a.A, a.B, a.qinv, r.o.runs[s], a.acyclic) : s \in 1..Len(r.o.runs)}
      [] a.op = "sparse" -> UNION {SolveOK(a.h, a.U, a.B, a.qinv, r.o.runs[s]) : s \in 1..Len(r.o.runs)}
      [] a.op = "forward" -> UNION {Forward(a.h, a.U, a.b[s], r.o.runs[s]) : s \in 1..Len(r.o.runs)}
      \* right-hand sides that have a solution by construction
      [] a.op = "forwardyes" -> UNION {Cl("forward-decision", r.o.runs[s].ok) \cup Cl("forward", r.o.runs[s].ok => (\A i \in 1..a.U.n : IsRes(a.h, r.o.runs[s].x[i])) /\ VecMat(a.h, r.o.runs[s].x, a.U) = a.b[s]) : s \in 1..Len(r.o.runs)}
      [] a.op = "back" -> UNION {Back(a.h, a.U, a.p, a.b[s], r.o.runs[s]) : s \in 1..Len(r.o.runs)}
================================================================================
