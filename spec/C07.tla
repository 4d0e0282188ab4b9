---------------------------------- MODULE C07 ----------------------------------
(* The verifier accepts exactly the valid certificates; malformed files are refused.               *)
EXTENDS Cert
Verify(a, o) == Cl("decision", o.verify = Valid(a.h, a.pw, a.A, a.hash, a.cert))
                \cup (IF o.verify /\ a.h > 1000000000 THEN Cl("rank-claim", a.cert.r = Rank(a.h, a.A)) ELSE {})
Refused(rec) == (rec.s = "ok" /\ ~rec.o.lok) \/ (rec.s = "exit" /\ rec.o.code # 0)
Load(rec) ==
  LET P == Parse(rec.a.bytes) IN
  IF P.kind = "malformed" THEN Cl("refused", Refused(rec))
  ELSE IF P.kind = "certificate" THEN
      IF rec.s = "ok" /\ rec.o.lok THEN Cl("contents", rec.o.cert = P.c \/ P.neg)
      ELSE Cl("readable", SkipSp(rec.a.bytes, P.end) <= Len(rec.a.bytes) /\ Refused(rec))      \* may only refuse what has trailing bytes
  ELSE Cl("no-crash", rec.s = "ok" \/ Refused(rec))
Fail(rec) == IF rec.a.op = "load" THEN Load(rec)
             ELSE IF rec.s # "ok" THEN {"status"} ELSE Verify(rec.a, rec.o)
================================================================================
