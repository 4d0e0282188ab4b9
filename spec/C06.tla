---------------------------------- MODULE C06 ----------------------------------
(* Honest certificates: true rank, independent pivotal rows and columns, accepted, and the same    *)
(* after being written and read back.                                                              *)
EXTENDS Cert
SubM(A, c, h) == [a \in 1..c.r |-> [b \in 1..c.r |-> DRow(h, A, c.i[a] + 1)[c.j[b] + 1]]]
Fail(rec) ==
  LET a == rec.a o == rec.o c == o.cert IN
  IF rec.s # "ok" THEN {"status"}
  ELSE Cl("rank", c.r = Rank(a.h, a.A))
       \cup Cl("digest-and-modulus", c.hash = a.hash /\ c.pw = a.pw)
       \cup Cl("distinct-pivots", Meaningful(a.A, c))
       \cup (IF Meaningful(a.A, c) THEN Cl("pivots-independent", RankOf(a.h, SubM(a.A, c, a.h)) = c.r) ELSE {})
       \cup (IF Meaningful(a.A, c) THEN Cl("satisfies-equations", Valid(a.h, a.pw, a.A, a.hash, c)) ELSE {})
       \cup Cl("accepted", o.verify)
       \cup Cl("readable", o.lok)
       \cup (IF o.lok THEN Cl("same-after-reading", o.cert2 = c) \cup Cl("accepted-after-reading", o.verify2) ELSE {})
       \cup Cl("input-modified", WFMat(a.h, o.A2) /\ SameMatrix(a.h, a.A, o.A2))
================================================================================
