---------------------------------- MODULE C18 ----------------------------------
(* Field arithmetic: every operation returns the centred residue of the exact result.              *)
EXTENDS Replay, Zp
Expect(h, q) == CASE q.o = "i" -> ZLimbs(h, q.s, q.w)
                  [] q.o = "a" -> ZAdd(h, q.a, q.b)
                  [] q.o = "s" -> ZSub(h, q.a, q.b)
                  [] q.o = "m" -> ZMul(h, q.a, q.b)
                  [] q.o = "x" -> ZAxpy(h, q.a, q.b, q.c)
                  [] q.o = "v" -> ZInv(h, q.a)
Name(o) == CASE o = "i" -> "init" [] o = "a" -> "add" [] o = "s" -> "sub" [] o = "m" -> "mul" [] o = "x" -> "axpy" [] o = "v" -> "inverse"
Fail(r) == IF r.s # "ok" THEN {"status"}
           ELSE {Name(r.a.q[k].o) : k \in {k \in 1..Len(r.a.q) : r.o.res[k] # Expect(r.a.h, r.a.q[k])}}
================================================================================
