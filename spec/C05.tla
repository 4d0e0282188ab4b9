---------------------------------- MODULE C05 ----------------------------------
EXTENDS Ech
Fail(r) == IF r.s # "ok" THEN {"status"} ELSE Solves(r.a, r.o) \cup Multi(r.a, r.o)
================================================================================
