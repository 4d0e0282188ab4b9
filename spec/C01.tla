---------------------------------- MODULE C01 ----------------------------------
EXTENDS Ech
Fail(r) == IF r.s # "ok" THEN {"status"} ELSE Basis(r.a, r.o) \cup Unchanged(r.a, r.o)
================================================================================
