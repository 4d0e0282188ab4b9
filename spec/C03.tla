---------------------------------- MODULE C03 ----------------------------------
EXTENDS Ech
Fail(r) == IF r.s # "ok" THEN {"status"} ELSE Kernels(r.a, r.o)
================================================================================
