---------------------------------- MODULE C04 ----------------------------------
EXTENDS Ech
Fail(r) == IF r.s # "ok" THEN {"status"} ELSE Reduced(r.a, r.o)
================================================================================
