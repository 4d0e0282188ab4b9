---------------------------------- MODULE C02 ----------------------------------
EXTENDS Ech
Fail(r) == IF r.s # "ok" THEN {"status"} ELSE Factors(r.a, r.o)
================================================================================
