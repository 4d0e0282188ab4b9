---------------------------------- MODULE C24 ----------------------------------
(* Memory that runs out.  A run in which some request for memory was refused either stops with a        *)
(* message and a failure status, or is judged like any other: library calls that end normally by the    *)
(* module of their property, tools that end with status 0 by C21.  a.mem: a library call that            *)
(* did not end normally; otherwise a run of a tool (o.refused: requests refused, o.said: something was   *)
(* written to the standard error after the first refusal).                                              *)
EXTENDS C21
(* stopped, and said why; not killed by a signal *)
Stopped(r) == r.s = "exit" /\ r.o.code # 0 /\ r.o.said
Call(r) == Cl("status", Stopped(r))
FailsTool(o) == o.code > 0 /\ ~o.timeout /\ o.said
ToolRun(r) == IF r.o.refused > 0 /\ r.o.code # 0 THEN Cl("status", FailsTool(r.o)) ELSE Fail(r)
FailMem(r) == CASE Has(r.a, "mem") -> Call(r)
                [] OTHER -> ToolRun(r)
================================================================================
