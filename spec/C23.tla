---------------------------------- MODULE C23 ----------------------------------
(* Input or output that fails half-way: devices that stop storing or delivering bytes.  Success means   *)
(* that everything was stored, or that everything was read; anything else is reported as a failure.     *)
(* a.op: "device" (a writer of the library over a device that refuses bytes), "source" (a reader over   *)
(* one that stops delivering), "tool" (a command-line tool whose output or input cannot be completed;   *)
(* a.tight: nothing promises that it can succeed).                                                      *)
EXTENDS C21
S == INSTANCE C17 WITH Failing <- LAMBDA r : {}
V == INSTANCE C07 WITH Failing <- LAMBDA r : {}
Reported(r) == r.s = "exit" /\ r.o.code # 0
(* what a writer has to store *)
Stored(a, o) ==
    CASE a.kind = "matrix" -> S!Save([s |-> "ok", a |-> a, o |-> o])
      [] a.kind = "picture" -> P!Picture([mode |-> a.mode, x |-> a.x, y |-> a.y], [B |-> a.A, tok |-> o.tok])
      [] a.kind = "certificate" -> LET C == Parse(o.bytes) IN
            IF C.kind # "certificate" \/ C.neg THEN {"certificate-file"} ELSE Cl("certificate", C.c = a.cert)
Write(r) ==
    IF r.s # "ok" THEN Cl("reported", Reported(r) /\ r.a.cap < r.a.ample)
    ELSE IF r.o.closed # 0 THEN Cl("closing", r.o.faults > 0)
    ELSE Stored(r.a, r.o)
(* an accepted input was read as a whole *)
Taken(r) ==
    LET whole == r.a.cap >= Len(r.a.bytes) IN
    IF r.a.kind = "matrix"
    THEN IF r.s = "ok" \/ whole THEN S!Load(r) ELSE Cl("reported", Reported(r))
    ELSE IF whole \/ (r.s = "ok" /\ r.o.lok) THEN V!Load(r) ELSE Cl("reported", V!Refused(r))
Tool(r) ==
    IF r.a.tight /\ r.o.code # 0 THEN Cl("reported", Fails(r.o)) ELSE Fail(r)
FailDev(r) == CASE r.a.op = "device" -> Write(r)
                [] r.a.op = "source" -> Taken(r)
                [] r.a.op = "tool" -> Tool(r)
================================================================================
