-------------------------------- MODULE Replay --------------------------------
(* Replays recorded executions of the library (one JSON record per line: a = what was asked, o =  *)
(* what the library answered, s = how the call ended) against a specification given as the set of *)
(* clauses a record breaks.  One step per record; a rejected record is printed.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Failing(_)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
(* a record may hold the distinct outcomes of one call under many schedules: all must be right *)
Judge(r) == IF r.s = "ok" /\ "outs" \in DOMAIN r.o
            THEN UNION {Failing([id |-> r.id, a |-> r.a, s |-> r.o.outs[t].status, o |-> r.o.outs[t]]) : t \in 1..Len(r.o.outs)}
            ELSE Failing(r)
RInit == l = 1
RNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l]
                bad == Judge(r)
            IN IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(r.id) \o " " \o ToString(bad))
         /\ l' = l + 1
RSpec == RInit /\ [][RNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)

(* helpers to write clause sets *)
Cl(name, cond) == IF cond THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
Range0(n) == 0..(n - 1)
IsPerm0(p, n) == Len(p) = n /\ {p[i] : i \in 1..Len(p)} = 0..(n - 1)
Injective(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
SeqSet(s) == {s[i] : i \in 1..Len(s)}
===============================================================================
