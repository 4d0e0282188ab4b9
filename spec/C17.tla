---------------------------------- MODULE C17 ----------------------------------
(* a.op: "load" (bytes -> triplets, digest, compressed form), "save" (matrix -> bytes)            *)
EXTENDS Sms
Triplets(o) == [k \in 1..o.nz |-> <<o.i[k], o.j[k], IF o.vals THEN o.x[k] ELSE 1>>]
Reads(a, o, M) ==
    IF ~(o.nz = Len(o.i) /\ o.nz = Len(o.j) /\ (o.vals = ~a.pattern) /\ (o.vals => Len(o.x) = o.nz)) THEN {"well-formed"}
    ELSE LET V == Values(a.h, a.pattern, M.ent)
             lo == Values(a.h, a.pattern, M.ent)
             all == M.ent
         IN Cl("entries", SameBag(Triplets(o), V))
            \cup Cl("rows", o.n >= MaxOf({M.n} \cup {e[1] + 1 : e \in SeqSet(lo)}) /\ o.n <= MaxOf({M.n} \cup {e.i : e \in SeqSet(all)}))
            \cup Cl("columns", o.m >= MaxOf({M.m} \cup {e[2] + 1 : e \in SeqSet(lo)}) /\ o.m <= MaxOf({M.m} \cup {e.j : e \in SeqSet(all)}))
            \cup Cl("reduced", a.pattern \/ \A k \in 1..o.nz : IsRes(a.h, o.x[k]) /\ o.x[k] # 0)
            \cup (IF a.wanthash THEN Cl("digest", o.hash = Sha256(a.bytes)) ELSE {})
Load(r) == LET M == Meaning(r.a.bytes, r.a.pattern)
               ok == r.s = "ok"
           IN CASE M.v = "refuse" -> Cl("must-refuse-" \o M.why, r.s \in {"exit", "abort"})
                [] M.v = "accept" -> IF ok THEN Reads(r.a, r.o, M) ELSE {"must-accept"}
                [] M.v = "either" -> IF ok THEN Reads(r.a, r.o, M) ELSE Cl("status", r.s \in {"exit", "abort"})
(* what is written is an SMS file of the same matrix; repeated positions add up *)
Written(a) == [i \in 1..a.A.n |-> DRow(a.h, a.A, i)]
RECURSIVE AddUp(_, _, _, _, _)
AddUp(h, V, i, j, k) == IF k = 0 THEN 0 ELSE IF V[k][1] = i /\ V[k][2] = j THEN ZAdd(h, V[k][3], AddUp(h, V, i, j, k - 1)) ELSE AddUp(h, V, i, j, k - 1)
Save(r) == IF r.s # "ok" THEN {"status"}
           ELSE LET a == r.a
                    M == Meaning(r.o.bytes, FALSE)
                IN IF M.v # "accept" THEN {"well-formed-file"}
                   ELSE Cl("dimensions", M.n = a.A.n /\ M.m = a.A.m)
                        \cup (IF a.A.v = 1
                              THEN LET V == Values(a.h, FALSE, M.ent) IN Cl("matrix", \A i \in 1..a.A.n : \A j \in 1..a.A.m : AddUp(a.h, V, i - 1, j - 1, Len(V)) = DRow(a.h, a.A, i)[j])
                              ELSE Cl("pattern", {<<M.ent[k].i - 1, M.ent[k].j - 1>> : k \in 1..Len(M.ent)} = UNION {{<<i - 1, c>> : c \in PatRow(a.A, i)} : i \in 1..a.A.n}))
(* a long file, of which the entries are given *)
File(r) == IF r.s # "ok" THEN {"must-accept"} ELSE Reads(r.a, r.o, [n |-> r.a.n, m |-> r.a.m, ent |-> r.a.ent])
Fail(r) == IF r.a.op = "file" THEN File(r) ELSE IF r.a.op = "load" THEN Load(r) ELSE Save(r)
================================================================================
