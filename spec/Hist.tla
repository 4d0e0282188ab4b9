--------------------------------- MODULE Hist ----------------------------------
(* The sequential object "table of sparse matrices under construction and transformation", and its *)
(* trace specification: every recorded call must be explained by the corresponding action.         *)
(*                                                                                                 *)
(* Abstract state:  T  the triplet matrix being built: declared dimensions and the sequence of     *)
(*                     inserted <<row, column, residue>>;                                          *)
(*                  H  the table of matrices, as dense rows (with values) or rows of column sets.  *)
EXTENDS LinAlg, Json, IOUtils
X == INSTANCE FiniteSetsExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,      \* record being replayed
          k,      \* next call of this record
          T, H
vars == <<l, k, T, H>>

Absent == [n |-> -1]
NoTriplet == [n |-> -1]
Rec == Trace[l]
Arg == Rec.a.steps[k]
Out == Rec.o.steps[k]
h == Rec.a.h
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* ------------------------------------------------ meaning of the calls ------------------------ *)
(* the matrix denoted by the inserted entries *)
Compressed(t) == [n |-> t.n, m |-> t.m, v |-> t.v,
                  D |-> IF t.v = 1 THEN DenseOf(h, t.n, t.m, t.ent)
                        ELSE PatOf(t.n, t.ent)]
Abs(R) == [n |-> R.n, m |-> R.m, v |-> R.v, D |-> IF R.v = 1 THEN [i \in 1..R.n |-> DRow(h, R, i)] ELSE [i \in 1..R.n |-> PatRow(R, i)]]
Forget(M) == [M EXCEPT !.v = 0, !.D = [i \in 1..M.n |-> {c - 1 : c \in {c \in 1..M.m : M.D[i][c] # 0}}]]
Vals(M, w) == IF M.v = 1 /\ w = 0 THEN Forget(M) ELSE M
TransposeOf(M) == [n |-> M.m, m |-> M.n, v |-> M.v,
    D |-> IF M.v = 1 THEN [c \in 1..M.m |-> [i \in 1..M.n |-> M.D[i][c]]] ELSE [c \in 1..M.m |-> {i - 1 : i \in {i \in 1..M.n : (c - 1) \in M.D[i]}}]]
(* row i of the result is row p[i]; column j goes to column q[j] *)
PermuteOf(M, p, q) == LET at == IndexMap(q) IN [M EXCEPT !.D = [i \in 1..M.n |-> IF M.v = 1 THEN [c \in 1..M.m |-> M.D[p[i] + 1][at[c - 1]]]
                                                       ELSE {q[j + 1] : j \in M.D[p[i] + 1]}]]
SubOf(M, r0, r1, c0, c1) == LET nn == Max2(0, r1 - r0)
                                mm == Max2(0, c1 - c0)
                            IN [n |-> nn, m |-> mm, v |-> M.v,
                                D |-> [i \in 1..nn |-> IF M.v = 1 THEN [c \in 1..mm |-> M.D[r0 + i][c0 + c]] ELSE {j - c0 : j \in {j \in M.D[r0 + i] : c0 <= j /\ j < c1}}]]
ResizeOf(M, nn, mm) == [n |-> nn, m |-> mm, v |-> M.v,
    D |-> [i \in 1..nn |-> IF M.v = 1 THEN [c \in 1..mm |-> IF i <= M.n /\ c <= M.m THEN M.D[i][c] ELSE 0] ELSE IF i <= M.n THEN M.D[i] ELSE {}]]
Ident(n) == [i \in 1..n |-> i - 1]
PermArg(x, n) == IF x = <<>> THEN Ident(n) ELSE x

(* the concrete matrix R denotes M, in canonical form *)
DenotesC(R, M) ==
  /\ WFShape(R) /\ R.n = M.n /\ R.m = M.m /\ R.v = M.v /\ R.cap >= Nnz(R)
  /\ NoDup(R)
  /\ IF M.v = 1 THEN WFVals(h, R) /\ NoZero(R) ELSE TRUE
  /\ Abs(R).D = M.D
(* (the conditional makes TLC evaluate it as a plain formula) *)
Denotes(R, M) == IF DenotesC(R, M) THEN TRUE ELSE FALSE
SourceKept == "S" \in DOMAIN Out => Denotes(Out.S, H[Arg.src])

(* ------------------------------------------------ actions --------------------------------------*)
Step(op) == Arg.op = op /\ k' = k + 1 /\ UNCHANGED l
Res == IF "w" \in DOMAIN Arg THEN ZLimbs(h, Arg.s, Arg.w) ELSE 0

TNew == /\ Step("tnew")
        /\ Out.n = Arg.n /\ Out.m = Arg.m /\ Out.nz = 0
        /\ T' = [n |-> Arg.n, m |-> Arg.m, v |-> Arg.v, ent |-> <<>>]
        /\ UNCHANGED H
(* an entry whose value is 0 modulo p changes nothing, except possibly the dimensions *)
Add == /\ Step("add") /\ Out.fits
       /\ LET big == [n |-> Max2(T.n, Arg.i + 1), m |-> Max2(T.m, Arg.j + 1)]
              zero == T.v = 1 /\ Res = 0
          IN /\ \/ Out.n = big.n /\ Out.m = big.m
                \/ zero /\ Out.n = T.n /\ Out.m = T.m
             /\ T' = [T EXCEPT !.n = Out.n, !.m = Out.m, !.ent = IF zero THEN @ ELSE Append(@, <<Arg.i, Arg.j, Res>>)]
       /\ UNCHANGED H
(* many insertions at once *)
AddAll == /\ Step("addall") /\ Out.fits
          /\ LET E == TLCEval([e \in 1..Len(Arg.ent) |-> <<Arg.ent[e].i, Arg.ent[e].j, ZLimbs(h, Arg.ent[e].s, Arg.ent[e].w)>>])
                 real == SelectSeq(E, LAMBDA e : T.v = 0 \/ e[3] # 0)
                 Big(S, n0, c) == X!Max({n0} \cup {S[e][c] + 1 : e \in 1..Len(S)})
             IN /\ Out.n >= Big(real, T.n, 1) /\ Out.n <= Big(E, T.n, 1)
                /\ Out.m >= Big(real, T.m, 2) /\ Out.m <= Big(E, T.m, 2)
                /\ T' = [T EXCEPT !.n = Out.n, !.m = Out.m, !.ent = @ \o real]
          /\ UNCHANGED H
TTranspose == /\ Step("ttr") /\ Out.n = T.m /\ Out.m = T.n
              /\ T' = [T EXCEPT !.n = T.m, !.m = T.n, !.ent = [e \in 1..Len(T.ent) |-> <<T.ent[e][2], T.ent[e][1], T.ent[e][3]>>]]
              /\ UNCHANGED H
TRealloc == /\ Step("trealloc") /\ Out.cap >= Arg.c /\ UNCHANGED <<T, H>>
Put(M) == /\ Denotes(Out.R, M) /\ SourceKept
          /\ H' = [H EXCEPT ![Arg.dst] = M]
          /\ UNCHANGED T
Compress == Step("compress") /\ Put(Compressed(T))
MatOf == Step("mat") /\ Put(Abs(Arg.A))
Transpose == Step("transpose") /\ Put(TransposeOf(Vals(H[Arg.src], Arg.v)))
Permute == Step("permute") /\ LET M == Vals(H[Arg.src], Arg.v) IN Put(PermuteOf(M, PermArg(Arg.p, M.n), PermArg(Arg.q, M.m)))
Submatrix == Step("submatrix") /\ Put(SubOf(Vals(H[Arg.src], Arg.v), Arg.r0, Arg.r1, Arg.c0, Arg.c1))
Resize == Step("resize") /\ Put(ResizeOf(H[Arg.dst], Arg.n, Arg.m))
Realloc == Step("realloc") /\ Out.R.cap = (IF Arg.c < 0 THEN Nnz(Out.R) ELSE Arg.c) /\ Put(H[Arg.dst])
(* releasing one object changes no other one: no storage is shared *)
Survivors(G) == IF Len(Out.keep) = Cardinality({x \in 0..15 : G[x].n >= 0}) /\ \A e \in 1..Len(Out.keep) : G[Out.keep[e].k].n >= 0 /\ Denotes(Out.keep[e].R, G[Out.keep[e].k]) THEN TRUE ELSE FALSE
Free == Step("free") /\ LET G == [H EXCEPT ![Arg.src] = Absent] IN Survivors(G) /\ H' = G /\ UNCHANGED T
FreeNull == Step("freenull") /\ Survivors(H) /\ UNCHANGED <<T, H>>
TFree == Step("tfree") /\ Survivors(H) /\ T' = NoTriplet /\ UNCHANGED H
Show == Step("show") /\ Denotes(Out.R, H[Arg.src]) /\ UNCHANGED <<T, H>>
SaveLoad == Step("save") /\ LET M == H[Arg.src] IN Put(M)
Query == UNCHANGED <<T, H>>
(* y + x*A,  A*x + y,  x + beta*A[i] *)
XApy == Step("xApy") /\ Query /\ SourceKept /\ Out.y = DVecMat(h, Arg.x, H[Arg.src].D, Arg.y)
Axpy == Step("Axpy") /\ Query /\ SourceKept /\ Out.y = [i \in 1..H[Arg.src].n |-> ZAdd(h, Dot(h, H[Arg.src].D[i], Arg.x, H[Arg.src].m), Arg.y[i])]
Scatter == Step("scatter") /\ Query /\ Out.y = VAxpy(h, Arg.beta, H[Arg.src].D[Arg.i + 1], Arg.x)
PVec == Step("pvec") /\ Query /\ Out.b = Arg.b /\ LET P == TLCEval(PermArg(Arg.p, Len(Arg.b))) IN Out.y = [i \in 1..Len(Arg.b) |-> Arg.b[P[i] + 1]]
IPVec == Step("ipvec") /\ Query /\ Out.b = Arg.b /\ Len(Out.y) = Len(Arg.b)
         /\ LET P == TLCEval(PermArg(Arg.p, Len(Arg.b))) IN (\A i \in 1..Len(Arg.b) : Out.y[P[i] + 1] = Arg.b[i]) = TRUE
PInv == Step("pinv") /\ Query /\ Out.b = Arg.p /\ Len(Out.y) = Len(Arg.p) /\ (\A i \in 1..Len(Arg.p) : Out.y[Arg.p[i] + 1] = i - 1) = TRUE
PInvNull == Step("pinvnull") /\ Query /\ Out.isnull
Range == Step("range") /\ Query /\ Out.y = [i \in 1..Len(Arg.x) |-> IF Arg.b0 < i /\ i <= Arg.b1 THEN Arg.x[Arg.b0 + Arg.p[i - Arg.b0] + 1] ELSE Arg.x[i]]
RandPerm == Step("randperm") /\ Query /\ Len(Out.y) = Arg.n /\ {Out.y[i] : i \in 1..Len(Out.y)} = 0..(Arg.n - 1)
RowNnz(M, i) == IF M.v = 1 THEN Cardinality({c \in 1..M.m : M.D[i][c] # 0}) ELSE Cardinality(M.D[i])
RECURSIVE SumNnz(_, _)
SumNnz(M, i) == IF i = 0 THEN 0 ELSE RowNnz(M, i) + SumNnz(M, i - 1)
NnzQ == Step("nnz") /\ Query /\ Out.nnz = SumNnz(H[Arg.src], H[Arg.src].n) /\ Out.w = RowNnz(H[Arg.src], Arg.i + 1) /\ (H[Arg.src].v = 1 => Out.prime = Rec.a.prime)

Call == TNew \/ Add \/ AddAll \/ TTranspose \/ TRealloc \/ Compress \/ MatOf \/ Transpose \/ Permute \/ Submatrix \/ Resize \/ Realloc
        \/ SaveLoad \/ Free \/ FreeNull \/ TFree \/ Show \/ XApy \/ Axpy \/ Scatter \/ PVec \/ IPVec \/ PInv \/ PInvNull \/ Range \/ RandPerm \/ NnzQ

(* ------------------------------------------------ replay ---------------------------------------*)
Init == TLCSet(1, 1) /\ l = 1 /\ k = 1 /\ T = NoTriplet /\ H = [x \in 0..15 |-> Absent]
Fresh == TLCSet(1, l + 1) /\ l' = l + 1 /\ k' = 1 /\ T' = NoTriplet /\ H' = [x \in 0..15 |-> Absent]
Reject(why) == PrintT("REJECT " \o ToString(Rec.id) \o " " \o why) /\ Fresh
More == l <= Len(Trace)
Next == /\ More
        /\ IF Rec.s # "ok" \/ Len(Rec.o.steps) # Len(Rec.a.steps) THEN Reject("{status}")
           ELSE IF k > Len(Rec.a.steps) THEN Fresh
           ELSE IF ENABLED Call THEN Call ELSE Reject("{" \o Arg.op \o "}")
Spec == Init /\ [][Next]_vars
(* the replay went through every record *)
Accepted == TLCGet(1) = Len(Trace) + 1
===============================================================================
