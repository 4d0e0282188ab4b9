---------------------------------- MODULE C21 ----------------------------------
(* The command-line tools, end to end: every input is a byte string, every output is a byte string. *)
(* a: tool, h, pw (modulus), inp (matrix file), inp2 (second file), flags; o: code (exit status,    *)
(* negative when killed by a signal), out (bytes of the result), and what was said on stderr.       *)
EXTENDS Sms, Ech
G == INSTANCE Graph
P == INSTANCE C22 WITH Failing <- LAMBDA r : {}
(* the matrix of a file; transposed when asked; entries stay in file order inside each row *)
Csr(n, m, V) ==
    LET S == TLCEval(SortSeq([k \in 1..Len(V) |-> k], LAMBDA x, y : V[x][1] < V[y][1] \/ (V[x][1] = V[y][1] /\ x < y)))
        cnt == FoldLeft(LAMBDA q, e : [q EXCEPT ![e[1] + 1] = @ + 1], [i \in 1..n |-> 0], V)
        ptr == FoldLeft(LAMBDA q, w : Append(q, q[Len(q)] + w), <<0>>, cnt)
    IN TLCEval([n |-> n, m |-> m, v |-> 1, p |-> ptr, j |-> [k \in 1..Len(V) |-> V[S[k]][2]], x |-> [k \in 1..Len(V) |-> V[S[k]][3]]])
MatOf(h, M, tr) == LET V == Values(h, FALSE, M.ent)
                   IN IF tr THEN Csr(M.m, M.n, [k \in 1..Len(V) |-> <<V[k][2], V[k][1], V[k][3]>>]) ELSE Csr(M.n, M.m, V)
(* files written by the tools hold canonical residues *)
Canonical(h, M) == \A k \in 1..Len(M.ent) : LET e == M.ent[k] s == Strip(e.d) IN
                     Len(s) <= 10 /\ (h < 1000000000 => Len(s) <= 9 /\ ValOf(s, Len(s)) <= h)
Fails(o) == o.code # 0 /\ o.code \notin {-11, -8, -7, -4} /\ ~o.timeout
Refuses(o) == Cl("must-fail", Fails(o)) \cup Cl("no-output", o.out = <<>>)

(* ---- results ---- *)
Rk(a, o, A) == Cl("rank", o.rank = Rank(a.h, A))
WithCert(a, o, A) == LET C == Parse(o.out) IN
    IF C.kind # "certificate" \/ C.neg THEN {"certificate-file"}
    ELSE Cl("certificate-rank", C.c.r = Rank(a.h, A)) \cup Cl("certificate-valid", Valid(a.h, a.pw, A, Sha256(a.inp), C.c)) \cup Cl("announced", o.correct = 1)
Parsed(a, o) == Meaning(o.out, FALSE)
IsFile(a, R) == R.v = "accept" /\ Canonical(a.h, R)
KernelRes(a, o, A, R) == KerOf([h |-> a.h, A |-> A], o, MatOf(a.h, R, FALSE), "kernel")
QInv(U) == [c \in 1..U.m |-> LET S == {i \in 1..U.n : PivCol(U, i) = c - 1} IN IF S = {} THEN -1 ELSE MaxOf(S) - 1]
EchRes(a, o, A, R) ==
    LET U == MatOf(a.h, R, FALSE)
        aa == [h |-> a.h, A |-> A, full |-> TRUE]
    IN IF U.m # A.m THEN {"dimensions"}
       ELSE IF ~PivotsFirst(U) THEN {"pivots-first"}
       ELSE Basis(aa, [U |-> U, r |-> U.n, qinv |-> QInv(U)])
            \cup (IF a.rref THEN Cl("reduced", LET C == {PivCol(U, i) : i \in 1..U.n} IN \A i \in 1..U.n : \A k \in (U.p[i] + 2)..U.p[i + 1] : U.j[k] \notin C) ELSE {})
SolveRes(a, o, A, B, R) ==
    LET X == MatOf(a.h, R, FALSE)
        aa == [h |-> a.h, A |-> A, B |-> B, withok |-> TRUE]
    IN Multi(aa, [X |-> X, ok |-> [i \in 1..B.n |-> IF (i - 1) \in SeqSet(o.nosol) THEN 0 ELSE 1]])
SameEntries(a, R, n, m, V) == Cl("dimensions", R.n = n /\ R.m = m)
                              \cup Cl("entries", SameMatrix(a.h, Csr(n, m, V), MatOf(a.h, R, FALSE)))
TranspRes(a, A, R) == LET B == MatOf(a.h, R, TRUE) IN Cl("transpose", SameMatrix(a.h, A, B))
SwapRes(a, M, R) == LET V == Values(a.h, FALSE, M.ent) IN
    IF ~(R.n = M.n /\ R.m = M.m) THEN {"dimensions"} ELSE SameEntries(a, R, M.n, M.m, [k \in 1..Len(V) |-> <<V[k][1], M.m - 1 - V[k][2], V[k][3]>>])
StackRes(a, M, R) ==
    LET V == Values(a.h, FALSE, M.ent)
        rows == {V[k][1] : k \in 1..Len(V)}
        cols == {V[k][2] : k \in 1..Len(V)}
        rr(i) == Cardinality({x \in rows : x < i})
        rc(j) == Cardinality({x \in cols : x < j})
        n == Cardinality(rows)
        m == Cardinality(cols)
    IN IF ~(R.n = n /\ R.m = m) THEN {"dimensions"} ELSE SameEntries(a, R, n, m, [k \in 1..Len(V) |-> <<rr(V[k][1]), rc(V[k][2]), V[k][3]>>])
(* ---- Dulmage-Mendelsohn ---- *)
HN(A) == Cardinality(G!HRows(A))
SN(A) == Cardinality(G!SRows(A))
HC(A) == Cardinality(G!HCols(A))
Bags(A, B, h) == LET ra == [i \in 1..A.n |-> DRow(h, A, i)]
                     rb == [i \in 1..B.n |-> DRow(h, B, i)]
                     key(row) == {<<v, Cardinality({c \in 1..A.m : row[c] = v})>> : v \in {row[c] : c \in 1..A.m} \ {0}}
                     ca == [c \in 1..A.m |-> [i \in 1..A.n |-> ra[i][c]]]
                     cb == [c \in 1..A.m |-> [i \in 1..A.n |-> rb[i][c]]]
                     keyc(col) == {<<v, Cardinality({i \in 1..A.n : col[i] = v})>> : v \in {col[i] : i \in 1..A.n} \ {0}}
                     same(f, g, n, key0(_)) == LET F == [i \in 1..n |-> key0(f[i])] H == [i \in 1..n |-> key0(g[i])]
                                      IN \A i \in 1..n : Cardinality({t \in 1..n : F[t] = F[i]}) = Cardinality({t \in 1..n : H[t] = F[i]})
                 IN same(ra, rb, A.n, key) /\ same(ca, cb, A.m, keyc)
(* the diagonal blocks of the square part of a permuted matrix: its strong components, which must be contiguous *)
SquareReach(B, h1, c1, s) ==
    LET succ == [k \in 1..s |-> {c - c1 : c \in {c \in G!Adj(B, h1 + k - 1) : c >= c1 /\ c < c1 + s}}] IN G!CReach(succ)
Mut(reach, k, t) == (t - 1) \in reach[k] /\ (k - 1) \in reach[t]
Permuted(a, A, B) ==
    LET h1 == HN(A) s == SN(A) c1 == HC(A) IN
    IF ~(B.n = A.n /\ B.m = A.m) THEN {"dimensions"}
    ELSE Cl("same-entries", Bags(A, B, a.h))
         \cup Cl("coarse", \A i \in 0..(A.n - 1) : \A c \in G!Adj(B, i) : (i >= h1 => c >= c1) /\ (i >= h1 + s => c >= c1 + s))
         \cup Cl("diagonal", \A k \in 0..(s - 1) : (c1 + k) \in G!Adj(B, h1 + k))
         \cup (IF s > 0 /\ \A k \in 0..(s - 1) : (c1 + k) \in G!Adj(B, h1 + k)
               THEN LET reach == SquareReach(B, h1, c1, s)
                    IN Cl("fine", \A k \in 1..s : \A t \in G!Adj(B, h1 + k - 1) : t < c1 \/ t >= c1 + s \/ t - c1 >= k - 1 \/ Mut(reach, k, t - c1 + 1))
                       \cup Cl("contiguous", \A k \in 1..s : \A t \in (k + 1)..s : Mut(reach, k, t) => \A u \in k..t : Mut(reach, k, u))
               ELSE {})
Verbose(a, o, A, B) ==
    LET h1 == HN(A) s == SN(A) c1 == HC(A)
        vn == Cardinality(G!VRows(A))
        vm == Cardinality(G!VCols(A))
        hn == h1
        show(n, m) == n > 0 /\ m > 0
        reach == SquareReach(B, h1, c1, s)
        big(z) == Cardinality({k \in 1..s : Cardinality({t \in 1..s : Mut(reach, k, t)}) = z})
    IN Cl("structural-rank", o.v.rank = G!SRank(A))
       \cup Cl("H", IF show(hn, c1) THEN o.v.H = <<hn, c1>> ELSE o.v.H = <<>>)
       \cup Cl("S", IF s > 0 THEN o.v.S = <<s, s>> ELSE o.v.S = <<>>)
       \cup Cl("V", IF show(vn, vm) THEN o.v.V = <<vn, vm>> ELSE o.v.V = <<>>)
       \cup Cl("scc", \A z \in 2..s : Cardinality({k \in 1..Len(o.v.scc) : o.v.scc[k] = z}) * z = big(z))
       \cup Cl("scc-1", o.v.single = big(1))
(* the picture, with the blocks read off the permuted matrix printed for the same input *)
Edges(B, h1, c1, s) == IF s = 0 THEN <<>> ELSE LET reach == SquareReach(B, h1, c1, s) IN SelectSeq([k \in 1..s |-> k - 1], LAMBDA k : k = 0 \/ ~Mut(reach, k, k + 1))
Image(a, o, A, B) ==
    LET h1 == HN(A) s == SN(A) c1 == HC(A)
        e == Edges(B, h1, c1, s)
        r == IF s = 0 THEN <<>> ELSE <<0>> \o [k \in 1..Len(e) |-> h1 + e[k]] \o <<h1 + s, A.n>>
        c == IF s = 0 THEN <<>> ELSE <<0>> \o [k \in 1..Len(e) |-> c1 + e[k]] \o <<c1 + s, A.m>>
        x == IF Len(o.tok) > 3 THEN o.tok[2] ELSE 0
        y == IF Len(o.tok) > 3 THEN o.tok[3] ELSE 0
    IN IF ~(x \in 1..A.m /\ y \in 1..A.n) THEN {"size"}
       ELSE P!Picture([mode |-> 3, x |-> x, y |-> y], [B |-> B, nb |-> Len(e) + 2, r |-> r, c |-> c, rr |-> <<0, h1, h1 + s, 0, 0>>, cc |-> <<0, 0, c1, c1 + s, 0>>, tok |-> o.tok])
            \cup (IF a.full THEN Cl("full-size", x = A.m /\ y = A.n) ELSE {})
Near(v, w) == v >= w - 1 /\ v <= w + 1
RECURSIVE IRoot(_, _)
IRoot(v, s) == IF s >= 200 \/ (s + 1) * (s + 1) > v THEN s ELSE IRoot(v, s + 1)     \* max(1, floor(sqrt(v))), as far as the matrices go
Clamp(v, hi) == IF v > hi THEN hi ELSE v
Bitmap(a, o, A) ==
    LET x == IF Len(o.tok) > 2 THEN o.tok[2] ELSE 0
        y == IF Len(o.tok) > 2 THEN o.tok[3] ELSE 0
        mn(u, v) == IF u < v THEN u ELSE v
    IN IF ~(x \in 1..A.m /\ y \in 1..A.n) THEN {"size"}
       ELSE P!Picture([mode |-> IF a.gray THEN 2 ELSE 1, x |-> x, y |-> y], [B |-> A, tok |-> o.tok])
            \cup (IF a.px > 0 THEN Cl("pixels", Near(x, Clamp(IRoot((a.px * A.m) \div A.n, 1), A.m)) /\ Near(y, Clamp(IRoot((a.px * A.n) \div A.m, 1), A.n)))
                  ELSE Cl("width", IF a.w > 0 THEN x = mn(a.w, A.m) ELSE IF a.ht > 0 THEN Near(x, mn(A.m, (a.ht * A.m) \div A.n)) ELSE x = A.m)
                       \cup Cl("height", IF a.ht > 0 THEN y = mn(a.ht, A.n) ELSE IF a.w > 0 THEN Near(y, mn(A.n, (a.w * A.n) \div A.m)) ELSE y = A.n))
(* the picture of a pattern: every entry counts *)
PatternOf(M) == Csr(M.n, M.m, [k \in 1..Len(M.ent) |-> <<M.ent[k].i - 1, M.ent[k].j - 1, 1>>])

Result(a, o, M) ==
    LET A == MatOf(a.h, M, a.tool = "kernel" /\ a.left)
        R == Parsed(a, o)
    IN CASE a.tool = "rank" -> Rk(a, o, A) \cup (IF a.cert THEN WithCert(a, o, A) ELSE Cl("no-output", o.out = <<>>))
         [] a.tool = "kernel" -> IF ~IsFile(a, R) THEN {"output-file"} ELSE KernelRes(a, o, A, R)
         [] a.tool = "echelonize" -> IF ~IsFile(a, R) THEN {"output-file"} ELSE EchRes(a, o, A, R)
         [] a.tool = "solve" -> IF ~IsFile(a, R) THEN {"output-file"} ELSE SolveRes(a, o, A, MatOf(a.h, Meaning(a.inp2, FALSE), FALSE), R)
         [] a.tool = "transpose" -> IF ~IsFile(a, R) THEN {"output-file"} ELSE TranspRes(a, A, R)
         [] a.tool = "vertical_swap" -> IF ~IsFile(a, R) THEN {"output-file"} ELSE SwapRes(a, M, R)
         [] a.tool = "stack" -> IF ~IsFile(a, R) THEN {"output-file"} ELSE StackRes(a, M, R)
         [] a.tool = "dm" -> IF ~IsFile(a, R) THEN {"output-file"} ELSE Permuted(a, A, MatOf(a.h, R, FALSE))
         [] a.tool = "dmv" -> Verbose(a, o, A, MatOf(a.h, Meaning(a.inp2, FALSE), FALSE))
         [] a.tool = "dmi" -> Image(a, o, A, MatOf(a.h, Meaning(a.inp2, FALSE), FALSE))
         [] a.tool = "bitmap" -> Bitmap(a, o, PatternOf(M))
(* checking a certificate: the exit status is the verdict *)
Verdict(a, M) == LET C == Parse(a.inp2) IN
    CASE C.kind = "malformed" -> "no"
      [] C.kind = "certificate" -> IF ~C.neg /\ Valid(a.h, a.pw, MatOf(a.h, M, FALSE), Sha256(a.inp), C.c) THEN (IF SkipSp(a.inp2, C.end) > Len(a.inp2) THEN "yes" ELSE "maybe") ELSE "no"
      [] OTHER -> "no-or-fail"
CheckCert(a, o, M) ==
    LET v == Verdict(a, M) IN
    CASE v = "yes" -> Cl("accepts", o.code = 0 /\ o.correct = 1)
      [] v = "maybe" -> Cl("verdict", (o.code = 0 /\ o.correct = 1) \/ Fails(o))
      [] OTHER -> Cl("rejects", Fails(o) /\ o.correct # 1)
Fail(r) ==
    LET a == r.a o == r.o IN
    IF a.tool = "usage" THEN Refuses(o)
    ELSE LET M == Meaning(a.inp, a.tool = "bitmap")
             M2 == IF a.tool = "solve" THEN Meaning(a.inp2, FALSE) ELSE M
             bad == M.v = "refuse" \/ M2.v = "refuse"
         IN IF a.tool = "check_cert" THEN (IF bad THEN Cl("rejects", Fails(o) /\ o.correct # 1) ELSE CheckCert(a, o, M))
            ELSE IF bad THEN Refuses(o)
            ELSE IF M.v = "either" \/ M2.v = "either" THEN (IF o.code # 0 THEN Refuses(o) ELSE {})
            ELSE IF a.tool = "solve" /\ M.m # M2.m THEN Refuses(o)
            ELSE IF o.code # 0 THEN {"must-succeed"}
            ELSE Result(a, o, M)
================================================================================
