---------------------------------- MODULE Cert ----------------------------------
(* Rank certificates (Eberly): what the verifier must accept, and the text form.                   *)
(* A certificate: r, pw (modulus as 16-bit halves), hash (32 bytes), i, j (0-based), x, y.         *)
EXTENDS Replay, LinAlg, Sha, SequencesExt

(* t-th draws of field elements: the first n residues of the stream of (hash, prime, sequence 0) *)
RECURSIVE ChalFrom(_, _, _, _, _, _)
ChalFrom(h, pw, hash, t, n, acc) ==
    IF n = 0 THEN acc
    ELSE LET x == WAnd(StreamWord(hash, pw, <<0, 0>>, t), Mask(pw))
         IN IF WLess(x, pw) THEN ChalFrom(h, pw, hash, t + 1, n - 1, Append(acc, ZLimbs(h, 1, x)))
            ELSE ChalFrom(h, pw, hash, t + 1, n, acc)
(* the same draws, the first 2n + 200 by iteration (more than half of the words are kept) *)
Chal1(h, pw, hash, n, acc, t) ==
    IF Len(acc) = n THEN acc
    ELSE LET x == TLCEval(WAnd(StreamWord(hash, pw, <<0, 0>>, t), Mask(pw)))
         IN IF WLess(x, pw) THEN Append(acc, ZLimbs(h, 1, x)) ELSE acc
Challenge(h, pw, hash, n) ==
    LET N == 2 * n + 200
        A == TLCEval(FoldLeft(LAMBDA acc, t : Chal1(h, pw, hash, n, acc, t), <<>>, [k \in 1..N |-> k - 1]))
    IN IF Len(A) = n THEN A ELSE ChalFrom(h, pw, hash, N, n - Len(A), A)

Meaningful(A, c) == /\ c.r \in 0..A.n /\ c.r <= A.m
                    /\ \A k \in 1..c.r : c.i[k] \in 0..(A.n - 1) /\ c.j[k] \in 0..(A.m - 1)
                    /\ Injective(c.i) /\ Injective(c.j)
(* first challenge: x, supported by the pivotal rows, is sent on the challenge at the pivotal columns *)
Eq1(h, A, c, ch) ==
    LET I == IndexMap(c.i)
        x == TLCEval([i \in 1..A.n |-> IF (i - 1) \in DOMAIN I THEN c.x[I[i - 1]] ELSE 0])
        z == VecMat(h, x, A)
    IN \A k \in 1..c.r : z[c.j[k] + 1] = ch[k]
(* second challenge: y extends the challenge on the other rows to an element of the left kernel *)
NonPiv(A, c) == LET I == TLCEval(SeqSet(c.i)) IN {i \in 1..A.n : (i - 1) \notin I}
Eq2(h, A, c, ch) ==
    LET I == IndexMap(c.i)
        free == IndexMap(SetToSortSeq(NonPiv(A, c), <))
        y == TLCEval([i \in 1..A.n |-> IF (i - 1) \in DOMAIN I THEN c.y[I[i - 1]] ELSE ch[c.r + free[i]]])
    IN VecMat(h, y, A) = VZero(A.m)
Valid(h, pw, A, hash, c) ==
    /\ c.hash = hash
    /\ c.pw = pw
    /\ Meaningful(A, c)
    /\ \A k \in 1..c.r : IsRes(h, c.x[k]) /\ IsRes(h, c.y[k])
    /\ LET ch == TLCEval(Challenge(h, pw, hash, A.n)) IN Eq1(h, A, c, ch) /\ Eq2(h, A, c, ch)

(* ---- the text form: r, modulus, 64 hexadecimal digits, then the four lists ---- *)
(* reading results: [ok, pos (first unread), ...] over a byte sequence *)
Space(b) == b \in {32, 9, 10, 11, 12, 13}
Digit(b) == b \in 48..57
RECURSIVE SkipSp(_, _)
SkipSp(b, p) == IF p <= Len(b) /\ Space(b[p]) THEN SkipSp(b, p + 1) ELSE p
RECURSIVE DigitsEnd(_, _)
DigitsEnd(b, p) == IF p <= Len(b) /\ Digit(b[p]) THEN DigitsEnd(b, p + 1) ELSE p
(* an integer as (sign, digits) *)
ReadInt(b, p0) ==
    LET p1 == SkipSp(b, p0)
        signed == p1 <= Len(b) /\ b[p1] \in {43, 45}
        p2 == IF signed THEN p1 + 1 ELSE p1
        e == DigitsEnd(b, p2)
    IN [ok |-> e > p2, pos |-> e, neg |-> signed /\ b[p1] = 45, d |-> [k \in 1..(e - p2) |-> b[p2 + k - 1] - 48]]
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
RECURSIVE ValOf(_, _)
ValOf(d, k) == IF k = 0 THEN 0 ELSE ValOf(d, k - 1) * 10 + d[k]
Fits(t) == LET s == Strip(t.d) IN Len(s) <= 9 \/ (Len(s) = 10 /\ (s[1] = 1 \/ (s[1] = 2 /\ ValOf(Tail(s), 9) <= 147483647)))   \* |value| <= 2^31 - 1
IntOf(t) == LET v == ValOf(Strip(t.d), Len(Strip(t.d))) IN IF t.neg THEN -v ELSE v
RECURSIVE Limbs(_, _)
Limbs(d, k) == IF k = 0 THEN <<0, 0>> ELSE LET w == Limbs(d, k - 1) lo == w[2] * 10 + d[k] IN <<w[1] * 10 + lo \div 65536, lo % 65536>>
ReadInts(b, p, n) ==
    LET Step(st, k) ==
          IF ~st.ok \/ ~st.fits THEN st
          ELSE LET t == TLCEval(ReadInt(b, st.pos)) IN
               IF ~t.ok THEN [st EXCEPT !.ok = FALSE]
               ELSE IF ~Fits(t) THEN [st EXCEPT !.fits = FALSE]
               ELSE [st EXCEPT !.pos = t.pos, !.v = Append(@, IntOf(t))]
    IN FoldLeft(LAMBDA st, k : TLCEval(Step(st, k)), [ok |-> TRUE, pos |-> p, v |-> <<>>, fits |-> TRUE], [k \in 1..n |-> k])
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Bad == [kind |-> "malformed"]
Unknown == [kind |-> "out of range"]        \* a number that does not fit: nothing is said
Parse(b) ==
    LET tr == ReadInt(b, 1) IN
    IF ~tr.ok THEN Bad ELSE IF ~Fits(tr) THEN Unknown ELSE
    LET r == IntOf(tr) tp == ReadInt(b, tr.pos) IN
    IF r < 0 \/ ~tp.ok THEN Bad ELSE
    LET s == Strip(tp.d) ph == SkipSp(b, tp.pos) IN
    IF Len(s) > 10 THEN Unknown ELSE
    IF ph + 63 > Len(b) \/ \E k \in 0..63 : HexVal(b[ph + k]) < 0 THEN Bad ELSE
    LET hash == [k \in 1..32 |-> 16 * HexVal(b[ph + 2 * k - 2]) + HexVal(b[ph + 2 * k - 1])]
        n == IF r > Len(b) THEN Len(b) ELSE r                   \* cannot hold more numbers than bytes
        v == ReadInts(b, ph + 64, 4 * n) IN
    IF ~v.ok THEN Bad ELSE IF ~v.fits THEN Unknown ELSE
    [kind |-> "certificate", end |-> v.pos, neg |-> tp.neg,
     c |-> [r |-> r, pw |-> Limbs(s, Len(s)), hash |-> hash,
            i |-> SubSeq(v.v, 1, r), j |-> SubSeq(v.v, r + 1, 2 * r), x |-> SubSeq(v.v, 2 * r + 1, 3 * r), y |-> SubSeq(v.v, 3 * r + 1, 4 * r)]]
================================================================================
