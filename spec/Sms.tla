---------------------------------- MODULE Sms ----------------------------------
(* Matrix files.  SMS: a header "n m M", one entry "i j x" per line (1-based), a final "0 0 0".     *)
(* MatrixMarket: a banner, comments, "n m nz", then nz entries.  Meaning(b) says for every byte     *)
(* string whether it must be refused, and otherwise which matrix it is.                             *)
EXTENDS Cert
(* lines, as <<first, last>> byte positions without the newline *)
Lines(b) == LET F == FoldLeft(LAMBDA st, p : IF b[p] = 10 THEN <<p + 1, Append(st[2], <<st[1], p - 1>>)>> ELSE st, <<1, <<>>>>, [p \in 1..Len(b) |-> p])
            IN IF F[1] > Len(b) THEN F[2] ELSE Append(F[2], <<F[1], Len(b)>>)
Text(b, ln) == SubSeq(b, ln[1], ln[2])
MaxLine == 1022                                      \* longer lines may be refused
Blank(b, p) == SkipSp(b, p) > Len(b)
Ends(b, p) == p > Len(b) \/ Space(b[p]) \/ b[p] = 0     \* a token ends before position p (a NUL may stand for the end of the line)
(* k integers at the start of a line: [ok, fits (the first two are below 2^31), d (signed digits), extra] *)
RECURSIVE Ints(_, _, _, _)
Ints(b, p, k, acc) == IF k = 0 THEN [ok |-> TRUE, v |-> acc, pos |-> p, extra |-> ~Blank(b, p)]
    ELSE LET t == ReadInt(b, p) IN
         IF ~t.ok \/ ~Ends(b, t.pos) THEN [ok |-> FALSE, v |-> acc, pos |-> p, extra |-> FALSE]
         ELSE Ints(b, t.pos, k - 1, Append(acc, t))
Zero(t) == Strip(t.d) = <<>>
Positive(t) == ~t.neg /\ ~Zero(t)
NonNeg(t) == ~t.neg \/ Zero(t)
(* a value of at most 18 digits certainly fits in 64 bits *)
Long(t) == Len(Strip(t.d)) > 18
Word(b, p) == LET s == SkipSp(b, p) IN [s |-> s, e |-> CHOOSE e \in s..(Len(b) + 1) : (e = Len(b) + 1 \/ Space(b[e])) /\ \A q \in s..(e - 1) : ~Space(b[q])]
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
WordIs(b, w, txt) == w.e - w.s = Len(txt) /\ \A k \in 1..Len(txt) : Lower(b[w.s + k - 1]) = txt[k]
Matrix == <<109, 97, 116, 114, 105, 120>>
Coordinate == <<99, 111, 111, 114, 100, 105, 110, 97, 116, 101>>
Integer == <<105, 110, 116, 101, 103, 101, 114>>
General == <<103, 101, 110, 101, 114, 97, 108>>
Banner == <<37, 37, 77, 97, 116, 114, 105, 120, 77, 97, 114, 107, 101, 116>>          \* %%MatrixMarket
IsBanner(b) == Len(b) >= 14 /\ SubSeq(b, 1, 14) = Banner
BannerOK(b) == LET w1 == Word(b, 15) w2 == Word(b, w1.e) w3 == Word(b, w2.e) w4 == Word(b, w3.e)
               IN WordIs(b, w1, Matrix) /\ WordIs(b, w2, Coordinate) /\ WordIs(b, w3, Integer) /\ WordIs(b, w4, General)
Refused(why) == [v |-> "refuse", why |-> why]
(* tolerated: the file may be refused, but if it is read, then this is the matrix *)
Read(sure, n, m, ent) == [v |-> IF sure THEN "accept" ELSE "either", n |-> n, m |-> m, ent |-> ent]
Entry(t) == [i |-> IntOf(t[1]), j |-> IntOf(t[2]), neg |-> t[3].neg, d |-> t[3].d]
IsMarker(t) == Zero(t[1]) /\ Zero(t[2]) /\ Zero(t[3])
(* entries from line l on; want = number of entries still expected (MatrixMarket) or -1 (SMS) *)
Entries(b, L, first, count, surely, n, m) ==
    LET Step(st, q) ==
          IF st.v # "go" THEN st
          ELSE IF st.want = 0 THEN Read(FALSE, n, m, st.ent)
          ELSE LET s == TLCEval(Text(b, L[q]))
                   t == TLCEval(Ints(s, 1, 3, <<>>))
                   tidy == ~t.extra /\ Len(s) <= MaxLine
               IN IF ~t.ok THEN Refused("entry")
                  ELSE IF IsMarker(t.v) THEN (IF st.want > 0 THEN Refused("marker") ELSE Read(st.sure /\ tidy /\ q = Len(L), n, m, st.ent))
                  ELSE IF ~(Positive(t.v[1]) /\ Positive(t.v[2])) THEN Refused("index")
                  ELSE IF ~(Fits(t.v[1]) /\ Fits(t.v[2])) THEN Refused("index")
                  ELSE [v |-> "go", want |-> IF st.want > 0 THEN st.want - 1 ELSE st.want,
                        sure |-> st.sure /\ tidy /\ ~Long(t.v[3]) /\ IntOf(t.v[1]) <= n /\ IntOf(t.v[2]) <= m,
                        ent |-> Append(st.ent, Entry(t.v))]
        F == FoldLeft(LAMBDA st, q : TLCEval(Step(st, q)), [v |-> "go", want |-> count, sure |-> surely, ent |-> <<>>], [k \in 1..(Len(L) - first + 1) |-> first + k - 1])
    IN IF F.v # "go" THEN F ELSE IF F.want = 0 THEN Read(F.sure, n, m, F.ent) ELSE Refused("truncated")
Sms(b, L, pattern) ==
    LET s == Text(b, L[1])
        t == Ints(s, 1, 2, <<>>)
    IN IF ~t.ok THEN Refused("header")
       ELSE IF ~(NonNeg(t.v[1]) /\ NonNeg(t.v[2]) /\ Fits(t.v[1]) /\ Fits(t.v[2])) THEN Refused("dimensions")
       ELSE LET w == Word(s, t.pos) IN
            IF w.e = w.s THEN Refused("header")
            ELSE IF s[w.s] # 77 /\ ~pattern THEN Refused("type")
            ELSE Entries(b, L, 2, -1, s[w.s] = 77 /\ w.e = w.s + 1 /\ Blank(s, w.e) /\ Len(s) <= MaxLine, IntOf(t.v[1]), IntOf(t.v[2]))
RECURSIVE SkipComments(_, _, _)
SkipComments(b, L, q1) == IF q1 <= Len(L) /\ L[q1][1] <= L[q1][2] /\ b[L[q1][1]] = 37 THEN SkipComments(b, L, q1 + 1) ELSE q1
MM(b, L) ==
    IF ~BannerOK(Text(b, L[1])) THEN Refused("banner")
    ELSE LET q1 == SkipComments(b, L, 2) IN
         IF q1 > Len(L) THEN Refused("truncated")
         ELSE LET s == Text(b, L[q1])
                  t == Ints(s, 1, 3, <<>>)
              IN IF ~t.ok THEN Refused("dimensions")
                 ELSE IF \E k \in 1..3 : ~(NonNeg(t.v[k]) /\ Fits(t.v[k])) THEN Refused("dimensions")
                 ELSE Entries(b, L, q1 + 1, IntOf(t.v[3]), ~t.extra /\ \A q \in 1..q1 : L[q][2] - L[q][1] < MaxLine, IntOf(t.v[1]), IntOf(t.v[2]))
Meaning(b, pattern) == LET L == Lines(b) IN
    IF L = <<>> THEN Refused("empty") ELSE IF IsBanner(Text(b, L[1])) THEN MM(b, L) ELSE Sms(b, L, pattern)
(* the entries, with residues; those that vanish are left out, except in a pattern *)
Values(h, pattern, ent) == LET F(e) == <<e.i - 1, e.j - 1, IF pattern THEN 1 ELSE ZDigits(h, IF e.neg THEN -1 ELSE 1, e.d)>>
                           IN SelectSeq([k \in 1..Len(ent) |-> F(ent[k])], LAMBDA e : e[3] # 0)
(* equal as multisets of triples *)
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))
SameBag(s, u) == Len(s) = Len(u) /\ SortSeq(TLCEval(s), Before) = SortSeq(TLCEval(u), Before)
MaxOf(S) == CHOOSE v \in S : \A w \in S : w <= v
================================================================================
