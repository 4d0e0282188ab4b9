----------------------------- MODULE OverrideCheck2 -----------------------------
(* The Java evaluation of MaxMatch, Reach and Sha256 agrees with the definitions (Graph / GraphPure, *)
(* Sha / ShaPure differ only by the module name, to which the Java code is attached).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
G == INSTANCE Graph
GP == INSTANCE GraphPure
S == INSTANCE Sha
SP == INSTANCE ShaPure
VARIABLE c
Rows3 == SUBSET {0, 1, 2}
RECURSIVE SetSeq(_)
SetSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : \A y \in X : x <= y IN <<x>> \o SetSeq(X \ {x})
Pat(a, b, d) == LET A == SetSeq(a) B == SetSeq(b) D == SetSeq(d)
                IN [n |-> 3, m |-> 3, v |-> 0, x |-> <<>>, j |-> A \o B \o D, p |-> <<0, Len(A), Len(A) + Len(B), Len(A) + Len(B) + Len(D)>>]
Init == c \in [k : {"g"}, a : Rows3, b : Rows3, d : Rows3] \cup [k : {"s"}, a : {0, 1, 3, 55, 56, 63, 64, 65, 119, 120, 130}, b : {1, 1000}, d : {0}]
Next == UNCHANGED c
Agree == IF c.k = "g"
         THEN LET A == Pat(c.a, c.b, c.d) IN
              /\ \A R \in {{0, 1, 2}, {0, 2}, {1}} : \A C \in {{0, 1, 2}, {1, 2}, {0}} : G!MaxMatch(A, R, C) = GP!MaxMatch(A, R, C)
              /\ G!Reach(A) = GP!Reach(A)
              /\ G!SccLabel(A) = GP!SccLabel(A)
              /\ G!HCols(A) = GP!HCols(A) /\ G!VRows(A) = GP!VRows(A)
              /\ \A Z \in Rows3 : G!AdjAll(A, Z) = GP!AdjAll(A, Z) /\ G!AltClose(A, <<2, -1, 0>>, Z) = GP!AltClose(A, <<2, -1, 0>>, Z) /\ G!AltClose(A, <<1, 2, 0>>, Z) = GP!AltClose(A, <<1, 2, 0>>, Z)
              /\ LET r == <<0>> \o SetSeq({x + 1 : x \in c.a}) IN r[Len(r)] = 0 \/ G!BlockOf(r, r[Len(r)]) = GP!BlockOf(r, r[Len(r)])
              /\ LET p == SetSeq(c.a) \o SetSeq({0, 1, 2} \ c.a) IN G!PermInv(p) = GP!PermInv(p)
              /\ [i \in 1..3 |-> G!CReach(<<c.a, c.b, c.d>>)[i]] = GP!Reach(A)
         ELSE /\ S!ShaPat(<<c.b, 77>>, <<3, 9>>, c.a) = SP!ShaPat(<<c.b, 77>>, <<3, 9>>, c.a)
              /\ S!Sha256(<<97, 98, 99>>) = SP!Sha256(<<97, 98, 99>>)
================================================================================
