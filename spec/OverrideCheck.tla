----------------------------- MODULE OverrideCheck -----------------------------
(* Compares the Java evaluations used by TLC with the TLA+ definitions (instantiated under another  *)
(* module name, hence not overridden) on small primes, exhaustively for scalars and on a family of  *)
(* small matrices for the linear algebra.                                                           *)
EXTENDS LinAlg
Pure == INSTANCE LinAlgPure
VARIABLE st
Hs == {1, 2, 3, 6}
Scalars == \A h \in Hs : \A a, b, c \in (-h)..h :
   /\ ZAdd(h, a, b) = Pure!ZAdd(h, a, b) /\ ZSub(h, a, b) = Pure!ZSub(h, a, b) /\ ZMul(h, a, b) = Pure!ZMul(h, a, b)
   /\ ZAxpy(h, a, b, c) = Pure!ZAxpy(h, a, b, c) /\ (a # 0 => ZInv(h, a) = Pure!ZInv(h, a))
   /\ Cen(h, 7 * a - 5 * b + 11 * c) = Pure!Cen(h, 7 * a - 5 * b + 11 * c)
(* 3 x 3 matrices over GF(3): entry list from a number in base 3, zeros stored for half of them *)
Digit(k, e) == ((k \div (3 ^ e)) % 3) - 1
Full(k) == [n |-> 3, m |-> 3, v |-> 1, p |-> <<0, 3, 6, 9>>, j |-> <<0, 1, 2, 2, 1, 0, 1, 0, 2>>, x |-> [e \in 1..9 |-> Digit(k, e - 1)]]
Ech(k) == [n |-> 2, m |-> 3, v |-> 1, p |-> <<0, 3, 5>>, j |-> <<1, 0, 2, 2, 0>>, x |-> <<1, Digit(k, 0), Digit(k, 1), 1, Digit(k, 2)>>]
EchP(k) == [n |-> 2, m |-> 3, v |-> 1, p |-> <<0, 2, 5>>, j |-> <<1, 2, 2, 0, 1>>, x |-> <<Digit(k, 0), 1, Digit(k, 1), 1, Digit(k, 2)>>]
Vec(k) == [e \in 1..3 |-> Digit(k, e + 3)]
Sp(k) == LET e == <<k % 3, (k \div 3) % 3, (k \div 9) % 3, (k \div 27) % 3>> IN [n |-> 3, m |-> 3, v |-> 0, p |-> <<0, 1, 3, 3 + ((k \div 81) % 2)>>, j |-> SubSeq(e, 1, 3 + ((k \div 81) % 2)), x |-> <<>>]
MatOK(h, k) == LET A == Full(k)  B == Full((7 * k + 13) % 19683)  U == Ech(k) IN
   /\ Dense(h, A) = Pure!Dense(h, A) /\ Rank(h, A) = Pure!Rank(h, A)
   /\ VecMat(h, Vec(k), A) = Pure!VecMat(h, Vec(k), A) /\ MatVec(h, A, Vec(k)) = Pure!MatVec(h, A, Vec(k))
   /\ ProdRow(h, A, 2, B) = Pure!ProdRow(h, A, 2, B)
   /\ \A I \in {{1, 2, 3}, {1}, {2}, {3}, {}} : LET pr == [n |-> 3, m |-> 3, v |-> 1, p |-> <<0, 3, 6, 9>>, j |-> <<0, 1, 2, 2, 1, 0, 1, 0, 2>>,
                                                    x |-> [e \in 1..9 |-> LET w == ProdRow(h, A, 1 + ((e - 1) \div 3), B) IN IF e = 8 /\ k % 2 = 1 THEN ZAdd(h, w[1], 1) ELSE w[<<1, 2, 3, 3, 2, 1, 2, 1, 3>>[e]]]]
                                                IN ProdRows(h, A, I, B, pr) = Pure!ProdRows(h, A, I, B, pr) /\ ProdRows(h, A, I, B, A) = Pure!ProdRows(h, A, I, B, A)
                                                   /\ (k % 2 = 0 => ProdRows(h, A, I, B, pr))
   /\ LET T == [A EXCEPT !.x = [e \in 1..9 |-> IF e \in {2, 3, 4} /\ (k + e) % 5 > 0 THEN 0 ELSE @[e]]]
      IN \A q \in {<<0, 1, 2>>, <<0, 1>>, <<1, 0, 2>>, <<0>>, <<>>} : LowerAt(h, T, q) = Pure!LowerAt(h, T, q)
   /\ Elim(h, U, Vec(k)) = Pure!Elim(h, U, Vec(k)) /\ ElimCoeffs(h, U, Vec(k)) = Pure!ElimCoeffs(h, U, Vec(k))
   /\ ElimP(h, EchP(k), <<2, 0>>, <<2, 1>>, Vec(k)) = Pure!ElimP(h, EchP(k), <<2, 0>>, <<2, 1>>, Vec(k))
   /\ ElimPC(h, EchP(k), <<2, 0>>, <<2, 1>>, Vec(k)) = Pure!ElimPC(h, EchP(k), <<2, 0>>, <<2, 1>>, Vec(k))
   /\ PickRows(A, <<3, 1>>) = Pure!PickRows(A, <<3, 1>>) /\ Stack(A, B) = Pure!Stack(A, B)
   /\ LET ent == [e \in 1..6 |-> <<(k \div e) % 2, (k + e) % 3, Digit(k, e)>>] IN DenseOf(h, 2, 3, ent) = Pure!DenseOf(h, 2, 3, ent) /\ PatOf(3, ent) = Pure!PatOf(3, ent)
   /\ \A q \in {<<0, 1, 2>>, <<-1, 0, 1>>, <<2, -1, 0>>, <<1, -1, -1>>} : \A S \in SUBSET {0, 1, 2} : h = 3 \/ ReachCols(Sp(k \div 7), q, S) = Pure!ReachCols(Sp(k \div 7), q, S)
   /\ Dot(h, Vec(k), DRow(h, A, 2), 2) = Pure!Dot(h, Vec(k), DRow(h, A, 2), 2)
   /\ DVecMat(h, Vec(k), Dense(h, A), Vec(k + 1)) = Pure!DVecMat(h, Vec(k), Dense(h, A), Vec(k + 1))
   /\ VAxpy(h, -1, Vec(k), DRow(h, A, 1)) = Pure!VAxpy(h, -1, Vec(k), DRow(h, A, 1))
Init == st \in {7 * i : i \in 0..2800}
Next == UNCHANGED st
Inv == (st = 0 => Scalars /\ \A a, b, c \in 0..3 : Cardinality({a, b, c}) = 3 => LET q == <<a, b - 2, c - 1>> IN Cardinality({a, b - 2, c - 1}) < 3 \/ IndexMap(q) = Pure!IndexMap(q)) /\ MatOK(1, st) /\ MatOK(3, st)
================================================================================
