---------------------------------- MODULE C22 ----------------------------------
(* Images of matrices.  The picture is a grid of x * y cells; entry (i, j) of an n * m matrix falls *)
(* in the cell (floor(i*y/n), floor(j*x/m)).  a: mode (1 bitmap, 2 gray, 3 colour), x, y, dm;       *)
(* o: the matrix that is drawn, the decomposition, the numbers of the file.                         *)
EXTENDS Replay, Graph
(* <<floor(j * x / m), j * x mod m>> without leaving 32 bits *)
RECURSIVE MulDiv(_, _, _)
MulDiv(j, x, m) == IF x = 0 THEN <<0, 0>>
    ELSE LET u == MulDiv(j, x \div 2, m)
             t == 2 * u[2] + (IF x % 2 = 1 THEN j ELSE 0)
         IN <<2 * u[1] + t \div m, t % m>>
Scale(j, x, m) == IF j < 40000 /\ x < 40000 THEN (j * x) \div m ELSE MulDiv(j, x, m)[1]
MinOf(a, b) == IF a < b THEN a ELSE b
(* cells of the entries, as numbers 1 .. x*y *)
RowCells(A, i, x, y) == [k \in (A.p[i] + 1)..A.p[i + 1] |-> Scale(i - 1, y, A.n) * x + Scale(A.j[k], x, A.m) + 1]
Busy(A) == {i \in 1..A.n : A.p[i + 1] > A.p[i]}
Bag(A, x, y) == LET C == [i \in Busy(A) |-> RowCells(A, i, x, y)]
                    marks == UNION {{C[i][k] : k \in DOMAIN C[i]} : i \in Busy(A)}
                IN [c \in marks |-> Cardinality({e \in UNION {{<<i, k>> : k \in DOMAIN C[i]} : i \in Busy(A)} : C[e[1]][e[2]] = c})]
(* the background of an empty cell, after the blocks of the decomposition *)
White == <<255, 255, 255>>
Legend == << <<(<<255, 0, 0>>), (<<204, 0, 0>>), (<<153, 0, 0>>)>>,
             <<White, (<<255, 204, 0>>), (<<204, 153, 0>>)>>,
             <<White, White, (<<51, 204, 0>>)>> >>
Block(v, lim1, lim2) == IF v < lim1 THEN 1 ELSE IF v < lim2 THEN 2 ELSE 3
(* the diagonal block met on row i of the picture: the first one whose lower edge is below this row *)
Scc(o, i, y, n) == CHOOSE s \in 1..o.nb : Scale(o.r[s + 1], y, n) > i /\ \A t \in 1..(s - 1) : Scale(o.r[t + 1], y, n) <= i
Ground(a, o, x, y, i, j) ==
    LET n == o.B.n
        m == o.B.m
        bv == Block(i, Scale(o.rr[2], y, n), Scale(o.rr[3], y, n))
        bh == Block(j, Scale(o.cc[3], x, m), Scale(o.cc[4], x, m))
    IN IF bv = 2 /\ bh = 2
       THEN LET s == Scc(o, i, y, n)
            IN IF j < Scale(o.c[s], x, m) THEN White
               ELSE IF j < Scale(o.c[s + 1], x, m) THEN <<255, 255, 102>>
               ELSE Legend[2][2]
       ELSE Legend[bv][bh]
Picture(a, o) ==
       LET n == o.B.n
           m == o.B.m
           x == MinOf(a.x, m)
           y == MinOf(a.y, n)
           h == IF a.mode = 1 THEN 3 ELSE 4
           t == o.tok
           wide == IF a.mode = 3 THEN 3 ELSE 1
           px(c) == t[h + c]
           cells == Bag(o.B, x, y)
           marks == DOMAIN cells
           lev == marks
       IN IF ~(Len(t) >= h /\ t[1] = a.mode /\ t[2] = x /\ t[3] = y /\ (a.mode = 1 \/ t[4] = 255)) THEN {"announced"}
          ELSE IF Len(t) # h + wide * x * y THEN {"pixel-count"}
          ELSE CASE a.mode = 1 -> Cl("marked", \A c \in 1..(x * y) : px(c) = IF c \in marks THEN 1 ELSE 0)
                 [] a.mode = 2 -> Cl("range", \A c \in 1..(x * y) : px(c) \in 0..255)
                                  \cup Cl("empty", \A c \in 1..(x * y) : (px(c) = 255) <=> c \notin marks)
                                  \cup Cl("darkest", \A c \in lev : (\A d \in lev : cells[d] <= cells[c]) => px(c) = 0)
                                  \cup Cl("levels", \A c \in lev : \A d \in lev : (cells[c] = cells[d] => px(c) = px(d)) /\ (cells[c] < cells[d] => px(c) >= px(d)))
                 [] a.mode = 3 -> Cl("colours", \A c \in 1..(x * y) : <<t[h + 3 * c - 2], t[h + 3 * c - 1], t[h + 3 * c]>> =
                                       IF c \in marks THEN <<0, 0, 0>> ELSE Ground(a, o, x, y, (c - 1) \div x, (c - 1) % x))
Fail(r) == IF r.s # "ok" THEN {"status"} ELSE Picture(r.a, r.o)
================================================================================
