---------------------------------- MODULE ZpPure ----------------------------------
(* The field Z/pZ for an odd prime p = 2h+1, as the library represents it: centred residues in     *)
(* -h..h.  Everything is parametrised by h so that it fits TLC's 32-bit integers for every prime   *)
(* below 2^32.  For TLC, the operators marked (J) are evaluated by java/spasm/Ops.java in 64-bit   *)
(* arithmetic; module OverrideCheck compares those with the definitions below.                     *)
EXTENDS Integers, Sequences

Mod(h) == 2 * h + 1
Cen(h, a) == ((a + h) % (2 * h + 1)) - h                  \* (J) canonical residue of an integer
IsRes(h, a) == a \in (-h)..h
ZAdd(h, a, b) == Cen(h, a + b)                            \* (J)
ZSub(h, a, b) == Cen(h, a - b)                            \* (J)
ZMul(h, a, b) == Cen(h, a * b)                            \* (J)
ZAxpy(h, a, x, y) == Cen(h, a * x + y)                    \* (J)
ZInv(h, a) == CHOOSE b \in (-h)..h : ZMul(h, a, b) = 1    \* (J)

(* residue of the integer  s * (d[1] 2^48 + d[2] 2^32 + d[3] 2^16 + d[4]),  d[k] in 0..65535 *)
RECURSIVE HornerRes(_, _, _, _)
HornerRes(h, base, d, k) == IF k = 0 THEN 0 ELSE ZAxpy(h, HornerRes(h, base, d, k - 1), base, Cen(h, d[k]))
ZLimbs(h, s, d) == ZMul(h, s, HornerRes(h, Cen(h, 65536), d, Len(d)))
(* residue of a decimal digit string (sequence of digits), with sign s *)
ZDigits(h, s, d) == ZMul(h, s, HornerRes(h, Cen(h, 10), d, Len(d)))

VAxpy(h, a, X, Y) == [c \in 1..Len(Y) |-> ZAxpy(h, a, X[c], Y[c])]      \* (J)
VZero(m) == [c \in 1..m |-> 0]
===============================================================================
