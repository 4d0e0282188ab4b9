---- MODULE ShaBuf ----
(* The buffering and length bookkeeping of sha256.c, scaled down: blocks of B bytes, a byte is worth Bits bits,
   the length is kept in two words of modulus W and takes the last two places of the last block.  A block handed
   to the compression function is appended to `fed`; the message is the numbers 1, 2, 3...  All splits of every
   message into at most Calls updates.                                                                       *)
EXTENDS Integers, Sequences
CONSTANTS B, W, Bits, MaxLen, Calls,
          NoCarry,       \* the low word overflows silently
          NoHigh,        \* only the low bits of a long update are counted
          RoomOff,       \* the padding thinks there is one more byte of room
          FullStays      \* a buffer filled exactly by an update is kept
VARIABLES msg, fed, buf, lo, hi, calls, pc
vars == <<msg, fed, buf, lo, hi, calls, pc>>
Mark == -1
Init == msg = 0 /\ fed = <<>> /\ buf = <<>> /\ lo = 0 /\ hi = 0 /\ calls = 0 /\ pc = "open"
Bytes(from, k) == [t \in 1 .. k |-> from + t]
RECURSIVE Cut(_, _)
Cut(s, acc) == IF Len(s) < B THEN <<acc, s>> ELSE Cut(SubSeq(s, B + 1, Len(s)), Append(acc, SubSeq(s, 1, B)))
Update == /\ pc = "open" /\ calls < Calls
          /\ \E len \in 0 .. MaxLen :
               /\ calls' = calls + 1
               /\ IF len = 0 THEN UNCHANGED <<msg, fed, buf, lo, hi>>
                  ELSE LET data == Bytes(msg, len)
                           l == (lo + len * Bits) % W
                           carry == IF l < lo /\ ~NoCarry THEN 1 ELSE 0
                           n == Len(buf)
                           fill == n > 0 /\ (IF FullStays THEN len + n > B ELSE len + n >= B)
                           first == IF fill THEN <<buf \o SubSeq(data, 1, B - n)>> ELSE <<>>
                           rest == IF fill THEN SubSeq(data, B - n + 1, len) ELSE IF n > 0 THEN <<>> ELSE data
                           r == Cut(rest, fed \o first) IN
                       /\ msg' = msg + len
                       /\ lo' = l
                       /\ hi' = (hi + carry + IF NoHigh THEN 0 ELSE len \div (W \div Bits)) % W
                       /\ fed' = r[1]
                       /\ buf' = IF n > 0 /\ ~fill THEN buf \o data ELSE r[2]
          /\ UNCHANGED pc
Zeros(k) == [t \in 1 .. k |-> 0]
Final == /\ pc = "open"
         /\ pc' = "closed"
         /\ LET p == Append(buf, Mark)
                limit == IF RoomOff THEN B - 1 ELSE B - 2
                split == Len(p) > limit
                head == IF split THEN <<p \o Zeros(B - Len(p))>> ELSE <<>>
                body == IF split THEN Zeros(B - 2) ELSE IF Len(p) > B - 2 THEN SubSeq(p, 1, B - 2) ELSE p \o Zeros(B - 2 - Len(p)) IN
            fed' = (fed \o head) \o <<body \o <<hi, lo>>>>
         /\ UNCHANGED <<msg, buf, lo, hi, calls>>
Closed == pc = "closed" /\ UNCHANGED vars
Next == Update \/ Final \/ Closed
Spec == Init /\ [][Next]_vars
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
(* what FIPS 180 says the sequence of blocks is *)
PadLen == LET t == (msg + 1 + 2) % B IN IF t = 0 THEN 0 ELSE B - t
Standard == (Bytes(0, msg) \o <<Mark>>) \o (Zeros(PadLen) \o <<((msg * Bits) \div W) % W, (msg * Bits) % W>>)
Padded == pc = "closed" => Flat(fed) = Standard
Kept == pc = "open" => Flat(fed) \o buf = Bytes(0, msg)
Room == Len(buf) < B /\ \A k \in DOMAIN fed : Len(fed[k]) = B
====
