---------------------------------- MODULE Sha ----------------------------------
(* SHA-256 (FIPS 180-4) on byte sequences, with 32-bit words as pairs <<high, low>> of 16-bit      *)
(* halves, and the pseudo-random stream built on it.                                               *)
EXTENDS Integers, Sequences, Bitwise

Half == 65536
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WNot(a) == <<Half - 1 - a[1], Half - 1 - a[2]>>
WAdd(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div Half) % Half, lo % Half>>
Pow2(k) == 2^k
\* rotation and shift to the right by k, 0 < k < 32
WRot16(a) == <<a[2], a[1]>>
Rot15(a, k) == <<((a[1] \div Pow2(k)) + (a[2] % Pow2(k)) * Pow2(16 - k)) % Half, ((a[2] \div Pow2(k)) + (a[1] % Pow2(k)) * Pow2(16 - k)) % Half>>
WRotr(a, k) == IF k >= 16 THEN (IF k = 16 THEN WRot16(a) ELSE Rot15(WRot16(a), k - 16)) ELSE Rot15(a, k)
WShr(a, k) == <<a[1] \div Pow2(k), ((a[2] \div Pow2(k)) + (a[1] % Pow2(k)) * Pow2(16 - k)) % Half>>      \* k < 16
S0(x) == WXor(WXor(WRotr(x, 2), WRotr(x, 13)), WRotr(x, 22))
S1(x) == WXor(WXor(WRotr(x, 6), WRotr(x, 11)), WRotr(x, 25))
s0(x) == WXor(WXor(WRotr(x, 7), WRotr(x, 18)), WShr(x, 3))
s1(x) == WXor(WXor(WRotr(x, 17), WRotr(x, 19)), WShr(x, 10))
Ch(x, y, z) == WXor(WAnd(x, y), WAnd(WNot(x), z))
Maj(x, y, z) == WXor(WXor(WAnd(x, y), WAnd(x, z)), WAnd(y, z))
\* fractional parts of the cube roots of the first 64 primes and of the square roots of the first 8
K == <<<<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>, <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>, <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>, <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>, <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>, <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
IV == <<<<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>>>>
\* padding: 0x80, zeros, 64-bit big-endian bit length
Pad(msg) == LET n == Len(msg)
                z == (119 - (n % 64)) % 64
            IN msg \o <<128>> \o [i \in 1..z |-> 0] \o <<0, 0, 0>> \o <<n \div 536870912, (n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, (n * 8) % 256>>
WordAt(b, i) == <<b[i] * 256 + b[i + 1], b[i + 2] * 256 + b[i + 3]>>
RECURSIVE Sched(_, _)
Sched(W, t) == IF t > 64 THEN W ELSE Sched(Append(W, WAdd(WAdd(s1(W[t - 2]), W[t - 7]), WAdd(s0(W[t - 15]), W[t - 16]))), t + 1)
RECURSIVE Rounds(_, _, _)
Rounds(v, W, t) == IF t > 64 THEN v
   ELSE LET T1 == WAdd(WAdd(v[8], S1(v[5])), WAdd(WAdd(Ch(v[5], v[6], v[7]), K[t]), W[t]))
            T2 == WAdd(S0(v[1]), Maj(v[1], v[2], v[3]))
        IN Rounds(<<WAdd(T1, T2), v[1], v[2], v[3], WAdd(v[4], T1), v[5], v[6], v[7]>>, W, t + 1)
CompressBlock(H, b, pos) == LET W == Sched([t \in 1..16 |-> WordAt(b, pos + 4 * (t - 1))], 17)
                           v == Rounds(H, W, 1)
                       IN [i \in 1..8 |-> WAdd(H[i], v[i])]
RECURSIVE Blocks(_, _, _)
Blocks(H, b, pos) == IF pos > Len(b) THEN H ELSE Blocks(CompressBlock(H, b, pos), b, pos + 64)
Digest(msg) == Blocks(IV, Pad(msg), 1)                     \* 8 words
WordBytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
Sha256(msg) == LET d == Digest(msg) IN                     \* (J)
   [i \in 1..32 |-> WordBytes(d[((i - 1) \div 4) + 1])[((i - 1) % 4) + 1]]

(* the generated test messages: byte i (from 0) of pattern (a, b) *)
RECURSIVE MulMod32(_, _)
MulMod32(w, x) == IF x = 0 THEN <<0, 0>> ELSE LET y == MulMod32(w, x \div 2) y2 == WAdd(y, y) IN IF x % 2 = 1 THEN WAdd(y2, w) ELSE y2
PatByte(a, b, i) == LET w == WAdd(MulMod32(a, i % 65521), b) IN (w[2] \div 8) % 256
PatMsg(a, b, len) == [i \in 1..len |-> PatByte(a, b, i - 1)]
ShaPat(a, b, len) == Sha256(PatMsg(a, b, len))             \* (J)

(* ---- the generator: word number t (from 0) of the stream of (seed, modulus, sequence) ---- *)
BE(w) == WordBytes(w)
StreamBlock(seed, prime, seq, c) == Sha256(seed \o BE(prime) \o BE(c) \o BE(seq))
StreamWord(seed, prime, seq, t) == LET B == StreamBlock(seed, prime, seq, <<(t \div 8) \div Half, (t \div 8) % Half>>)
                                       i == 4 * (t % 8)
                                   IN <<B[i + 1] * 256 + B[i + 2], B[i + 3] * 256 + B[i + 4]>>
WLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* smallest 2^i - 1 >= prime - 1 *)
LowMask(x) == LET k == CHOOSE k \in 0..16 : Pow2(k) >= x /\ (k = 0 \/ Pow2(k - 1) < x) IN Pow2(k) - 1
Mask(prime) == IF prime[1] = 0 THEN <<0, LowMask(prime[2])>> ELSE <<LowMask(prime[1] + (IF prime[2] > 0 THEN 1 ELSE 0)), Half - 1>>
================================================================================
