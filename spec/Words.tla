------------------------------- MODULE Words -------------------------------
(* 64 bit words.  TLC's integers have 32 bits, so a word is a sequence of four 16
   bit limbs, least significant first.  Location words (ENCODING.md): longitude in
   the even bits, latitude in the odd bits, top bit set. *)
EXTENDS Integers, Sequences

Pow2(n) == 2^n

\* byte i (0 = least significant) of the two's complement of a 32 bit integer
Byte(v, i) == (v \div Pow2(8*i)) % 256    \* \div floors, % is never negative

Bit(v, i) == (v \div Pow2(i)) % 2

\* the bits of a byte moved to the even positions of a 16 bit limb
SpreadTable == [b \in 0..255 |->
    Bit(b,0) + 4*Bit(b,1) + 16*Bit(b,2) + 64*Bit(b,3) + 256*Bit(b,4)
    + 1024*Bit(b,5) + 4096*Bit(b,6) + 16384*Bit(b,7)]

\* a byte with its top bit set
Top(b) == IF b >= 128 THEN b ELSE b + 128

\* Loc(lon, lat): the location word of a position in units of 1e-7 degrees
Loc(lon, lat) ==
    LET y(i) == IF i = 3 THEN Top(Byte(lat, 3)) ELSE Byte(lat, i)
    IN [k \in 1..4 |-> SpreadTable[Byte(lon, k-1)] + 2 * SpreadTable[y(k-1)]]

IsNegative(w) == w[4] >= 32768
Zero == <<0, 0, 0, 0>>

\* back from a word to a position
EvenBits(l) == Bit(l,0) + 2*Bit(l,2) + 4*Bit(l,4) + 8*Bit(l,6) + 16*Bit(l,8) + 32*Bit(l,10) + 64*Bit(l,12) + 128*Bit(l,14)
OddBits(l) == EvenBits(l \div 2)
SByte(b) == IF b >= 128 THEN b - 256 ELSE b            \* signed byte
LonOf(w) == EvenBits(w[1]) + 256*EvenBits(w[2]) + 65536*EvenBits(w[3]) + 16777216*SByte(EvenBits(w[4]))
\* the top bit of the odd bits is the flag; bit 30 is the sign of the latitude
LatTop(w) == LET b == OddBits(w[4]) - 128 IN IF b >= 64 THEN b - 128 ELSE b
LatOf(w) == OddBits(w[1]) + 256*OddBits(w[2]) + 65536*OddBits(w[3]) + 16777216*LatTop(w)
=============================================================================
