------------------------------- MODULE Morton -------------------------------
(* The layout of location words at any width: longitude of W bits (two's complement) in
   the even bits, latitude of W-1 bits in the odd bits, the top odd bit set.  TLC checks at
   small widths that it is lossless, that no location is an id, and that computing it byte by
   byte from a table (Words!Loc, internal/morton) is the same as moving single bits. *)
EXTENDS Integers, Sequences, TLC

CONSTANTS W, B         \* width of a coordinate; bits per digit of the table (divides W)
P(n) == 2^n
Lons == -P(W-1) .. P(W-1)-1
Lats == -P(W-2) .. P(W-2)-1
BitOf(v, i) == (v \div P(i)) % 2            \* of the two's complement: \div floors

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n-1)
\* the words as 2W bit numbers, without the sign's interpretation
Word(lon, lat) == Sum([i \in 1..W |-> P(2*(i-1)) * BitOf(lon, i-1) + P(2*(i-1)+1) * (IF i = W THEN 1 ELSE BitOf(lat, i-1))], W)
IsId(w) == w < P(2*W - 1)                   \* top bit clear
Lon(w) == LET u == Sum([i \in 1..W |-> P(i-1) * BitOf(w, 2*(i-1))], W) IN IF u >= P(W-1) THEN u - P(W) ELSE u
Lat(w) == LET u == Sum([i \in 1..(W-1) |-> P(i-1) * BitOf(w, 2*(i-1)+1)], W-1) IN IF u >= P(W-2) THEN u - P(W-1) ELSE u

\* digit by digit, as the code does it
Digits == W \div B
Digit(v, d) == (v \div P(B*d)) % P(B)
Spread == [x \in 0..(P(B)-1) |-> Sum([i \in 1..B |-> P(2*(i-1)) * BitOf(x, i-1)], B)]
Flag(x) == IF x >= P(B-1) THEN x ELSE x + P(B-1)
ByTable(lon, lat) == Sum([d \in 1..Digits |-> P(2*B*(d-1)) * (Spread[Digit(lon, d-1)]
    + 2 * Spread[IF d = Digits THEN Flag(Digit(lat, d-1)) ELSE Digit(lat, d-1)])], Digits)

VARIABLES lon, lat
Init == lon \in Lons /\ lat \in Lats
\* from one position to a neighbour: the words differ too
Step == \/ lon < P(W-1)-1 /\ lon' = lon + 1 /\ UNCHANGED lat
        \/ lat < P(W-2)-1 /\ lat' = lat + 1 /\ UNCHANGED lon
Spec == Init /\ [][Step]_<<lon, lat>>
Lossless == Lon(Word(lon, lat)) = lon /\ Lat(Word(lon, lat)) = lat
NeverAnId == ~IsId(Word(lon, lat))
TableAgrees == ByTable(lon, lat) = Word(lon, lat)
\* one more bit of a coordinate is one more bit of the word (a word is a permutation of bits)
Moves == [][Word(lon', lat') # Word(lon, lat)]_<<lon, lat>>
ASSUME Cardinal == \A a, b \in Lons : (a # b) => Word(a, 0) # Word(b, 0)
=============================================================================
