----------------------------- MODULE LimitsScen -----------------------------
(* Pairs of values around the limits of the two index formats, as words of four 16 bit limbs: every power of two
   that bounds a field, one less, one more, and the largest and smallest numbers.  Printed for the real encoders. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE c
Limb(k) == (k \div 16) + 1
P(k) == [i \in 1..4 |-> IF i = Limb(k) THEN 2^(k % 16) ELSE 0]                       \* 2^k
PM(k) == [i \in 1..4 |-> IF i < Limb(k) THEN 65535 ELSE IF i = Limb(k) THEN 2^(k % 16) - 1 ELSE 0]   \* 2^k - 1
PP(k) == [P(k) EXCEPT ![1] = @ + 1]                                                    \* 2^k + 1, k > 0
Nth(l) == [i \in 1..4 |-> 65535 - l[i]]                                                \* -1 - l
Small == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<2, 0, 0, 0>>, <<7, 0, 0, 0>>}
Around(ks) == UNION {{P(k), PM(k), PP(k)} : k \in ks}
Values == Small \cup Around({8, 16, 23, 24, 25, 30, 31, 32, 33, 34, 39, 40, 41, 55, 56, 62, 63})
Counts == Values \cup {PM(63), Nth(<<0, 0, 0, 0>>)}
Ids == Values \cup {Nth(<<0, 0, 0, 0>>), Nth(PM(31)), Nth(P(31)), Nth(<<6, 0, 0, 0>>)}
Init == c \in {<<"co", x, y>> : x \in Counts, y \in Counts} \cup {<<"wi", x, y>> : x \in Ids, y \in Ids}
Next == FALSE /\ c' = c
Emit == PrintT("SCN " \o ToJson(c))
=============================================================================
