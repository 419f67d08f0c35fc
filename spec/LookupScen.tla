----------------------------- MODULE LookupScen -----------------------------
(* Layouts of an index with a memory target, and pairs of references, for the real tools.
     "layout": sizes of the ranges in order (s: a few locations, u: a quarter of a megabyte, m: a megabyte exactly,
               l: three quarters and a little), which of them touch the one before, and the target in megabytes
               (0: none, 100: more than there is)
     "refs":   two references, each a place and where there: the first or last id, one inside, a hole, the gap in front;
               "end" is above everything, "neg" a reference which is replaced already *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxRanges
VARIABLE c
Sizes == {"s", "u", "m", "l"}
Layout == UNION {[1..n -> Sizes] : n \in 0..MaxRanges}
Places == ((1..4) \X {"first", "last", "in", "hole", "gap"}) \cup {<<0, "end">>, <<0, "neg">>, <<0, "zero">>}
Init == c \in {<<"layout", x, y, z>> : x \in Layout, y \in {"apart", "touch", "mixed"}, z \in {0, 1, 2, 3, 100}}
              \cup {<<"refs", x, y>> : x \in Places, y \in Places}
Next == FALSE /\ c' = c
Emit == PrintT("SCN " \o ToJson(c))
=============================================================================
