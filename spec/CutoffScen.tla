----------------------------- MODULE CutoffScen -----------------------------
(* Where to cut an index: in the header, in the entries, in front of, within or behind the locations of an entry (first,
   second, ..., last), with how many bytes of the last cell; and how many passes the reader makes. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE c
Init == c \in ({"header", "entries"} \X {0, 1, 2, 3} \X {0, 1, 4, 7} \X {1, 2, 3, 7})
              \cup ({"before", "first", "middle", "end"} \X {1, 2, 3, 99} \X {0, 1, 4, 7} \X {1, 2, 3, 7})
              \cup {<<"whole", 0, 0, n>> : n \in {1, 2, 3, 7}}
Next == FALSE /\ c' = c
Emit == PrintT("SCN " \o ToJson(c))
=============================================================================
