------------------------------- MODULE Reader -------------------------------
(* Decoding of nested length-prefixed messages held in one buffer, as internal/pb and internal/t do it:
   a message is a slice of its parent's buffer, so the memory goes on behind its end, up to the capacity.
   Any buffer of N bytes is given; byte 0 is a scalar field of one byte, byte k + 1 a nested field with k bytes
   (a message again down to depth D, an opaque value which is kept or skipped below that).

   Bound says how the end of a nested field is checked:
     "len"   against the end of the enclosing message                (the design)
     "cap"   against the end of the memory                           (bad: takes bytes of the siblings)
   Skip says how an opaque value is passed over:
     "read"  like a value which is kept                              (the design)
     "jump"  without a check                                         (bad)
   Loop says when a message is complete:
     "end"   once the position is at its end, or behind it           (as the loops are written)

   A value is inflated into a buffer of the size the header says: Inflate is
     "all"    the buffer is filled, then the end of the data is required   (the design)
     "fill"   reading stops when the buffer is full                  (bad: loses the rest, never sees the checksum)
     "room"   each read may use the whole capacity of the buffer           (bad) *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, D, Bound, Skip, Inflate
VARIABLES buf, stack, tree, status
vars == <<buf, stack, tree, status>>
Top == stack[Len(stack)]

Init == /\ buf \in UNION {[1..n -> 0..(N + 2)] : n \in 0..N}
        /\ stack = <<<<1, Len(buf) + 1>>>>       \* <<position, one behind the end>>
        /\ tree = {}                             \* <<start, end, end of the parent, depth>> of everything decoded
        /\ status = "run"

Moved(p) == [stack EXCEPT ![Len(stack)] = <<p, Top[2]>>]
Limit == IF Bound = "len" THEN Top[2] ELSE Len(buf) + 1

Fail == status' = "fail" /\ UNCHANGED <<buf, stack, tree>>

Scalar == /\ status = "run" /\ Top[1] < Top[2] /\ Top[1] <= Len(buf) /\ buf[Top[1]] = 0
          /\ stack' = Moved(Top[1] + 1)
          /\ tree' = tree \cup {<<Top[1], Top[1] + 1, Top[2], Len(stack)>>}
          /\ UNCHANGED <<buf, status>>

Nested == /\ status = "run" /\ Top[1] < Top[2] /\ Top[1] <= Len(buf) /\ buf[Top[1]] > 0
          /\ LET s == Top[1] + 1
                 e == s + buf[Top[1]] - 1
             IN IF Len(stack) < D
                THEN IF e > Limit THEN Fail
                     ELSE /\ stack' = Append(Moved(e), <<s, e>>)
                          /\ tree' = tree \cup {<<s, e, Top[2], Len(stack)>>}
                          /\ UNCHANGED <<buf, status>>
                ELSE IF (Skip = "read" /\ e > Limit) THEN Fail
                     ELSE /\ stack' = Moved(e)
                          /\ tree' = tree \cup {<<s, e, Top[2], Len(stack)>>}
                          /\ UNCHANGED <<buf, status>>

Outside == /\ status = "run" /\ Top[1] < Top[2] /\ Top[1] > Len(buf) /\ Fail

Done == /\ status = "run" /\ Top[1] >= Top[2]
        /\ IF Len(stack) = 1 THEN status' = "ok" /\ UNCHANGED <<buf, stack, tree>>
           ELSE stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<buf, tree, status>>

Next == Scalar \/ Nested \/ Outside \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* nothing accepted reaches behind the message it is in, and no message takes from another
Contained == status = "ok" => \A x \in tree : x[2] <= x[3]
Separate == status = "ok" =>
              \A x, y \in tree : x[4] = y[4] /\ x # y => x[2] <= y[1] \/ y[2] <= x[1]
Ends == <>(status # "run")

\* ---- inflating: of a stream with d bytes (good or damaged) into a buffer said to be n bytes, in memory of c bytes
Accepts(d, good, n, c) == CASE Inflate = "all" -> d = n /\ good
                            [] Inflate = "fill" -> (n = 0) \/ (d >= n)
                            [] Inflate = "room" -> (n = 0) \/ (d = n) \/ (d > n /\ c >= n /\ d <= c /\ good)
Inflated == status = "run" => \A d, n \in 0..3, c \in 0..6, good \in BOOLEAN : c >= n /\ Accepts(d, good, n, c) => d = n /\ good
=============================================================================
