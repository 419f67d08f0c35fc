----------------------------- MODULE WireModel -----------------------------
(* A writer appends values of various forms to a buffer, a reader consumes it: whatever was
   written is read back, whole, from the same positions. *)
EXTENDS Wire
CONSTANTS Vals, Forms, MaxLen, MaxItems
\* words at which a varint grows, and those around the signs and widths
Pow(n) == [i \in 1..4 |-> IF n \div 16 = i - 1 THEN P(n % 16) ELSE 0]
Ones == <<65535, 65535, 65535, 65535>>
Edges == LET near(w) == {w, Add(w, <<1, 0, 0, 0>>), Add(w, Ones)}
         IN UNION {near(Pow(n)) : n \in {0, 6, 7, 13, 14, 20, 21, 27, 28, 30, 31, 32, 34, 35, 41, 42, 48, 49, 55, 56, 61, 62, 63}}
            \cup UNION {near(Not(Pow(n))) : n \in {0, 6, 13, 31, 32, 62}} \cup {Zero, Ones}
FewEdges == {Zero, <<1,0,0,0>>, <<63,0,0,0>>, <<64,0,0,0>>, Ones, <<65472,65535,65535,65535>>, <<0,32768,0,0>>, <<65535,32767,0,0>>, <<0,0,0,32768>>, <<65535,65535,65535,32767>>}
AllForms == {<<w, s, d, fr>> : w \in {32, 64}, s \in {"u", "i", "z"}, d \in BOOLEAN, fr \in {"one", "raw", "len", "zero"}}
PackedForms == {f \in AllForms : f[4] = "len" /\ (f[3] => f[2] = "z" /\ f[1] = 64)} \cup {<<64, "z", TRUE, "zero">>}
OneForms == {f \in AllForms : f[4] = "one" /\ ~f[3]}
Fits(f, w) == IF Width(f) = 64 THEN TRUE ELSE IF Sign(f) = "u" THEN w[3] = 0 /\ w[4] = 0 ELSE Signed32(w) = w
Lists(f) == {vs \in UNION {[1..n -> {v \in Vals : Fits(f, v)}] : n \in (IF Frame(f) = "one" THEN {1} ELSE 0..MaxLen)} :
              Frame(f) = "zero" => \A i \in 1..Len(vs) : vs[i] # IF i = 1 THEN Zero ELSE vs[i-1]}

VARIABLES items, buf, at, got
vars == <<items, buf, at, got>>
Init == items = <<>> /\ buf = <<>> /\ at = 1 /\ got = <<>>
Write == /\ Len(items) < MaxItems /\ got = <<>>
         /\ \E f \in Forms : \E vs \in Lists(f) : items' = Append(items, <<f, vs>>) /\ buf' = buf \o Encode(f, vs)
         /\ UNCHANGED <<at, got>>
\* the end of the next item, as a reader finds it
EndOf(f) == CASE Frame(f) = "one" -> VarintAt(buf, at)[3]
             [] Frame(f) = "len" -> LET v == VarintAt(buf, at) IN v[3] + v[2][1] + 65536 * v[2][2]
             [] OTHER -> (CHOOSE j \in at..Len(buf) : buf[j] = 0 /\ (j = at \/ buf[j-1] < 128) /\
                            \A h \in at..(j-1) : ~(buf[h] = 0 /\ (h = at \/ buf[h-1] < 128))) + 1
Read == /\ Len(items) = MaxItems /\ Len(got) < Len(items)
        /\ LET f == items[Len(got)+1][1] IN
           got' = Append(got, <<f, Decode(f, SubSeq(buf, at, EndOf(f) - 1))>>) /\ at' = EndOf(f)
        /\ UNCHANGED <<items, buf>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
RoundTrip == \A i \in 1..Len(got) : got[i] = items[i]
Consumed == (Len(got) = MaxItems) => at = Len(buf) + 1
Bytes == \A i \in 1..Len(buf) : buf[i] \in 0..255
=============================================================================
