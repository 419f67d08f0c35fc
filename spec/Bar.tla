--------------------------------- MODULE Bar ---------------------------------
(***************************************************************************)
(* A progress bar behind a line of text.  The text goes to the display as  *)
(* markup: %% is a percent sign, %S starts the highlight, %N ends it, any  *)
(* other %x selects a style that is not known (and shows nothing).  The    *)
(* highlight covers the share of the width that is done.                   *)
(*                                                                         *)
(* A text is a sequence of characters: "p" is the percent sign, "e" a      *)
(* character of two bytes, every other one is itself.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b
\* the shown text is the text with blanks up to the width
Padded(t, w) == t \o [i \in 1..(IF w > Len(t) THEN w - Len(t) ELSE 0) |-> " "]
\* how many characters are highlighted at num of den; not said (and not asked) when it is full
Share(w, num, den) == (w * num) \div den
\* what the display may show: highlighted prefix of h characters; one character of rounding
FitsShare(h, w, num, den) ==
  \/ num >= den
  \/ num = 0 /\ h = 0
  \/ num > 0 /\ h * den <= (w * num) + den /\ w * num <= (h * den) + den

(***************************************************************************)
(* The markup: cut first, then escape each part.                           *)
(***************************************************************************)
RECURSIVE Esc(_)
Esc(t) == IF t = <<>> THEN <<>>
          ELSE (IF Head(t) = "p" THEN <<"p", "p">> ELSE <<Head(t)>>) \o Esc(Tail(t))

RECURSIVE ToBytes(_)
ToBytes(t) == IF t = <<>> THEN <<>>
              ELSE (IF Head(t) = "e" THEN <<"e1", "e2">> ELSE <<Head(t)>>) \o ToBytes(Tail(t))
RECURSIVE FromBytes(_)
FromBytes(b) == IF b = <<>> THEN <<>>
                ELSE IF Len(b) > 1 /\ b[1] = "e1" /\ b[2] = "e2" THEN <<"e">> \o FromBytes(SubSeq(b, 3, Len(b)))
                ELSE IF b[1] \in {"e1", "e2"} THEN <<"?">> \o FromBytes(Tail(b))
                ELSE <<b[1]>> \o FromBytes(Tail(b))

\* the display of a markup: characters and which are highlighted
RECURSIVE Render(_, _, _, _)
Render(m, esc, on, acc) ==
  IF m = <<>> THEN acc
  ELSE LET c == Head(m) IN
       IF esc THEN (IF c = "p" THEN Render(Tail(m), FALSE, on, Append(acc, <<"p", on>>))
                    ELSE Render(Tail(m), FALSE, c = "S", acc))
       ELSE IF c = "p" THEN Render(Tail(m), TRUE, on, acc)
       ELSE Render(Tail(m), FALSE, on, Append(acc, <<c, on>>))
Display(m) == Render(m, FALSE, FALSE, <<>>)

Cut(t, n) == <<SubSeq(t, 1, Lesser(n, Len(t))), SubSeq(t, n + 1, Len(t))>>
Wrap(parts) == <<"p", "S">> \o parts[1] \o <<"p", "N">> \o parts[2]

CONSTANTS Design,   \* "ok", or one that is wrong: "late" escape before the cut, "bytes" cut in bytes,
                    \* "tail" the end not escaped, "nopad" no blanks up to the width, "once" cut character twice
          Chars, MaxLen, MaxW, Den

Markup(t, w, num) ==
  IF w = 0 THEN Esc(t)
  ELSE LET n == Share(w, num, Den)
           pt == Padded(t, w) IN
       CASE Design = "ok"    -> IF n >= Len(pt) THEN Esc(pt) ELSE Wrap(<<Esc(Cut(pt, n)[1]), Esc(Cut(pt, n)[2])>>)
         [] Design = "late"  -> Wrap(Cut(Esc(pt), n))
         [] Design = "bytes" -> LET b == ToBytes(pt) IN Wrap(<<Esc(FromBytes(Cut(b, n)[1])), Esc(FromBytes(Cut(b, n)[2]))>>)
         [] Design = "tail"  -> Wrap(<<Esc(Cut(pt, n)[1]), Cut(pt, n)[2]>>)
         [] Design = "nopad" -> IF n >= Len(t) THEN Esc(t) ELSE Wrap(<<Esc(Cut(t, n)[1]), Esc(Cut(t, n)[2])>>)
         [] Design = "once"  -> Wrap(<<Esc(Cut(pt, n)[1]), Esc(SubSeq(pt, Greater(n, 1), Len(pt)))>>)

Texts == UNION {[1..k -> Chars] : k \in 0..MaxLen}
VARIABLES text, width, at, shown
vars == <<text, width, at, shown>>
Init == /\ text \in Texts /\ width \in 0..MaxW /\ at = 0 /\ shown = <<>>
Draw == /\ shown' = Display(Markup(text, width, at)) /\ UNCHANGED <<text, width, at>>
Move == /\ at < Den /\ at' = at + 1 /\ UNCHANGED <<text, width, shown>>
Next == Draw \/ Move
Spec == Init /\ [][Next]_vars

Plain(s) == [i \in DOMAIN s |-> s[i][1]]
High(s) == Cardinality({i \in DOMAIN s : s[i][2]})
\* always exactly the text
Exact == shown # <<>> => Plain(shown) = Padded(text, width)
\* the highlight is a prefix
Prefix == TRUE = (\A i, j \in DOMAIN shown : i < j /\ shown[j][2] => shown[i][2])
\* it is the share that was done at some point up to now: nothing at none, and never less with more
Covers == shown # <<>> /\ width > 0 => \E n \in 0..at : High(shown) = Share(width, n, Den) \/ n = Den
Grows == [][at < Den /\ shown' # shown => High(shown') >= High(shown)]_vars
=============================================================================
