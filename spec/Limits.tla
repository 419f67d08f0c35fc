------------------------------- MODULE Limits -------------------------------
(* Two numbers packed into one word of A + B bits, as in the elements of a node index (offset and count) and of a
   way index (way id and block offset).  Any two numbers are given.  How says what happens to numbers at the limit:
     "check"  both are compared with the first value that does not fit   (the design)
     "late"   with the last one which does                               (bad: one too many)
     "one"    only the upper one is checked                              (bad)
     "mask"   the surplus bits are cut off                               (bad)
     "signed" compared as signed numbers, from above only                (bad)
   Numbers from Mod / 2 on stand for negative ones: they are v - Mod. *)
EXTENDS Integers
CONSTANTS A, B, Extra, How
Mod == 2^(A + B + Extra)
Signed(v) == IF v >= Mod \div 2 THEN v - Mod ELSE v
VARIABLES hi, lo, word, st, out
vars == <<hi, lo, word, st, out>>
Fits(h, l) == h < 2^A /\ l < 2^B
Takes == CASE How = "check" -> hi < 2^A /\ lo < 2^B
           [] How = "late" -> hi <= 2^A /\ lo <= 2^B
           [] How = "one" -> hi < 2^A
           [] How = "mask" -> TRUE
           [] How = "signed" -> Signed(hi) < 2^A /\ Signed(lo) < 2^B
Init == hi \in 0..(Mod - 1) /\ lo \in 0..(Mod - 1) /\ word = 0 /\ st = "new" /\ out = <<>>
\* hi * 2^B or lo, in a word without the Extra bits
BitOr(x, y, n) == LET bit(v, i) == (v \div 2^i) % 2
                      f[i \in 0..n] == IF i = n THEN 0 ELSE (IF bit(x, i) = 1 \/ bit(y, i) = 1 THEN 2^i ELSE 0) + f[i + 1]
                  IN f[0]
Pack == /\ st = "new"
        /\ IF Takes THEN st' = "packed" /\ word' = BitOr((hi * 2^B) % 2^(A + B), (IF How = "mask" THEN lo % 2^B ELSE lo) % 2^(A + B), A + B)
           ELSE st' = "rejected" /\ word' = word
        /\ UNCHANGED <<hi, lo, out>>
Unpack == /\ st = "packed"
          /\ st' = "read" /\ out' = <<word \div 2^B, word % 2^B>>
          /\ UNCHANGED <<hi, lo, word>>
Next == Pack \/ Unpack
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Faithful == st = "read" => out = <<hi, lo>>
Rejects == st = "rejected" <=> (st # "new" /\ ~Fits(hi, lo))
Answers == <>(st \in {"read", "rejected"})
=============================================================================
