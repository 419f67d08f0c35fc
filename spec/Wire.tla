-------------------------------- MODULE Wire --------------------------------
(* The protobuf wire format over 64 bit words (four 16 bit limbs, least significant first;
   TLC's integers have 32 bits).  A form says how a list of values is written:
     <<width, sign, delta, frame>>   width 32 or 64; sign "u", "i" (two's complement) or
     "z" (zig-zag); delta: differences of consecutive values; frame "one" (a single value),
     "raw" (values only), "len" (length first), "zero" (ended by a 0).
   Values are words; those of width 32 are given sign-extended ("u": zero-extended). *)
EXTENDS Integers, Sequences, SequencesExt, TLC

P(n) == 2^n
Zero == <<0, 0, 0, 0>>

\* ------------------------------------------------------------------- words
Not(w) == [i \in 1..4 |-> 65535 - w[i]]
Shl1(w) == [i \in 1..4 |-> ((w[i] * 2) % 65536) + (IF i > 1 THEN w[i-1] \div 32768 ELSE 0)]
Shr1(w) == [i \in 1..4 |-> (w[i] \div 2) + (IF i < 4 THEN (w[i+1] % 2) * 32768 ELSE 0)]
Neg(w) == w[4] >= 32768
Add(a, b) == LET s1 == a[1] + b[1]  s2 == a[2] + b[2] + s1 \div 65536  s3 == a[3] + b[3] + s2 \div 65536
                 s4 == a[4] + b[4] + s3 \div 65536
             IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
Sub(a, b) == Add(Add(a, Not(b)), <<1, 0, 0, 0>>)
Signed32(w) == IF w[2] >= 32768 THEN <<w[1], w[2], 65535, 65535>> ELSE <<w[1], w[2], 0, 0>>
Unsigned32(w) == <<w[1], w[2], 0, 0>>
Zig(w) == IF Neg(w) THEN Not(Shl1(w)) ELSE Shl1(w)
UnZig(z) == IF z[1] % 2 = 1 THEN Not(Shr1(z)) ELSE Shr1(z)
Small(n) == <<n % 65536, n \div 65536, 0, 0>>       \* of a natural number below 2^31

\* ------------------------------------------------------------------ varints
\* group i (0..9): bits 7i .. 7i+6
Group(w, i) == LET p == 7 * i  l == p \div 16 + 1  o == p % 16
               IN ((w[l] \div P(o)) % 128) + (IF o > 9 /\ l < 4 THEN (w[l+1] % P(o - 9)) * P(16 - o) ELSE 0)
Groups(w) == LET top == CHOOSE i \in 0..9 : /\ \A j \in (i+1)..9 : Group(w, j) = 0
                                            /\ i = 0 \/ Group(w, i) # 0
             IN top + 1
Varint(w) == LET n == Groups(w) IN [i \in 1..n |-> Group(w, i-1) + (IF i < n THEN 128 ELSE 0)]

\* one byte of a varint: acc = [w |-> word so far, n |-> bytes so far]
Take(acc, b) == LET p == 7 * acc.n  l == p \div 16 + 1  o == p % 16  x == (b % 128) * P(o)
                IN [w |-> [i \in 1..4 |-> acc.w[i] + (IF i = l THEN x % 65536 ELSE IF i = l + 1 THEN x \div 65536 ELSE 0)],
                    n |-> acc.n + 1]
Start == [w |-> Zero, n |-> 0]
\* the varint at position i of b: <<"ok", word, next position>> or <<"bad">>; at most ten bytes
\* and 64 bits
VarintAt(b, i) ==
    LET end == {j \in i..(i+9) : j <= Len(b) /\ b[j] < 128 /\ \A h \in i..(j-1) : b[h] >= 128}
    IN IF end = {} THEN <<"bad">>
       ELSE LET j == CHOOSE x \in end : TRUE IN
            IF j = i + 9 /\ b[j] > 1 THEN <<"bad">>
            ELSE <<"ok", FoldLeft(Take, Start, SubSeq(b, i, j)).w, j + 1>>

\* ------------------------------------------------------------------- values
Width(f) == f[1]
Sign(f) == f[2]
Delta(f) == f[3]
Frame(f) == f[4]
\* a value or difference of form f as the number which is written
Num(f, w) == CASE Sign(f) = "z" -> Zig(IF Width(f) = 32 THEN Signed32(w) ELSE w)
               [] Sign(f) = "i" -> IF Width(f) = 32 THEN Signed32(w) ELSE w
               [] OTHER -> IF Width(f) = 32 THEN Unsigned32(w) ELSE w
\* and back; a number which is too large for its width loses its high bits
Val(f, n) == LET v == IF Sign(f) = "z" THEN UnZig(n) ELSE n
             IN IF Width(f) = 64 THEN v ELSE IF Sign(f) = "u" THEN Unsigned32(v) ELSE Signed32(v)

Diffs(f, vs) == IF Delta(f) THEN [i \in 1..Len(vs) |-> IF i = 1 THEN vs[1] ELSE Sub(vs[i], vs[i-1])] ELSE vs
Body(f, vs) == FoldLeft(LAMBDA acc, d : acc \o Varint(Num(f, d)), <<>>, Diffs(f, vs))
Encode(f, vs) == CASE Frame(f) = "one" -> Body(f, vs)
                   [] Frame(f) = "raw" -> Body(f, vs)
                   [] Frame(f) = "zero" -> Body(f, vs) \o <<0>>
                   [] OTHER -> LET b == Body(f, vs) IN Varint(Small(Len(b))) \o b

\* the numbers in a sequence of bytes; acc = [w, n, out]
Feed(acc, b) == LET t == Take([w |-> acc.w, n |-> acc.n], b)
                IN IF b >= 128 THEN [w |-> t.w, n |-> t.n, out |-> acc.out] ELSE [w |-> Zero, n |-> 0, out |-> Append(acc.out, t.w)]
Numbers(b) == FoldLeft(Feed, [w |-> Zero, n |-> 0, out |-> <<>>], b).out
Undo(f, ns) == IF ~Delta(f) THEN [i \in 1..Len(ns) |-> Val(f, ns[i])]
               ELSE FoldLeft(LAMBDA acc, n : Append(acc, IF acc = <<>> THEN Val(f, n) ELSE Add(acc[Len(acc)], Val(f, n))), <<>>, ns)
UpToZero(ns) == SubSeq(ns, 1, (CHOOSE i \in 1..Len(ns) : ns[i] = Zero /\ \A j \in 1..(i-1) : ns[j] # Zero) - 1)
\* b holds exactly one encoded list of form f (well-formed): its values
Decode(f, b) == CASE Frame(f) = "zero" -> Undo(f, UpToZero(Numbers(b)))
                  [] Frame(f) = "len" -> LET v == VarintAt(b, 1) IN Undo(f, Numbers(SubSeq(b, v[3], Len(b))))
                  [] OTHER -> Undo(f, Numbers(b))
=============================================================================
