------------------------------- MODULE Share -------------------------------
(* How the elements of an index are divided into passes, for every number of elements and of passes.
   Cum[i] is how many locations are before element i+1, so Cum[N] is how many there are.  A pass
   begins where the one before ends: Bound[p], the first place from Bound[p-1] on with as many
   locations before it as the share p of all of them asks for. *)
EXTENDS Integers, NaturalsInduction, TLAPS

CONSTANTS N, P, Cum, T, Bound

ASSUME Sizes == N \in Nat /\ P \in Nat /\ P > 0
\* no element is empty
ASSUME Elements == /\ Cum \in [0..N -> Nat] /\ Cum[0] = 0
                   /\ \A i, j \in 0..N : i < j => Cum[i] < Cum[j]
\* the share of the passes before pass p (counted from 0), rounded down
ASSUME Shares == /\ T \in [0..P -> Nat]
                 /\ \A p \in 0..P : T[p] * P <= Cum[N] * p /\ Cum[N] * p < (T[p] + 1) * P

\* the first place from f on with at least t locations before it, or the end
IsFirst(i, f, t) == /\ i \in f..N
                    /\ i = N \/ Cum[i] >= t
                    /\ \A j \in f..(i - 1) : Cum[j] < t

\* as the code computes it: the start of a pass by itself, and its end from its start on
ASSUME Passes == Bound \in [0..P -> 0..N] /\ \A p \in 0..P : IsFirst(Bound[p], 0, T[p])
IsPass(lo, hi, p) == IsFirst(lo, 0, T[p]) /\ IsFirst(hi, lo, T[p + 1])

LEMMA Unique == \A f \in 0..N, t \in Nat : \A i, j \in 0..N : IsFirst(i, f, t) /\ IsFirst(j, f, t) => i = j
<1> SUFFICES ASSUME NEW f \in 0..N, NEW t \in Nat, NEW i \in 0..N, NEW j \in 0..N, IsFirst(i, f, t), IsFirst(j, f, t), i < j
             PROVE FALSE
  BY Sizes, Z3 DEF IsFirst
<1>1. i \in f..(j - 1) BY Sizes DEF IsFirst
<1>2. Cum[i] < t BY <1>1 DEF IsFirst
<1>3. Cum[i] >= t BY Sizes DEF IsFirst
<1>4. Cum[i] \in Nat BY Elements
<1> QED BY <1>2, <1>3, <1>4

LEMMA First0 == T[0] = 0
<1>1. 0 \in 0..P BY Sizes
<1>2. T[0] \in Nat BY <1>1, Shares
<1>3. T[0] * P <= Cum[N] * 0 BY <1>1, Shares
<1>4. Cum[N] * 0 = 0 BY Sizes, Elements
<1>5. T[0] * P <= 0 BY <1>3, <1>4
<1> QED BY <1>2, <1>5, Sizes, Z3

LEMMA LastT == T[P] = Cum[N]
<1>1. P \in 0..P BY Sizes
<1>2. T[P] \in Nat /\ Cum[N] \in Nat BY <1>1, Shares, Sizes, Elements
<1>3. T[P] * P <= Cum[N] * P /\ Cum[N] * P < (T[P] + 1) * P BY <1>1, Shares
<1>4. T[P] <= Cum[N] BY <1>2, <1>3, Sizes, Z3
<1>5. Cum[N] < T[P] + 1 BY <1>2, <1>3, Sizes, Z3
<1> QED BY <1>2, <1>4, <1>5

LEMMA Times == \A a, b, c \in Nat : a <= b => a * c <= b * c
<1> SUFFICES ASSUME NEW a \in Nat, NEW b \in Nat, NEW c \in Nat, a <= b PROVE a * c <= b * c
  OBVIOUS
<1>1. b - a \in Nat /\ (b - a) * c \in Nat /\ a * c \in Nat BY Z3
<1>2. b * c = a * c + (b - a) * c BY Z3
<1> QED BY <1>1, <1>2

LEMMA Grows == \A p \in 0..(P - 1) : T[p] <= T[p + 1]
<1> SUFFICES ASSUME NEW p \in 0..(P - 1), T[p + 1] < T[p] PROVE FALSE
  BY Sizes, Shares
<1>1. p \in 0..P /\ p + 1 \in 0..P BY Sizes
<1>2. T[p] \in Nat /\ T[p + 1] \in Nat /\ Cum[N] \in Nat BY <1>1, Shares, Sizes, Elements
<1>3. T[p] * P <= Cum[N] * p BY <1>1, Shares
<1>4. Cum[N] * (p + 1) < (T[p + 1] + 1) * P BY <1>1, Shares
<1>5. T[p + 1] + 1 <= T[p] BY <1>2
<1>6. (T[p + 1] + 1) * P <= T[p] * P BY <1>5, <1>2, Sizes, Times
<1>7. Cum[N] * p <= Cum[N] * (p + 1) BY <1>2, <1>1, Sizes, Z3
<1>8. Cum[N] * (p + 1) \in Int /\ Cum[N] * p \in Int /\ T[p] * P \in Int /\ (T[p + 1] + 1) * P \in Int BY <1>1, <1>2, Sizes
<1> QED BY <1>3, <1>4, <1>6, <1>7, <1>8

\* the end of a pass, looked for from its start on, is the start of the next
THEOREM Meet == \A p \in 0..(P - 1), lo \in 0..N, hi \in 0..N : IsPass(lo, hi, p) => lo = Bound[p] /\ hi = Bound[p + 1]
<1> SUFFICES ASSUME NEW p \in 0..(P - 1), NEW lo \in 0..N, NEW hi \in 0..N, IsPass(lo, hi, p) PROVE lo = Bound[p] /\ hi = Bound[p + 1]
  OBVIOUS
<1>1. p \in 0..P /\ p + 1 \in 0..P /\ 0 \in 0..N BY Sizes
<1>2. T[p] \in Nat /\ T[p + 1] \in Nat BY <1>1, Shares
<1>3. Bound[p] \in 0..N /\ Bound[p + 1] \in 0..N /\ IsFirst(Bound[p], 0, T[p]) /\ IsFirst(Bound[p + 1], 0, T[p + 1]) BY <1>1, Passes
<1>4. IsFirst(lo, 0, T[p]) BY DEF IsPass
<1>5. lo = Bound[p] BY <1>1, <1>2, <1>3, <1>4, Unique
<1>6. IsFirst(hi, lo, T[p + 1]) BY DEF IsPass
<1>7. \A j \in 0..(lo - 1) : Cum[j] < T[p + 1]
  <2> TAKE j \in 0..(lo - 1)
  <2>1. Cum[j] < T[p] BY <1>4 DEF IsFirst
  <2>2. T[p] <= T[p + 1] BY Grows
  <2>3. Cum[j] \in Nat BY Elements, Sizes
  <2> QED BY <2>1, <2>2, <2>3, <1>2
<1>8. IsFirst(hi, 0, T[p + 1])
  <2>1. hi \in 0..N /\ (hi = N \/ Cum[hi] >= T[p + 1]) BY <1>6 DEF IsFirst
  <2>2. \A j \in 0..(hi - 1) : Cum[j] < T[p + 1]
    <3> TAKE j \in 0..(hi - 1)
    <3>1. CASE j < lo BY <3>1, <1>7, Sizes
    <3>2. CASE j >= lo BY <3>2, <1>6, Sizes DEF IsFirst
    <3> QED BY <3>1, <3>2, Sizes
  <2> QED BY <2>1, <2>2 DEF IsFirst
<1>9. hi = Bound[p + 1] BY <1>1, <1>2, <1>3, <1>8, Unique
<1> QED BY <1>5, <1>9

THEOREM Ends == Bound[0] = 0 /\ Bound[P] = N
<1>1. 0 \in 0..P /\ P \in 0..P /\ 0 \in 0..N /\ N \in 0..N BY Sizes
<1>2. IsFirst(Bound[0], 0, 0) /\ IsFirst(Bound[P], 0, Cum[N]) BY <1>1, Passes, First0, LastT
<1>3. Bound[0] \in 0..N /\ Bound[P] \in 0..N BY <1>1, Passes
<1>4. Bound[0] = 0
  <2> SUFFICES ASSUME Bound[0] > 0 PROVE FALSE BY <1>3, Sizes
  <2>1. 0 \in 0..(Bound[0] - 1) BY <1>3, Sizes
  <2>2. Cum[0] < 0 BY <2>1, <1>2 DEF IsFirst
  <2> QED BY <2>2, Elements
<1>5. Bound[P] = N
  <2> SUFFICES ASSUME Bound[P] < N PROVE FALSE BY <1>3, Sizes
  <2>1. Cum[Bound[P]] >= Cum[N] BY <1>2, Sizes, <1>3 DEF IsFirst
  <2>2. Cum[Bound[P]] < Cum[N] BY <1>1, <1>3, Elements
  <2>3. Cum[Bound[P]] \in Nat /\ Cum[N] \in Nat BY <1>1, <1>3, Elements
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>4, <1>5

\* passes do not go backwards
THEOREM Order == \A p \in 0..(P - 1) : Bound[p] <= Bound[p + 1]
<1> SUFFICES ASSUME NEW p \in 0..(P - 1), Bound[p + 1] < Bound[p] PROVE FALSE
  BY Sizes, Passes
<1>1. p \in 0..P /\ p + 1 \in 0..P BY Sizes
<1>2. Bound[p] \in 0..N /\ Bound[p + 1] \in 0..N /\ IsFirst(Bound[p], 0, T[p]) /\ IsFirst(Bound[p + 1], 0, T[p + 1]) BY <1>1, Passes
<1>3. Bound[p + 1] \in 0..(Bound[p] - 1) BY <1>2, Sizes
<1>4. Cum[Bound[p + 1]] < T[p] BY <1>2, <1>3 DEF IsFirst
<1>5. Bound[p + 1] # N BY <1>2, Sizes
<1>6. Cum[Bound[p + 1]] >= T[p + 1] BY <1>2, <1>5 DEF IsFirst
<1>7. T[p] <= T[p + 1] BY Grows
<1>8. T[p] \in Nat /\ T[p + 1] \in Nat /\ Cum[Bound[p + 1]] \in Nat BY <1>1, <1>2, Shares, Elements
<1> QED BY <1>4, <1>6, <1>7, <1>8

In(i, p) == Bound[p] <= i /\ i < Bound[p + 1]

\* every element is in a pass ...
THEOREM Some == \A i \in 0..(N - 1) : \E p \in 0..(P - 1) : In(i, p)
<1> SUFFICES ASSUME NEW i \in 0..(N - 1), \A p \in 0..(P - 1) : ~In(i, p) PROVE FALSE
  OBVIOUS
<1> DEFINE Q(p) == p <= P => Bound[p] <= i
<1>1. Q(0) BY Ends, Sizes
<1>2. \A p \in Nat : Q(p) => Q(p + 1)
  <2> SUFFICES ASSUME NEW p \in Nat, Q(p), p + 1 <= P PROVE Bound[p + 1] <= i
    OBVIOUS
  <2>1. p \in 0..(P - 1) /\ p + 1 \in 0..P /\ p <= P BY Sizes
  <2>2. ~In(i, p) /\ Bound[p] <= i BY <2>1
  <2>3. Bound[p + 1] \in 0..N BY <2>1, Passes
  <2> QED BY <2>2, <2>3, Sizes DEF In
<1> HIDE DEF Q
<1>3. \A p \in Nat : Q(p) BY <1>1, <1>2, NatInduction, Isa
<1>4. Bound[P] <= i BY <1>3, Sizes DEF Q
<1> QED BY <1>4, Ends, Sizes

LEMMA Mono == \A p, q \in 0..P : p <= q => Bound[p] <= Bound[q]
<1> DEFINE R(d) == \A p \in 0..P : p + d <= P => Bound[p] <= Bound[p + d]
<1>1. R(0) BY Passes, Sizes
<1>2. \A d \in Nat : R(d) => R(d + 1)
  <2> SUFFICES ASSUME NEW d \in Nat, R(d), NEW p \in 0..P, p + (d + 1) <= P PROVE Bound[p] <= Bound[p + (d + 1)]
    OBVIOUS
  <2>1. p + d \in 0..(P - 1) /\ p + d \in 0..P /\ (p + d) + 1 = p + (d + 1) /\ p + (d + 1) \in 0..P BY Sizes
  <2>2. Bound[p] <= Bound[p + d] BY <2>1, Sizes
  <2>3. Bound[p + d] <= Bound[p + (d + 1)] BY <2>1, Order
  <2>4. Bound[p] \in 0..N /\ Bound[p + d] \in 0..N /\ Bound[p + (d + 1)] \in 0..N BY <2>1, Passes
  <2> QED BY <2>2, <2>3, <2>4
<1> HIDE DEF R
<1>3. \A d \in Nat : R(d) BY <1>1, <1>2, NatInduction, Isa
<1> SUFFICES ASSUME NEW p \in 0..P, NEW q \in 0..P, p <= q PROVE Bound[p] <= Bound[q]
  OBVIOUS
<1>4. q - p \in Nat /\ p + (q - p) = q BY Sizes
<1>5. R(q - p) BY <1>3, <1>4
<1> QED BY <1>4, <1>5, Sizes DEF R

\* ... and in no other
THEOREM Once == \A i \in 0..(N - 1) : \A p, q \in 0..(P - 1) : In(i, p) /\ In(i, q) => p = q
<1> SUFFICES ASSUME NEW i \in 0..(N - 1), NEW p \in 0..(P - 1), NEW q \in 0..(P - 1), In(i, p), In(i, q), p < q PROVE FALSE
  BY Sizes
<1>1. p + 1 \in 0..P /\ q \in 0..P /\ p + 1 <= q BY Sizes
<1>2. Bound[p + 1] <= Bound[q] BY <1>1, Mono
<1>3. Bound[p + 1] \in 0..N /\ Bound[q] \in 0..N BY <1>1, Passes
<1> QED BY <1>2, <1>3, Sizes DEF In

\* a pass has less than its share and one element more (Max is the largest)
THEOREM Fair == ASSUME NEW Max \in Nat, \A i \in 0..(N - 1) : Cum[i + 1] - Cum[i] <= Max
                PROVE \A p \in 0..(P - 1) : Cum[Bound[p + 1]] - Cum[Bound[p]] <= (T[p + 1] - T[p]) + Max
<1> SUFFICES ASSUME NEW p \in 0..(P - 1) PROVE Cum[Bound[p + 1]] - Cum[Bound[p]] <= (T[p + 1] - T[p]) + Max
  OBVIOUS
<1>1. p \in 0..P /\ p + 1 \in 0..P /\ 0 \in 0..N BY Sizes
<1>2. Bound[p] \in 0..N /\ Bound[p + 1] \in 0..N /\ IsFirst(Bound[p], 0, T[p]) /\ IsFirst(Bound[p + 1], 0, T[p + 1]) BY <1>1, Passes
<1>3. Cum[Bound[p]] \in Nat /\ Cum[Bound[p + 1]] \in Nat /\ T[p] \in Nat /\ T[p + 1] \in Nat BY <1>1, <1>2, Elements, Shares
<1>4. T[p] <= T[p + 1] BY Grows
<1>5. CASE Bound[p] = N
  <2>1. Bound[p + 1] = N BY <1>5, <1>2, Order, Sizes
  <2> QED BY <2>1, <1>5, <1>3, <1>4
<1>6. CASE Bound[p] # N /\ Bound[p + 1] = Bound[p]
  BY <1>6, <1>3, <1>4
<1>7. CASE Bound[p] # N /\ Bound[p + 1] # Bound[p]
  <2>1. Cum[Bound[p]] >= T[p] BY <1>7, <1>2 DEF IsFirst
  <2>2. Bound[p + 1] > 0 BY <1>7, <1>2, Order, Sizes
  <2> DEFINE k == Bound[p + 1] - 1
  <2>3. k \in 0..(Bound[p + 1] - 1) /\ k \in 0..(N - 1) /\ k \in 0..N /\ k + 1 = Bound[p + 1] BY <2>2, <1>2, Sizes
  <2>4. Cum[k] < T[p + 1] BY <2>3, <1>2 DEF IsFirst
  <2>5. Cum[k + 1] - Cum[k] <= Max BY <2>3
  <2>6. Cum[k] \in Nat BY <2>3, Elements
  <2> HIDE DEF k
  <2>7. Cum[Bound[p + 1]] - Cum[k] <= Max BY <2>3, <2>5
  <2> QED BY <2>1, <2>4, <2>6, <2>7, <1>3
<1> QED BY <1>5, <1>6, <1>7
=============================================================================
