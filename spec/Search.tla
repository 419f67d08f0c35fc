------------------------------- MODULE Search -------------------------------
(* How the sub-indexes look up an id: the hint first, then bisection.  For ranges of ids which are in
   order and do not overlap (of a way index: of one id each) the range found contains the id, and
   when none is found none contains it - for every number of ranges, id and hint. *)
EXTENDS Integers, TLAPS

CONSTANTS N, F, L, Top, id, hint

ASSUME Ranges == /\ N \in Nat /\ F \in [0..(N - 1) -> Nat] /\ L \in [0..(N - 1) -> Nat]
                 /\ \A i \in 0..(N - 1) : F[i] <= L[i]
                 /\ \A i, j \in 0..(N - 1) : i < j => L[i] < F[j]
\* the highest id of this pass; if the pass has no ranges, that of the one before
ASSUME Highest == Top \in Nat /\ (N > 0 => Top = L[N - 1])
ASSUME Asked == id \in Nat /\ hint \in Nat

Has(i) == F[i] <= id /\ id <= L[i]

VARIABLES pc, lo, hi, res
vars == <<pc, lo, hi, res>>

Init == pc = "start" /\ lo = 0 /\ hi = N /\ res = -1

Above == /\ pc = "start" /\ id > Top
         /\ pc' = "done" /\ res' = -1 /\ UNCHANGED <<lo, hi>>
Hint == /\ pc = "start" /\ id <= Top
        /\ IF hint < N
           THEN IF id < F[hint] THEN pc' = "loop" /\ hi' = hint /\ UNCHANGED <<lo, res>>
                ELSE IF id <= L[hint] THEN pc' = "done" /\ res' = hint /\ UNCHANGED <<lo, hi>>
                ELSE pc' = "loop" /\ lo' = hint /\ UNCHANGED <<hi, res>>
           ELSE pc' = "loop" /\ UNCHANGED <<lo, hi, res>>
Halve == /\ pc = "loop" /\ lo < hi
         /\ LET mid == (lo + hi) \div 2 IN
            IF id < F[mid] THEN hi' = mid /\ UNCHANGED <<pc, lo, res>>
            ELSE IF id <= L[mid] THEN pc' = "look" /\ lo' = mid /\ UNCHANGED <<hi, res>>
            ELSE lo' = mid + 1 /\ UNCHANGED <<pc, hi, res>>
Leave == /\ pc = "loop" /\ lo >= hi /\ pc' = "look" /\ UNCHANGED <<lo, hi, res>>
Look == /\ pc = "look" /\ pc' = "done" /\ UNCHANGED <<lo, hi>>
        /\ res' = IF lo >= N THEN -1 ELSE IF Has(lo) THEN lo ELSE -1
Next == Above \/ Hint \/ Halve \/ Leave \/ Look
Spec == Init /\ [][Next]_vars

Right == pc = "done" => /\ res # -1 => res \in 0..(N - 1) /\ Has(res)
                        /\ res = -1 => \A i \in 0..(N - 1) : ~Has(i)
\* what is left gets less in each round
Shrinks == [][Halve => (hi' - lo' < hi - lo \/ pc' = "look")]_vars

Ind == /\ pc \in {"start", "loop", "look", "done"}
       /\ lo \in 0..N /\ hi \in 0..N /\ res \in {-1} \cup 0..(N - 1)
       /\ pc = "start" => lo = 0 /\ hi = N
       /\ pc \in {"start", "loop"} => \A i \in 0..(N - 1) : Has(i) => lo <= i /\ i < hi
       /\ pc = "look" => (\A i \in 0..(N - 1) : ~Has(i)) \/ (lo < N /\ Has(lo))
       /\ pc # "done" => res = -1
       /\ Right

LEMMA Start == Init => Ind
  BY Ranges DEF Init, Ind, Right

LEMMA Middle == \A a, b \in Nat : a < b => (a + b) \div 2 \in a..(b - 1)
  BY Z3

LEMMA Step == Ind /\ [Next]_vars => Ind'
<1> SUFFICES ASSUME Ind, [Next]_vars PROVE Ind'
  OBVIOUS
<1> USE Ranges, Asked, Highest DEF Ind
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars, Right, Has
<1>2. CASE Above
  <2>1. \A i \in 0..(N - 1) : L[i] <= Top
    <3> TAKE i \in 0..(N - 1)
    <3>1. N > 0 /\ Top = L[N - 1] /\ N - 1 \in 0..(N - 1) OBVIOUS
    <3>2. CASE i = N - 1 BY <3>1, <3>2
    <3>3. CASE i < N - 1
      <4>1. L[i] < F[N - 1] /\ F[N - 1] <= L[N - 1] BY <3>1, <3>3
      <4>2. L[i] \in Nat /\ F[N - 1] \in Nat /\ L[N - 1] \in Nat BY <3>1
      <4> QED BY <4>1, <4>2, <3>1
    <3> QED BY <3>2, <3>3
  <2>2. \A i \in 0..(N - 1) : ~Has(i) BY <2>1, <1>2 DEF Above, Has
  <2> QED BY <2>2, <1>2 DEF Above, Right
<1>3. CASE Hint
  <2>1. CASE hint >= N BY <2>1, <1>3 DEF Hint, Right
  <2>2. CASE hint < N /\ id < F[hint]
    <3>1. \A i \in 0..(N - 1) : Has(i) => i < hint
      <4> SUFFICES ASSUME NEW i \in 0..(N - 1), Has(i), i >= hint PROVE FALSE
        OBVIOUS
      <4>1. hint \in 0..(N - 1) BY <2>2
      <4>2. F[hint] <= F[i]
        <5>1. CASE i = hint BY <5>1, <4>1
        <5>2. CASE i > hint
          <6>1. F[hint] <= L[hint] /\ L[hint] < F[i] BY <5>2, <4>1
          <6>2. F[hint] \in Nat /\ L[hint] \in Nat /\ F[i] \in Nat BY <4>1
          <6> QED BY <6>1, <6>2
        <5> QED BY <5>1, <5>2
      <4> QED BY <4>1, <4>2, <2>2 DEF Has
    <3> QED BY <3>1, <2>2, <1>3 DEF Hint, Right
  <2>3. CASE hint < N /\ id >= F[hint] /\ id <= L[hint]
    <3>1. hint \in 0..(N - 1) BY <2>3
    <3>2. Has(hint) BY <2>3 DEF Has
    <3>3. ~(id < F[hint]) BY <2>3, <3>1
    <3>4. pc' = "done" /\ res' = hint /\ UNCHANGED <<lo, hi>> BY <3>3, <2>3, <1>3 DEF Hint
    <3>5. Has(res)' BY <3>2, <3>4 DEF Has
    <3>6. res' # -1 BY <3>1, <3>4
    <3> QED BY <3>1, <3>4, <3>5, <3>6 DEF Right
  <2>4. CASE hint < N /\ id > L[hint]
    <3>0. hint \in 0..(N - 1) BY <2>4
    <3>1. \A i \in 0..(N - 1) : Has(i) => hint <= i
      <4> SUFFICES ASSUME NEW i \in 0..(N - 1), Has(i), i < hint PROVE FALSE
        BY <3>0
      <4>1. L[i] < F[hint] /\ F[hint] <= L[hint] BY <3>0
      <4>2. L[i] \in Nat /\ F[hint] \in Nat /\ L[hint] \in Nat BY <3>0
      <4> QED BY <4>1, <4>2, <2>4 DEF Has
    <3>2. ~(id < F[hint]) /\ ~(id <= L[hint])
      <4>1. F[hint] <= L[hint] /\ F[hint] \in Nat /\ L[hint] \in Nat BY <3>0
      <4> QED BY <4>1, <2>4
    <3>3. pc' = "loop" /\ lo' = hint /\ UNCHANGED <<hi, res>> BY <3>2, <2>4, <1>3 DEF Hint
    <3> QED BY <3>0, <3>1, <3>3, <1>3 DEF Hint, Right
  <2>5. hint >= N \/ (hint < N /\ (id < F[hint] \/ (id >= F[hint] /\ id <= L[hint]) \/ id > L[hint]))
    <3>1. CASE hint < N
      <4>1. F[hint] \in Nat /\ L[hint] \in Nat BY <3>1
      <4> QED BY <3>1, <4>1
    <3> QED BY <3>1
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5
<1>4. CASE Halve
  <2> DEFINE mid == (lo + hi) \div 2
  <2>0. lo \in Nat /\ hi \in Nat /\ lo < hi BY <1>4 DEF Halve
  <2>1. mid \in lo..(hi - 1) BY <2>0, Middle
  <2>2. mid \in 0..(N - 1) BY <2>1
  <2>3. F[mid] \in Nat /\ L[mid] \in Nat /\ F[mid] <= L[mid] BY <2>2
  <2>4. IF id < F[mid] THEN hi' = mid /\ UNCHANGED <<pc, lo, res>>
        ELSE IF id <= L[mid] THEN pc' = "look" /\ lo' = mid /\ UNCHANGED <<hi, res>>
        ELSE lo' = mid + 1 /\ UNCHANGED <<pc, hi, res>> BY <1>4 DEF Halve
  <2>5. pc = "loop" BY <1>4 DEF Halve
  <2> HIDE DEF mid
  <2>6. CASE id < F[mid]
    <3>1. \A i \in 0..(N - 1) : Has(i) => i < mid
      <4> SUFFICES ASSUME NEW i \in 0..(N - 1), Has(i), i >= mid PROVE FALSE
        BY <2>2
      <4>1. CASE i = mid BY <4>1, <2>6, <2>3 DEF Has
      <4>2. CASE i > mid
        <5>1. L[mid] < F[i] /\ F[i] \in Nat BY <4>2, <2>2
        <5> QED BY <5>1, <2>6, <2>3 DEF Has
      <4> QED BY <4>1, <4>2, <2>2
    <3>2. hi' = mid /\ UNCHANGED <<pc, lo, res>> BY <2>6, <2>4
    <3> QED BY <3>1, <3>2, <2>2, <2>5 DEF Right, Has
  <2>7. CASE id >= F[mid] /\ id <= L[mid]
    <3>1. pc' = "look" /\ lo' = mid /\ UNCHANGED <<hi, res>> BY <2>7, <2>4, <2>3
    <3>2. Has(lo)' BY <3>1, <2>7 DEF Has
    <3> QED BY <3>1, <3>2, <2>2, <2>5 DEF Right, Has
  <2>8. CASE id > L[mid]
    <3>1. \A i \in 0..(N - 1) : Has(i) => mid + 1 <= i
      <4> SUFFICES ASSUME NEW i \in 0..(N - 1), Has(i), i <= mid PROVE FALSE
        BY <2>2
      <4>1. CASE i = mid BY <4>1, <2>8, <2>3 DEF Has
      <4>2. CASE i < mid
        <5>1. L[i] < F[mid] /\ L[i] \in Nat BY <4>2, <2>2
        <5> QED BY <5>1, <2>8, <2>3 DEF Has
      <4> QED BY <4>1, <4>2, <2>2
    <3>2. lo' = mid + 1 /\ UNCHANGED <<pc, hi, res>> BY <2>8, <2>4, <2>3
    <3> QED BY <3>1, <3>2, <2>2, <2>5 DEF Right, Has
  <2> QED BY <2>6, <2>7, <2>8, <2>3
<1>5. CASE Leave BY <1>5 DEF Leave, Right, Has
<1>6. CASE Look
  <2>1. CASE lo >= N BY <2>1, <1>6 DEF Look, Right, Has
  <2>2. CASE lo < N /\ Has(lo)
    <3>1. pc' = "done" /\ res' = lo /\ UNCHANGED <<lo, hi>> /\ lo \in 0..(N - 1) BY <2>2, <1>6 DEF Look
    <3>2. Has(res)' BY <3>1, <2>2 DEF Has
    <3> QED BY <3>1, <3>2 DEF Right
  <2>3. CASE lo < N /\ ~Has(lo) BY <2>3, <1>6 DEF Look, Right, Has
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next

THEOREM Spec => []Right
<1>1. Ind => Right BY DEF Ind
<1> QED BY <1>1, Start, Step, PTL DEF Spec

THEOREM Spec => Shrinks
<1>1. Ind /\ [Next]_vars => (Halve => (hi' - lo' < hi - lo \/ pc' = "look"))
  <2> SUFFICES ASSUME Ind, Halve PROVE hi' - lo' < hi - lo \/ pc' = "look"
    OBVIOUS
  <2>1. lo \in Nat /\ hi \in Nat /\ lo < hi BY DEF Halve, Ind
  <2>2. (lo + hi) \div 2 \in lo..(hi - 1) BY <2>1, Middle
  <2> QED BY <2>1, <2>2 DEF Halve
<1> QED BY <1>1, Start, Step, PTL DEF Spec, Shrinks
=============================================================================
