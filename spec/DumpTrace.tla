------------------------------ MODULE DumpTrace ------------------------------
(* Real listings of dumpnodeindex and dumpwayindex against the contents of the index, as Dump has it: the passes
   follow one another and share out the elements, and the listing of some elements is a part of that.
   CONSTS, a line per index: kind "node": els[i] = <<first id, words>>;  kind "way": ways[i] = <<id, locations>>.
   Ids of nodes and locations are words (Words.tla).
   Items of a listing, in order: <<"E", word, lon, lat, first, idx, id>> and <<"E0">> for an extracted location and a
   gap, <<"S", word, lon, lat>> and <<"S0">> for what a search finds, <<"W", id, locations>> and <<"X", id>> for a way
   and one which is not found.  Printed positions are micro degrees. *)
EXTENDS Words, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)
VARIABLES l, k, n, p, lo, hi, found
vars == <<l, k, n, p, lo, hi, found>>
E == Trace[l]
Ev(x) == l <= Len(Trace) /\ E.ev = x /\ l' = l + 1
Init == l = 1 /\ k = 0 /\ n = 1 /\ p = 1 /\ lo = 0 /\ hi = 0 /\ found = {}

\* a word and a small number
AddSmall(w, d) ==
  LET a == w[1] + d
      b == w[2] + a \div 65536
      c == w[3] + b \div 65536
      e == w[4] + c \div 65536
  IN <<a % 65536, b % 65536, c % 65536, e % 65536>>
\* v (in 1e-7 degrees) printed with six digits
Printed(m, v) == LET q == v \div 10
                     r == v % 10
                 IN (r <= 5 /\ m = q) \/ (r >= 5 /\ m = q + 1)

Count(c, e) == Len(c.els[e][2])
Off(c, e) == FoldLeft(LAMBDA x, y : x + Len(y[2]), 0, SubSeq(c.els, 1, e))     \* locations up to and with element e
\* the lines of one location, in a mode
Right(it, c, e, i, extract) ==
  LET w == c.els[e][2][i]
  IN IF w = Zero THEN it = <<IF extract THEN "E0" ELSE "S0">>
     ELSE /\ it[1] = (IF extract THEN "E" ELSE "S")
          /\ it[2] = w /\ Printed(it[3], LonOf(w)) /\ Printed(it[4], LatOf(w))
          /\ extract => it[5] = c.els[e][1] /\ it[6] = i - 1 /\ it[7] = AddSmall(c.els[e][1], i - 1)
Per(mode) == (IF mode.x THEN 1 ELSE 0) + (IF mode.s THEN 1 ELSE 0)
\* the items are the lines of elements a+1..b
Lists(items, c, a, b, mode) ==
  LET per == Per(mode)
  IN /\ Len(items) = per * (Off(c, b) - Off(c, a))
     /\ per = 0 \/ \A e \in a + 1..b : \A i \in 1..Count(c, e) :
          LET at == per * (Off(c, e - 1) - Off(c, a) + i - 1)
          IN /\ mode.x => Right(items[at + 1], c, e, i, TRUE)
             /\ mode.s => Right(items[at + per], c, e, i, FALSE)
Min2(a, b) == IF a < b THEN a ELSE b

Index == /\ Ev("index") /\ n = p
         /\ k' = E.k /\ n' = 1 /\ p' = 1 /\ lo' = 0 /\ hi' = 0 /\ found' = {}
Follows == IF p = n THEN E.p = 0 /\ E.n >= 1 ELSE E.n = n /\ E.p = p
\* pass p of n of a node index; a pass which prints nothing (no mode) tells nothing of its extent
NodePass == /\ Ev("npass") /\ Conf[k].kind = "node" /\ E.rc = 0
            /\ Follows /\ n' = E.n /\ p' = E.p + 1
            /\ LET from == IF p = n THEN 0 ELSE hi
                   last == E.p + 1 = E.n
               IN \E b \in (IF last THEN {Len(Conf[k].els)} ELSE from..Len(Conf[k].els)) :
                    /\ Len(E.items) = Per(E) * (Off(Conf[k], b) - Off(Conf[k], from))
                    /\ TRUE = Lists(E.items, Conf[k], from, b, E)
                    /\ lo' = from /\ hi' = b
            /\ UNCHANGED <<k, found>>
\* elements a..b-1 of the pass just seen
NodePart == /\ Ev("npart") /\ E.rc = 0 /\ E.n = n /\ E.p + 1 = p
            /\ LET a == IF E.a = -1 THEN 0 ELSE E.a
                   b == IF E.b = -1 THEN hi - lo ELSE Min2(E.b, hi - lo)
               IN TRUE = (IF a >= b THEN E.items = <<>> ELSE Lists(E.items, Conf[k], lo + a, lo + b, E))
            /\ UNCHANGED <<k, n, p, lo, hi, found>>

Way(it, w) == it = <<"W", w[1], w[2]>>
Missing(it, w) == it = <<"X", w[1]>>
WayPass == /\ Ev("wpass") /\ Conf[k].kind = "way" /\ E.rc = 0
           /\ Follows /\ n' = E.n /\ p' = E.p + 1
           /\ LET ws == Conf[k].ways
                  per == Per(E)
                  old == IF p = n THEN {} ELSE found
                  new == IF E.s THEN {i \in 1..Len(ws) : per * i <= Len(E.items) /\ E.items[per * i][1] = "W"} ELSE {}
              IN /\ Len(E.items) = per * Len(ws)
                 /\ TRUE = (\A i \in 1..Len(ws) :
                      /\ E.x => Way(E.items[per * (i - 1) + 1], ws[i])
                      /\ E.s => (IF i \in new THEN Way(E.items[per * i], ws[i]) ELSE Missing(E.items[per * i], ws[i])))
                 /\ new \cap old = {}
                 /\ found' = old \cup new
                 /\ (E.s /\ E.p + 1 = E.n) => found' = 1..Len(ws)
           /\ UNCHANGED <<k, lo, hi>>
Next == Index \/ NodePass \/ NodePart \/ WayPass
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
