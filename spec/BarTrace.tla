------------------------------ MODULE BarTrace ------------------------------
(* What the real formatter and the real lines of the display show.  Events:
     bar        a line with a fixed text layout and width begins, its progress only grows from here
     see w pre pct post num den shown hl single cells chl
                at progress num/den (num = den = 0: no progress yet) the line shows the characters
                shown (code points); the text is pre, or pre, the
                progress in percent with one decimal and post.  If every character of it is one cell
                wide, those with hl # 0 are highlighted, and the w cells of the screen show cells, those
                with chl # 0 highlighted.
     plain pre shown   the line is without a bar and shows pre
   (a hang is no action) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, last
B == INSTANCE Bar WITH Design <- "ok", Chars <- {}, MaxLen <- 0, MaxW <- 0, Den <- 1, text <- 0, width <- 0, at <- 0, shown <- 0
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
Init == l = 1 /\ last = 0

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
\* v tenths of a percent
Tenths(v) == Digits(v \div 10) \o <<46, 48 + (v % 10)>>
\* the tenths of a percent nearest to num/den
Near(num, den) == {v \in {(1000 * num) \div den, ((1000 * num) \div den) + 1} :
                     LET d == (v * den) - (1000 * num) IN 2 * (IF d < 0 THEN -d ELSE d) <= den}
Texts(e) == IF e.pct = 1 THEN {e.pre \o Tenths(v) \o e.post : v \in Near(e.num, e.den)} ELSE {e.pre}

BlankFrom(s, n) == \A i \in (n + 1)..Len(s) : s[i] = 32
Same(s, t) == /\ Len(s) >= Len(t)
              /\ \A i \in DOMAIN t : s[i] = t[i]
              /\ BlankFrom(s, Len(t))
Count(hl) == Cardinality({i \in DOMAIN hl : hl[i] # 0})
IsPrefix(hl) == \A i \in 1..Len(hl) - 1 : hl[i] = 0 => hl[i + 1] = 0

Bar == Ev("bar") /\ last' = 0
Plain == /\ Ev("plain") /\ TRUE = Same(E.shown, E.pre) /\ UNCHANGED last
See == /\ Ev("see")
       /\ \E t \in Texts(E) : TRUE = Same(E.shown, t)
       /\ TRUE = (E.single = 1 => IsPrefix(E.hl))
       /\ \E h \in {Count(E.hl)} :
            IF E.single = 0 \/ E.w = 0 \/ E.num >= E.den THEN UNCHANGED last
            ELSE /\ B!FitsShare(h, E.w, E.num, E.den)
                 /\ h >= last
                 /\ last' = h
       /\ E.single = 1 =>
            TRUE = (\A i \in 1..E.w : /\ E.cells[i] = (IF i <= Len(E.shown) THEN E.shown[i] ELSE 32)
                                      /\ (i <= Len(E.hl) => E.chl[i] = E.hl[i]))
Next == Bar \/ Plain \/ See
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
