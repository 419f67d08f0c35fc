-------------------------------- MODULE Cli --------------------------------
(* Command lines.  A command line is a sequence of items:
     <<"opt", o, c>>   option o with a value of class c (its spelling - short, long, joined
                       or not - does not matter)
     <<"bare", o>>     option o where its value should be but is not
     <<"pos">>         an argument which is no option
     <<"unknown">>     an option which does not exist
     <<"help">>        a request for help
     <<"dash">>        the double dash, behind which there are no options
   The first item which is wrong or asks for help decides.  Otherwise everything required has
   to be there, nothing positional, every value in its range, and what belongs together must
   be together: then the tool runs with, for each option, the last value given or the
   default (a list option collects).  If not it is refused, and nothing has been touched. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Tools, MaxExtra, Places, Policy

Sys == [mt |-> "int", cp |-> "prof", mp |-> "prof", mr |-> "rate"]
Pbf == Sys @@ [i |-> "file", w |-> "count"]
Out == Pbf @@ [o |-> "out", r |-> "dur"]
Types(t) ==
  CASE t \in {"blockcount", "entitycount"} -> Pbf
    [] t = "entityfind" -> Pbf @@ [e |-> "uint"]
    [] t \in {"decompress", "nodeindex", "tagfilter"} -> Out
    [] t = "wayindex" -> Out @@ [a |-> "align"]
    [] t = "relindex" -> Out @@ [x |-> "file", p |-> "count"]
    [] t = "rewritenodes" -> Out @@ [x |-> "file", m |-> "mem", t |-> "float"]
    [] t = "dumpnodeindex" -> Sys @@ [i |-> "file", p |-> "flag", s |-> "flag", si |-> "usub", sc |-> "usub", se |-> "elem", ee |-> "elem"]
    [] t = "dumpwayindex" -> Sys @@ [i |-> "file", p |-> "flag", s |-> "flag", si |-> "sub", sc |-> "sub"]
Required(t) == CASE t = "entityfind" -> {"i", "e"} [] t \in {"relindex", "rewritenodes"} -> {"i", "x", "o"}
                 [] t \in {"blockcount", "entitycount", "dumpnodeindex", "dumpwayindex"} -> {"i"} [] OTHER -> {"i", "o"}
\* classes of values: accepted, out of range, not of the type (an output "in" is one of the inputs)
Good(y) == CASE y \in {"file", "out", "count", "mem", "float", "rate"} -> {"a", "b"}
             [] y \in {"align", "uint", "elem"} -> {"a", "b", "zero"}
             [] y = "int" -> {"a", "b", "zero"}
             [] y \in {"sub", "usub"} -> {"zero", "a", "b"}
             [] y = "dur" -> {"zero"} [] y = "flag" -> {"set"} [] y = "prof" -> {"a"}
Range(y) == CASE y = "count" -> {"zero", "neg"} [] y = "align" -> {"neg", "big"} [] y = "mem" -> {"zero"} [] y = "float" -> {"low"} [] y = "out" -> {"in"} [] y = "dur" -> {"neg"} [] y = "sub" -> {"neg"} [] OTHER -> {}
Junk(y) == IF y \in {"file", "out", "prof"} THEN {} ELSE {"junk"} \cup (IF y \in {"uint", "mem", "usub"} THEN {"neg"} ELSE {}) \cup (IF y \in {"count", "align", "int", "elem"} THEN {"huge"} ELSE {})
Lists == {"e"}
Num(c) == CASE c = "neg" -> -1 [] c = "zero" -> 0 [] c = "a" -> 1 [] c = "b" -> 2 [] OTHER -> 0
Default(t, o) == IF o = "a" THEN <<"default">> ELSE IF o = "p" /\ t = "relindex" THEN <<"a">> ELSE <<>>

\* ------------------------------------------------------------------ contract
RECURSIVE Until(_, _)
Until(s, d) == IF s = <<>> \/ s[1][1] = d THEN <<>> ELSE <<s[1]>> \o Until(Tail(s), d)
Before(items) == Until(items, "dash")
Behind(items) == LET n == Len(Before(items)) IN SubSeq(items, n + 2, Len(items))
Bad(t, x) == CASE x[1] \in {"bare", "unknown"} -> TRUE
               [] x[1] = "opt" -> x[3] \in Junk(Types(t)[x[2]])
               [] OTHER -> FALSE
Deciding(t, items) == {j \in 1..Len(Before(items)) : items[j][1] = "help" \/ Bad(t, items[j])}
Given(items, o) == LET s == SelectSeq(Before(items), LAMBDA x : x[1] = "opt" /\ x[2] = o) IN [j \in 1..Len(s) |-> s[j][3]]
Effective(t, items) == [o \in DOMAIN Types(t) |->
    LET g == Given(items, o) IN IF g = <<>> THEN Default(t, o) ELSE IF o \in Lists THEN g ELSE <<g[Len(g)]>>]
Positional(items) == Behind(items) # <<>> \/ \E j \in 1..Len(Before(items)) : items[j][1] = "pos"
Valid(t, v) ==
    /\ \A o \in DOMAIN v : v[o] # <<>> => \A j \in 1..Len(v[o]) : v[o][j] \notin Range(Types(t)[o])
    /\ v["mr"] # <<>> => v["mp"] # <<>>
    /\ "si" \in DOMAIN v => /\ (v["si"] = <<>>) = (v["sc"] = <<>>)
                            /\ v["si"] # <<>> => Num(v["si"][1]) < Num(v["sc"][1])
Outcome(t, items) ==
    LET d == Deciding(t, items) IN
    IF d # {} THEN (IF items[CHOOSE j \in d : \A k \in d : j <= k][1] = "help" THEN "help" ELSE "refuse")
    ELSE IF /\ \A o \in Required(t) : Given(items, o) # <<>>
            /\ ~Positional(items) /\ Valid(t, Effective(t, items)) THEN "run" ELSE "refuse"

\* ------------------------------------------------------------- command lines
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE LET p == Seqs(S, n - 1) IN p \cup {Append(s, x) : s \in {q \in p : Len(q) = n - 1}, x \in S}
Extra(t) == UNION {{<<"opt", o, c>> : c \in Good(Types(t)[o]) \cup Range(Types(t)[o]) \cup Junk(Types(t)[o])} : o \in DOMAIN Types(t)}
            \cup {<<"bare", o>> : o \in {q \in DOMAIN Types(t) : Types(t)[q] # "flag"}} \cup {<<"pos">>, <<"unknown">>, <<"help">>, <<"dash">>}
BaseOpts(t) == <<"i", "x", "e", "o", "r">>
First(o) == IF o = "r" THEN "zero" ELSE "a"
Base(t, omit) == LET s == SelectSeq(BaseOpts(t), LAMBDA o : o \in DOMAIN Types(t) /\ o # omit)
                 IN [j \in 1..Len(s) |-> <<"opt", s[j], First(s[j])>>]
Turn(s, n) == SubSeq(s, n + 1, Len(s)) \o SubSeq(s, 1, n)
Ins(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
Where(s) == IF Places = "ends" THEN {0, Len(s)} ELSE 0..Len(s)
RECURSIVE Put(_, _)
Put(s, xs) == IF xs = <<>> THEN {s} ELSE UNION {Put(Ins(s, p, xs[1]), Tail(xs)) : p \in Where(s)}

VARIABLES tool, line, pc, at, dash, vals, npos, exit, touched, ran
vars == <<tool, line, pc, at, dash, vals, npos, exit, touched, ran>>

Init == /\ tool \in Tools
        /\ \E omit \in {"none"} \cup Required(tool) : \E xs \in Seqs(Extra(tool), MaxExtra) :
              /\ Len(xs) = 2 => omit = "none"
              /\ LET b == Base(tool, omit) IN
                 \E n \in IF Places = "ends" THEN {0} ELSE 0..(IF Len(b) = 0 THEN 0 ELSE Len(b) - 1) : line \in Put(Turn(b, n), xs)
        /\ pc = "parse" /\ at = 1 /\ dash = FALSE /\ npos = 0
        /\ vals = [o \in DOMAIN Types(tool) |-> <<>>]
        /\ exit = "none" /\ touched = {} /\ ran = <<>>

Stop(how) == pc' = "end" /\ exit' = how
Stay == UNCHANGED <<tool, line>>
Store(o, c) == vals' = [vals EXCEPT ![o] = IF o \in Lists THEN Append(@, c)
                                           ELSE IF Policy = "first" /\ @ # <<>> THEN @ ELSE <<c>>]

Parse == /\ pc = "parse" /\ at <= Len(line) /\ Stay
         /\ LET x == line[at] IN
            \/ /\ dash \/ x[1] = "pos"
               /\ npos' = npos + 1 /\ at' = at + 1 /\ UNCHANGED <<pc, exit, vals, dash, touched, ran>>
            \/ /\ ~dash /\ x[1] = "dash" /\ dash' = TRUE /\ at' = at + 1
               /\ UNCHANGED <<pc, exit, vals, npos, touched, ran>>
            \/ /\ ~dash /\ x[1] = "help" /\ Stop("help")
               /\ UNCHANGED <<at, vals, npos, dash, touched, ran>>
            \/ /\ ~dash /\ Bad(tool, x) /\ Stop(IF Policy = "lenient" /\ x[1] = "unknown" THEN "help" ELSE "refuse")
               /\ UNCHANGED <<at, vals, npos, dash, touched, ran>>
            \/ /\ ~dash /\ x[1] = "opt" /\ ~Bad(tool, x)
               /\ Store(x[2], x[3]) /\ at' = at + 1
               /\ touched' = IF Policy = "eager" /\ x[2] = "o" THEN touched \cup {"o"} ELSE touched
               /\ UNCHANGED <<pc, exit, npos, dash, ran>>
\* defaults, then what is required
Fill == /\ pc = "parse" /\ at > Len(line) /\ Stay
        /\ vals' = [o \in DOMAIN vals |-> IF vals[o] = <<>> \/ (Policy = "overdefault" /\ Default(tool, o) # <<>>) THEN Default(tool, o) ELSE vals[o]]
        /\ IF \E o \in Required(tool) : vals[o] = <<>> THEN Stop("refuse") ELSE pc' = "check" /\ exit' = exit
        /\ UNCHANGED <<at, npos, dash, touched, ran>>
Check == /\ pc = "check" /\ Stay
         /\ IF (npos > 0 /\ Policy # "swallow") \/ (Policy \notin {"late", "unchecked"} /\ ~Valid(tool, vals)) THEN Stop("refuse")
            ELSE pc' = "setup" /\ exit' = exit
         /\ UNCHANGED <<at, vals, npos, dash, touched, ran>>
Setup == /\ pc = "setup" /\ Stay
         /\ touched' = touched \cup {o \in {"cp"} : vals[o] # <<>>}
         /\ pc' = "work" /\ UNCHANGED <<at, vals, npos, dash, exit, ran>>
Work == /\ pc = "work" /\ Stay
        /\ touched' = touched \cup {o \in DOMAIN vals \cap {"o", "mp"} : vals[o] # <<>>}
        /\ IF Policy = "late" /\ ~Valid(tool, vals) THEN Stop("refuse") /\ ran' = ran
           ELSE Stop("run") /\ ran' = <<vals>>
        /\ UNCHANGED <<at, vals, npos, dash>>
Next == Parse \/ Fill \/ Check \/ Setup \/ Work

Decided == pc = "end" => exit = Outcome(tool, line)
Untouched == (pc = "end" /\ exit \in {"help", "refuse"}) => touched = {} /\ ran = <<>>
Meant == ran # <<>> => ran[1] = Effective(tool, line) /\ touched = {o \in DOMAIN vals \cap {"o", "cp", "mp"} : vals[o] # <<>>}
=============================================================================
