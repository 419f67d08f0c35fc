------------------------- MODULE IndexBuildTrace -------------------------
(* Real builds of nodeindex and wayindex, stopped in the middle.  Events of case k:
     start k old              an index of `old` bytes is at the path (-1: nothing)
     op k op f arg got ok at  an operation on file f ("out", "loc", other names), as the process saw
                              it: create (arg 1: truncates), write (got bytes, at: position or -1),
                              seek (arg, at: whence), truncate, close, remove, rename, read, sync
     end k how rc             how: "none", "kill", "error", "cancel"; rc 0 = success
     look k len               what is at the path afterwards has len bytes (-1: nothing)
     open k res               it was accepted as an index, and answered res
     refused k                it was not
   The lengths of the files are recomputed from the operations (the log is what really
   happened to the file); the verdict is NeverHalf and Whole of IndexBuild. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)

VARIABLES l, k, st, files, renamed, touched, how, rc
vars == <<l, k, st, files, renamed, touched, how, rc>>
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1 /\ k' = E.k

Gone == [len |-> -1, pos |-> 0]
Init == l = 1 /\ k = 0 /\ st = "idle" /\ files = [f \in {"out"} |-> Gone] /\ renamed = FALSE /\ touched = FALSE /\ how = "" /\ rc = 0

Start == /\ Ev("start") /\ st = "idle" /\ st' = "run"
         /\ files' = [f \in {"out"} |-> [len |-> E.old, pos |-> 0]]
         /\ renamed' = FALSE /\ touched' = FALSE /\ how' = "" /\ rc' = 0

F(f) == IF f \in DOMAIN files THEN files[f] ELSE Gone
With(f, v) == [g \in DOMAIN files \cup {f} |-> IF g = f THEN v ELSE files[g]]
Mx(a, b) == IF a > b THEN a ELSE b
After(e, x) ==
    CASE ~e.ok /\ e.got <= 0 -> x
      [] e.op = "create" -> [len |-> IF e.arg = 1 THEN 0 ELSE Mx(0, x.len), pos |-> 0]
      [] e.op = "write" /\ e.at < 0 -> [len |-> Mx(x.len, x.pos + e.got), pos |-> x.pos + e.got]
      [] e.op = "write" -> [x EXCEPT !.len = Mx(x.len, e.at + e.got)]
      [] e.op = "read" /\ e.at < 0 -> [x EXCEPT !.pos = x.pos + e.got]
      [] e.op = "seek" -> [x EXCEPT !.pos = CASE e.at = 0 -> e.arg [] e.at = 1 -> x.pos + e.arg [] OTHER -> x.len + e.arg]
      [] e.op = "truncate" -> [x EXCEPT !.len = e.arg]
      [] e.op = "remove" -> Gone
      [] OTHER -> x
Op == /\ Ev("op") /\ st = "run" /\ E.k = k
      /\ files' = With(E.f, After(E, F(E.f)))
      /\ renamed' = (renamed \/ E.op = "rename")
      /\ touched' = (touched \/ (E.f = "out" /\ E.op \in {"create", "write", "truncate", "remove", "rename"} /\ (E.ok \/ E.got > 0)))
      /\ UNCHANGED <<st, how, rc>>
End == Ev("end") /\ st = "run" /\ E.k = k /\ st' = "ended" /\ how' = E.how /\ rc' = E.rc /\ UNCHANGED <<files, renamed, touched>>
Look == /\ Ev("look") /\ st = "ended" /\ E.k = k /\ st' = "looked"
        /\ renamed \/ E.len = files["out"].len
        /\ UNCHANGED <<files, renamed, touched, how, rc>>

\* NeverHalf
Open == /\ Ev("open") /\ st = "looked" /\ E.k = k /\ st' = "idle"
        /\ TRUE = (E.res = Conf[k].new \/ (~touched /\ how # "none" /\ E.res = Conf[k].old))
        /\ (how = "none" => rc = 0)
        /\ UNCHANGED <<files, renamed, touched, how, rc>>
\* Whole
Refused == /\ Ev("refused") /\ st = "looked" /\ E.k = k /\ st' = "idle"
           /\ how # "none"
           /\ touched \/ Conf[k].old = <<>>
           /\ UNCHANGED <<files, renamed, touched, how, rc>>
Next == Start \/ Op \/ End \/ Look \/ Open \/ Refused
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
