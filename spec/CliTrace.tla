------------------------------ MODULE CliTrace ------------------------------
(* Validates runs of the real tools against Cli.
     cmd  tool line     the command line
          rc            0, 1 (not 0)
          usage err     help on the standard output; something on the standard error
          touched       the files which were created or changed
          prof          the rate which the memory profile tells, by the class of its value, and the
                   kind of the other profile; or none, or broken
     canon         the options of the plainest command line which means the same, if it is to run
          same          what that one and this one did (status, output, files), as numbers *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
C == INSTANCE Cli WITH Tools <- {}, MaxExtra <- 0, Places <- "ends", Policy <- "right",
     tool <- "", line <- <<>>, pc <- "", at <- 1, dash <- FALSE, vals <- <<>>, npos <- 0, exit <- "", touched <- {}, ran <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
Init == l = 1
Profiles(v) == [mem |-> IF v["mp"] = <<>> THEN "none" ELSE IF v["mr"] = <<>> THEN "default" ELSE v["mr"][Len(v["mr"])],
                cpu |-> IF v["cp"] = <<>> THEN "none" ELSE "cpu"]
Ok(o) == CASE o = "help" -> E.rc = 0 /\ E.usage /\ E.touched = <<>>
           [] o = "refuse" -> E.rc # 0 /\ E.err /\ E.touched = <<>>
           [] o = "run" -> /\ E.rc = 0 /\ E.same[1] = E.same[2]
                           /\ TRUE = (\A x \in DOMAIN E.canon : E.canon[x] = C!Effective(E.tool, E.line)[x])
                           /\ DOMAIN E.canon = DOMAIN C!Types(E.tool)
                           /\ \E v \in {C!Effective(E.tool, E.line)} : E.prof = Profiles(v)
Cmd == l <= Len(Trace) /\ E.ev = "cmd" /\ l' = l + 1 /\ \E o \in {C!Outcome(E.tool, E.line)} : Ok(o)
Next == Cmd
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
