------------------------------- MODULE CliScen -------------------------------
(* Every command line of Cli with its outcome and, if it is to run, what it means. *)
EXTENDS Cli, Json
Shown == [tool |-> tool, line |-> line, out |-> Outcome(tool, line), eff |-> IF Outcome(tool, line) = "run" THEN Effective(tool, line) ELSE <<>>]
Emit == pc = "parse" /\ at = 1 /\ exit = "none" => PrintT("SCN " \o ToJson(Shown))
Never == at = 1 /\ pc = "parse" /\ exit = "none"
=============================================================================
