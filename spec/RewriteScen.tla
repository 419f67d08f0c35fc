---------------------------- MODULE RewriteScen ----------------------------
(* Every file, index and division into passes of Rewrite, printed as JSON. *)
EXTENDS Rewrite, Json
Emit == (phase = "start" /\ pass = 1) => PrintT("SCN " \o ToJson([file |-> file, index |-> index, cuts |-> cuts]))
Stop == pass = 1 /\ phase = "start"
=============================================================================
