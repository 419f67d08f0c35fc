--------------------------- MODULE TagFilterKeys ---------------------------
(* constants which a configuration file cannot name conveniently, and the scenarios *)
EXTENDS TagFilter, Json
KeysA == {"name", "note", "tiger:x", "Note"}
KeysB == {"highway", "source:", "sources"}
Emit == at = 1 /\ ~done => PrintT("SCN " \o ToJson(file))
\* classification of probe keys: near misses of every entry of the lists
Endings == {"", "x", ":", ":x", " ", "_"}
Chop(s) == SubSeq(s, 1, Len(s) - 1)
Tail1(s) == SubSeq(s, 2, Len(s))
Probes == UNION {{d \o x : x \in Endings} \cup {Chop(d), Tail1(d), "x" \o d, " " \o d} : d \in DeleteTags \cup DeletePrefixes}
EmitKeys == PrintT("KEY " \o ToJson([s \in Probes |-> KeepKey(s)]))
Idle == UNCHANGED vars
OneState == file = <<>> /\ at = 1 /\ done = FALSE /\ out = <<>> /\ filler = 0
=============================================================================
