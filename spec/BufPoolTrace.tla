---------------------------- MODULE BufPoolTrace ----------------------------
(* Validates histories of the real pool and of the tools over a watched pool.
   new; get u sz b len; put u b ok (ok: content undisturbed); foreign u b: a buffer which is
   not the pool's is given to Put.  Buffer 0 has no storage.  tget b / tput b: a tool's
   history, where it is not known who holds what.  out g rc d: a run of case g ended with rc
   and output d. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, owner, known, alien, ref
vars == <<l, owner, known, alien, ref>>
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
Nobody == [b \in {} |-> 0]
Init == l = 1 /\ owner = Nobody /\ known = {} /\ alien = {} /\ ref = Nobody
New == Ev("new") /\ owner' = Nobody /\ known' = {} /\ alien' = {} /\ UNCHANGED ref
\* owner: the buffers which are held
Take(b, u) == b \notin DOMAIN owner /\ owner' = owner @@ (b :> u)
Release(b, u) == b \in DOMAIN owner /\ owner[b] = u /\ owner' = [x \in DOMAIN owner \ {b} |-> owner[x]]
Get == /\ Ev("get") /\ E.len = E.sz /\ E.b \notin alien
       /\ (IF E.b = 0 THEN E.sz = 0 /\ UNCHANGED owner ELSE Take(E.b, E.u))
       /\ known' = known \cup {E.b} /\ UNCHANGED <<alien, ref>>
Put == /\ Ev("put") /\ E.ok = 1 /\ (IF E.b = 0 THEN UNCHANGED owner ELSE Release(E.b, E.u)) /\ UNCHANGED <<known, alien, ref>>
Foreign == Ev("foreign") /\ E.b \notin known /\ alien' = alien \cup {E.b} /\ UNCHANGED <<owner, known, ref>>
TGet == Ev("tget") /\ Take(E.b, 0) /\ known' = known \cup {E.b} /\ UNCHANGED <<alien, ref>>
TPut == Ev("tput") /\ E.b \in known /\ Release(E.b, 0) /\ UNCHANGED <<known, alien, ref>>
Out == /\ Ev("out") /\ E.rc = 0
       /\ (IF E.g \in DOMAIN ref THEN ref[E.g] = E.d /\ UNCHANGED ref ELSE ref' = ref @@ (E.g :> E.d))
       /\ UNCHANGED <<owner, known, alien>>
Next == New \/ Get \/ Put \/ Foreign \/ TGet \/ TPut \/ Out
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
