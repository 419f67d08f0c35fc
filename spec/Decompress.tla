----------------------------- MODULE Decompress -----------------------------
(* cmd/decompress: W workers each turn one blob into one blob which holds the same payload
   uncompressed; Pipeline's reorder stage and writer put them in file order.  A blob is a
   type and a sequence of fields; a payload is named by its number, sizes by classes.
   The recycled buffer of a worker keeps what it held last (pool), so that a result which
   is sent before it is copied would be seen. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxBlobs, Workers, Payloads    \* payloads are numbers 1..n

Layouts == { <<"raw">>, <<"raw", "size">>, <<"size", "raw">>, <<"size", "zlib">>, <<"zlib", "size">> }
Types == {"OSMHeader", "OSMData"}
HeaderOrders == {"type-size", "size-type"}
Blob == {[type |-> t, payload |-> p, layout |-> y, header |-> h] : t \in Types, p \in Payloads, y \in Layouts, h \in HeaderOrders}

VARIABLES file, at, busy, buf, ready, out
vars == <<file, at, busy, buf, ready, out>>

Zlib(b) == \E i \in 1..Len(b.layout) : b.layout[i] = "zlib"
Init == /\ file \in UNION {[1..n -> Blob] : n \in 0..MaxBlobs}
        /\ at = 1 /\ busy = [w \in Workers |-> 0] /\ buf = [w \in Workers |-> 0] /\ ready = {} /\ out = <<>>
Take(w) == /\ at <= Len(file) /\ busy[w] = 0 /\ busy' = [busy EXCEPT ![w] = at] /\ at' = at + 1
           /\ buf' = [buf EXCEPT ![w] = IF Zlib(file[at]) THEN file[at].payload ELSE @]
           /\ UNCHANGED <<file, ready, out>>
\* the result is a copy: it does not refer to the buffer, which the next blob will overwrite
Give(w) == /\ busy[w] # 0
           /\ LET b == file[busy[w]] IN
              ready' = ready \cup {<<busy[w], [type |-> b.type, payload |-> IF Zlib(b) THEN buf[w] ELSE b.payload, layout |-> <<"raw">>]>>}
           /\ busy' = [busy EXCEPT ![w] = 0] /\ UNCHANGED <<file, at, buf, out>>
Write == \E r \in ready : r[1] = Len(out) + 1 /\ out' = Append(out, r[2]) /\ ready' = ready \ {r} /\ UNCHANGED <<file, at, busy, buf>>
Next == (\E w \in Workers : Take(w) \/ Give(w)) \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* -------------------------------------------------------------- properties
Out(b) == [type |-> b.type, payload |-> b.payload, layout |-> <<"raw">>]
Prefix == \A i \in 1..Len(out) : i <= Len(file) /\ out[i] = Out(file[i])
Idle == at > Len(file) /\ \A w \in Workers : busy[w] = 0
Complete == (Idle /\ ready = {}) => Len(out) = Len(file)
Ends == <>(Len(out) = Len(file))
=============================================================================
