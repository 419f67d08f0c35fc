------------------------------- MODULE Accept -------------------------------
(* Which bytes are an .osm.pbf file, and what is wrong with those which are not.  A file is a sequence of
   bytes b; positions run from 1, and a range is given by its first position and the one behind its last.

   Verdict(b, inf) is a record with
     iss     what is wrong, a set of
               "frame"  lengths, header or type of a block: nothing behind it can be found
               "hblob"  the blob of a header block
               "blob"   the blob of a data block: unknown compression, wrong raw size, damaged data
               "block"  the primitive block or a group: not decodable, or nodes which are not dense
               "str"    the string table
               "dense", "way", "rel"   an entity: not decodable, or arrays of different lengths
               "tag"    tags or roles which do not match the entities or are not in the string table
               "open"   correct or not, but nothing is demanded of it (see below)
     blocks, nodes, ways, refs, rels   the numbers of each (meaningful if iss is empty)
   inf is what the compressed ranges of the file inflate to, a sequence of
     [s, e, ok, data, tail]: range, whether the stream is complete and undamaged, the data, whether more follows it.

   "open": a field that should occur once occurs repeatedly, both raw and compressed data, values which do not
   fit in the 32 bits of their field, changesets, bytes after a compressed stream, required fields missing. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* number of bytes of the varint at i, 0 if there is none before e
RECURSIVE VLen(_, _, _, _)
VLen(b, i, e, k) == IF i + k >= e THEN 0
                    ELSE IF b[i + k] < 128 THEN (IF k = 9 /\ b[i + k] > 1 THEN 0 ELSE k + 1)
                    ELSE IF k = 9 THEN 0 ELSE VLen(b, i, e, k + 1)
Pow == <<1, 128, 16384, 2097152, 268435456>>
Big == -1
\* value of a varint of n bytes, Big if it is 2^31 or more
RECURSIVE VSum(_, _, _, _)
VSum(b, i, n, k) == IF k = n THEN 0 ELSE (b[i + k] % 128) * Pow[k + 1] + VSum(b, i, n, k + 1)
VVal(b, i, n) == IF n <= 4 THEN VSum(b, i, n, 0)
                 ELSE IF b[i + 4] % 128 >= 8 \/ (\E k \in 5..(n - 1) : b[i + k] % 128 > 0) THEN Big
                 ELSE VSum(b, i, 5, 0)

\* packed varints in [i, e)
RECURSIVE PackedAcc(_, _, _, _)
PackedAcc(b, i, e, acc) == IF i >= e THEN [ok |-> TRUE, v |-> acc]
                           ELSE LET n == VLen(b, i, e, 0) IN
                                IF n = 0 THEN [ok |-> FALSE, v |-> acc]
                                ELSE PackedAcc(b, i + n, e, Append(acc, VVal(b, i, n)))
Packed(b, i, e) == PackedAcc(b, i, e, <<>>)

\* fields of a message in [i, e): <<key, value or start, end>>; kv and kb: the keys of number and of bytes fields known
RECURSIVE FieldsAcc(_, _, _, _, _, _)
FieldsAcc(b, i, e, kv, kb, acc) ==
  IF i >= e THEN [ok |-> TRUE, f |-> acc]
  ELSE LET n == VLen(b, i, e, 0) IN
       IF n = 0 THEN [ok |-> FALSE, f |-> <<>>]
       ELSE LET key == VVal(b, i, n)
                j == i + n
                m == VLen(b, j, e, 0)
            IN IF (key \notin kv /\ key \notin kb) \/ m = 0 THEN [ok |-> FALSE, f |-> <<>>]
               ELSE LET v == VVal(b, j, m) IN
                    IF key \in kv THEN FieldsAcc(b, j + m, e, kv, kb, Append(acc, <<key, v, 0>>))
                    ELSE IF v = Big \/ v > e - (j + m) THEN [ok |-> FALSE, f |-> <<>>]
                    ELSE FieldsAcc(b, j + m + v, e, kv, kb, Append(acc, <<key, j + m, j + m + v>>))
Fields(b, i, e, kv, kb) == FieldsAcc(b, i, e, kv, kb, <<>>)

Key(num) == num * 8          \* a number
KeyB(num) == num * 8 + 2     \* bytes
Those(f, key) == SelectSeq(f, LAMBDA x : x[1] = key)
Has(f, key) == \E i \in DOMAIN f : f[i][1] = key
Twice(f, keys) == \E key \in keys : Len(Those(f, key)) > 1
\* the last one, an empty range if there is none
One(f, key) == IF Has(f, key) THEN Those(f, key)[Len(Those(f, key))] ELSE <<key, 1, 1>>
List(b, f, key) == Packed(b, One(f, key)[2], One(f, key)[3])

None == [iss |-> {}, nodes |-> 0, ways |-> 0, refs |-> 0, rels |-> 0]
Wrong(what) == [None EXCEPT !.iss = {what}]
Join(x, y) == [iss |-> x.iss \cup y.iss, nodes |-> x.nodes + y.nodes, ways |-> x.ways + y.ways,
               refs |-> x.refs + y.refs, rels |-> x.rels + y.rels]
If(c, what) == IF c THEN {what} ELSE {}

\* every index is in a string table of n strings
Known(seqs, n) == UNION {If(\E i \in DOMAIN s : s[i] = Big, "open") \cup If(\E i \in DOMAIN s : s[i] >= n, "tag") : s \in seqs}

\* tags of dense nodes: key, value, key, value, ..., 0 for each node: <<nodes finished, inside a node, expects a value, indexes>>
KvStep(st, x) == IF st[3] THEN <<st[1], TRUE, FALSE, Append(st[4], x)>>
                 ELSE IF x = 0 THEN <<st[1] + 1, FALSE, FALSE, st[4]>>
                 ELSE <<st[1], TRUE, TRUE, Append(st[4], x)>>
KvIssues(kv, nodes, n) ==
  IF kv = <<>> THEN {}
  ELSE IF nodes = 0 \/ (\E i \in DOMAIN kv : kv[i] = Big) THEN {"open"}
  ELSE LET st == FoldLeft(KvStep, <<0, FALSE, FALSE, <<>>>>, kv)
       IN If(st[1] # nodes \/ st[2], "tag") \cup Known({st[4]}, n)

Dense(b, x, n) ==
  LET p == Fields(b, x[2], x[3], {}, {KeyB(1), KeyB(5), KeyB(8), KeyB(9), KeyB(10)})
      id == List(b, p.f, KeyB(1))
      lat == List(b, p.f, KeyB(8))
      lon == List(b, p.f, KeyB(9))
      kv == List(b, p.f, KeyB(10))
  IN IF ~p.ok THEN Wrong("dense")
     ELSE IF Twice(p.f, {KeyB(1), KeyB(5), KeyB(8), KeyB(9), KeyB(10)}) THEN Wrong("open")
     ELSE IF ~id.ok \/ ~lat.ok \/ ~lon.ok \/ ~kv.ok THEN Wrong("dense")
     ELSE [None EXCEPT !.nodes = Len(id.v),
             !.iss = If(Len(id.v) # Len(lat.v) \/ Len(id.v) # Len(lon.v), "dense") \cup KvIssues(kv.v, Len(id.v), n)]

Way(b, x, n) ==
  LET p == Fields(b, x[2], x[3], {Key(1)}, {KeyB(2), KeyB(3), KeyB(4), KeyB(8)})
      ks == List(b, p.f, KeyB(2))
      vs == List(b, p.f, KeyB(3))
      rs == List(b, p.f, KeyB(8))
  IN IF ~p.ok THEN Wrong("way")
     ELSE IF Twice(p.f, {Key(1), KeyB(2), KeyB(3), KeyB(4), KeyB(8)}) THEN Wrong("open")
     ELSE IF ~ks.ok \/ ~vs.ok \/ ~rs.ok THEN Wrong("way")
     ELSE [None EXCEPT !.ways = 1, !.refs = Len(rs.v),
             !.iss = If(~Has(p.f, Key(1)), "open") \cup If(Len(ks.v) # Len(vs.v), "way") \cup Known({ks.v, vs.v}, n)]

Rel(b, x, n) ==
  LET keys == {KeyB(2), KeyB(3), KeyB(4), KeyB(8), KeyB(9), KeyB(10)}
      p == Fields(b, x[2], x[3], {Key(1)}, keys)
      ks == List(b, p.f, KeyB(2))
      vs == List(b, p.f, KeyB(3))
      ro == List(b, p.f, KeyB(8))
      me == List(b, p.f, KeyB(9))
      ty == List(b, p.f, KeyB(10))
  IN IF ~p.ok THEN Wrong("rel")
     ELSE IF Twice(p.f, keys \cup {Key(1)}) THEN Wrong("open")
     ELSE IF ~ks.ok \/ ~vs.ok \/ ~ro.ok \/ ~me.ok \/ ~ty.ok THEN Wrong("rel")
     ELSE [None EXCEPT !.rels = 1,
             !.iss = If(~Has(p.f, Key(1)), "open")
                     \cup If(Len(ks.v) # Len(vs.v) \/ Len(ro.v) # Len(me.v) \/ Len(ty.v) # Len(me.v), "rel")
                     \cup Known({ks.v, vs.v, ro.v}, n)]

Group(b, x, n) ==
  LET p == Fields(b, x[2], x[3], {}, {KeyB(2), KeyB(3), KeyB(4), KeyB(5)})
  IN IF ~p.ok THEN Wrong("block")
     ELSE FoldLeft(LAMBDA a, y : Join(a, CASE y[1] = KeyB(2) -> (IF Twice(p.f, {KeyB(2)}) THEN Wrong("open") ELSE Dense(b, y, n))
                                           [] y[1] = KeyB(3) -> Way(b, y, n)
                                           [] y[1] = KeyB(4) -> Rel(b, y, n) [] OTHER -> Wrong("open")),
                   None, p.f)

PrimBlock(b, i, e) ==
  LET p == Fields(b, i, e, {Key(17), Key(18), Key(19), Key(20)}, {KeyB(1), KeyB(2)})
      st == Fields(b, One(p.f, KeyB(1))[2], One(p.f, KeyB(1))[3], {}, {KeyB(1)})
  IN IF ~p.ok THEN Wrong("block")
     ELSE IF Twice(p.f, {Key(17), Key(18), Key(19), Key(20), KeyB(1)}) THEN Wrong("open")
     ELSE FoldLeft(LAMBDA a, y : Join(a, Group(b, y, Len(st.f))),
                   [None EXCEPT !.iss = If(~st.ok, "str")], Those(p.f, KeyB(2)))

\* the blob in [i, e): what is wrong with it, and the data it holds
Blob(b, i, e, inf) ==
  LET p == Fields(b, i, e, {Key(2)}, {KeyB(1), KeyB(3)})
      raw == One(p.f, KeyB(1))
      z == One(p.f, KeyB(3))
      size == One(p.f, Key(2))[2]
      them == SelectSeq(inf, LAMBDA x : x.s = z[2] /\ x.e = z[3])
      in == them[1]
      no == [iss |-> {}, b |-> <<>>, i |-> 1, e |-> 1]
  IN IF ~p.ok THEN [no EXCEPT !.iss = {"blob"}]
     ELSE IF Twice(p.f, {Key(2), KeyB(1), KeyB(3)}) \/ (Has(p.f, KeyB(1)) /\ Has(p.f, KeyB(3))) THEN [no EXCEPT !.iss = {"open"}]
     ELSE IF Has(p.f, KeyB(1)) THEN [iss |-> If(Has(p.f, Key(2)) /\ size # raw[3] - raw[2], "open"), b |-> b, i |-> raw[2], e |-> raw[3]]
     ELSE IF ~Has(p.f, KeyB(3)) THEN [no EXCEPT !.iss = {"blob"}]
     ELSE IF ~Assert(Len(them) = 1, <<"no data given for", z>>) THEN no
     ELSE IF ~in.ok \/ ~Has(p.f, Key(2)) THEN [no EXCEPT !.iss = {"blob"}]
     ELSE IF size = Big THEN [no EXCEPT !.iss = {"open"}]
     ELSE IF size # Len(in.data) THEN [no EXCEPT !.iss = {"blob"}]
     ELSE [iss |-> If(in.tail, "open"), b |-> in.data, i |-> 1, e |-> Len(in.data) + 1]

Data(b, i, e, inf) == LET x == Blob(b, i, e, inf)
                          y == PrimBlock(x.b, x.i, x.e)
                      IN IF x.iss \subseteq {"open"} THEN [y EXCEPT !.iss = y.iss \cup x.iss] ELSE [None EXCEPT !.iss = x.iss]
Header(b, i, e, inf) == LET x == Blob(b, i, e, inf).iss
                        IN [None EXCEPT !.iss = {IF w = "blob" THEN "hblob" ELSE w : w \in x}]

OSMHeader == <<79, 83, 77, 72, 101, 97, 100, 101, 114>>
OSMData == <<79, 83, 77, 68, 97, 116, 97>>

RECURSIVE Frames(_, _, _, _, _)
Frames(b, inf, at, blocks, acc) ==
  IF at > Len(b) THEN [acc |-> acc, blocks |-> blocks]
  ELSE LET bad == [acc |-> Join(acc, Wrong("frame")), blocks |-> blocks]
           open == [acc |-> Join(acc, Wrong("open")), blocks |-> blocks]
       IN IF at + 4 > Len(b) + 1 THEN bad
          ELSE IF b[at] > 0 \/ b[at + 1] > 127 THEN bad
          ELSE LET hs == b[at + 1] * 65536 + b[at + 2] * 256 + b[at + 3]
                   h == at + 4
                   p == Fields(b, h, h + hs, {Key(3)}, {KeyB(1)})
               IN IF h + hs > Len(b) + 1 THEN bad
                  ELSE IF ~p.ok THEN bad
                  ELSE IF Twice(p.f, {Key(3), KeyB(1)}) THEN open
                  ELSE LET ty == SubSeq(b, One(p.f, KeyB(1))[2], One(p.f, KeyB(1))[3] - 1)
                           ds == IF Has(p.f, Key(3)) THEN One(p.f, Key(3))[2] ELSE 0
                           s == h + hs
                       IN IF ty # OSMHeader /\ ty # OSMData THEN bad
                          ELSE IF ds = Big THEN open
                          ELSE IF ds > Len(b) + 1 - s THEN bad
                          ELSE Frames(b, inf, s + ds, blocks + 1,
                                      Join(Join(acc, IF ty = OSMData THEN Data(b, s, s + ds, inf) ELSE Header(b, s, s + ds, inf)),
                                           IF Has(p.f, Key(3)) THEN None ELSE Wrong("open")))

Verdict(b, inf) == LET x == Frames(b, inf, 1, 0, IF b = <<>> THEN Wrong("open") ELSE None)
                   IN [iss |-> x.acc.iss, blocks |-> x.blocks, nodes |-> x.acc.nodes, ways |-> x.acc.ways,
                       refs |-> x.acc.refs, rels |-> x.acc.rels]

(* what each tool reads, so that it cannot be correct if that is wrong *)
Reads == [blockcount |-> {"frame"},
          decompress |-> {"frame", "blob", "hblob"},
          entitycount |-> {"frame", "blob", "block", "dense", "way", "rel"},
          entityfind |-> {"frame", "blob", "block", "str", "dense", "way", "rel", "tag"},
          tagfilter |-> {"frame", "blob", "block", "str", "dense", "way", "rel", "tag"},
          nodeindex |-> {"frame", "blob", "block", "dense"},
          rewritenodes |-> {"frame", "blob", "block", "way"},
          wayindex |-> {"frame", "blob", "block", "way"},
          relindex |-> {"frame", "blob", "block", "str", "rel"}]

(* nodes and relations which are not written are not read by tagfilter either, but the whole block is decoded *)
MustReject(v, tool) == v.iss \cap Reads[tool] # {}
MustAccept(v, tool) == \/ tool = "blockcount" /\ v.iss \cap {"frame", "open"} = {}
                       \/ tool = "decompress" /\ v.iss \cap {"frame", "open", "blob", "hblob"} = {}
                       \/ tool \in {"entitycount", "entityfind"} /\ v.iss = {}
Counts(v) == <<v.blocks, v.nodes, v.ways, v.refs, v.rels>>
=============================================================================
