----------------------------- MODULE TagFilter -----------------------------
(* cmd/tagfilter.  Keys are strings; the lists are the tool's contract.  A file is a
   sequence of blocks, a block a sequence of entities <<kind, id, keys>> (kind 1 node,
   2 way, 3 relation).  Workers map each block to a block or to a filler; the writer
   drops the fillers. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

DeleteTags == {"note", "source", "source_ref", "attribution", "comment", "fixme", "created_by", "odbl", "odbl:note",
  "project:eurosha_2012", "ref:UrbIS", "accuracy:meters", "sub_sea:type", "waterway:type", "statscan:rbuid",
  "ref:ruian:addr", "ref:ruian", "building:ruian:type", "dibavod:id", "uir_adr:ADRESA_KOD", "gst:feat_id",
  "maaamet:ETAK", "ref:FR:FANTOIR", "3dshapes:ggmodelk", "AND_nosr_r", "OPPDATERIN", "addr:city:simc",
  "addr:street:sym_ul", "building:usage:pl", "building:use:pl", "teryt:simc", "raba:id", "dcgis:gis_id",
  "nycdoitt:bin", "chicago:building_id", "lojic:bgnum", "massgis:way_id", "import", "import_uuid", "OBJTYPE",
  "SK53_bulk:load"}
DeletePrefixes == {"note:", "source:", "CLC:", "geobase:", "canvec:", "osak:", "kms:", "ngbe:", "it:fvg:", "KSJ2:",
  "yh:", "LINZ2OSM:", "linz2osm:", "LINZ:", "WroclawGIS:", "naptan:", "tiger:", "gnis:", "NHD:", "nhd:", "mvdgis:"}

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
KeepKey(s) == s \notin DeleteTags /\ \A p \in DeletePrefixes : ~StartsWith(s, p)

CONSTANTS Keys,        \* keys which occur
          MaxEntities, MaxBlocks, MaxTags

KeySets == {s \in SUBSET Keys : Cardinality(s) <= MaxTags}
Entities == {<<t, s>> : t \in 1..3, s \in KeySets}
Blocks == UNION {[1..n -> Entities] : n \in 0..MaxEntities}

Drop(b) == \A i \in 1..Len(b) : b[i][1] = 1 /\ {k \in b[i][2] : KeepKey(k)} = {}
\* a block after filtering: nodes, then ways, then relations, each in their order
OfKind(b, t) == SelectSeq(b, LAMBDA e : e[1] = t)
KeptNodes(b) == SelectSeq([i \in 1..Len(OfKind(b, 1)) |-> <<1, {k \in OfKind(b, 1)[i][2] : KeepKey(k)}>>], LAMBDA e : e[2] # {})
FilterBlock(b) == KeptNodes(b) \o OfKind(b, 2) \o OfKind(b, 3)

VARIABLES file, at, done, out, filler
vars == <<file, at, done, out, filler>>

Init == file \in UNION {[1..n -> Blocks] : n \in 0..MaxBlocks} /\ at = 1 /\ done = FALSE /\ out = <<>> /\ filler = 0
Keep == /\ at <= Len(file) /\ FilterBlock(file[at]) # <<>>
        /\ out' = Append(out, FilterBlock(file[at])) /\ at' = at + 1 /\ UNCHANGED <<file, done, filler>>
Fill == /\ at <= Len(file) /\ FilterBlock(file[at]) = <<>>
        /\ filler' = filler + 1 /\ at' = at + 1 /\ UNCHANGED <<file, done, out>>
Finish == at > Len(file) /\ ~done /\ done' = TRUE /\ UNCHANGED <<file, at, out, filler>>
Next == Keep \/ Fill \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* -------------------------------------------------------------- properties
All(f, t) == FlattenSeq([i \in 1..Len(f) |-> OfKind(f[i], t)])
WaysAndRelationsKept == done => All(out, 2) = All(file, 2) /\ All(out, 3) = All(file, 3)
NodesExact == done => All(out, 1) = SelectSeq([i \in 1..Len(All(file, 1)) |-> <<1, {k \in All(file, 1)[i][2] : KeepKey(k)}>>],
                                              LAMBDA e : e[2] # {})
Idempotent == done => \A i \in 1..Len(out) : FilterBlock(out[i]) = out[i]
DroppedOnlyEmpty == done => Len(out) + filler = Len(file) /\ filler = Cardinality({i \in 1..Len(file) : Drop(file[i])})
Ends == <>done
=============================================================================
