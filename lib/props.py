"""Source of properties.jsonl and MANIFEST.json (python3 lib/props.py rewrites both).
A property appears once its check exists."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", observe=None, state=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors=dict({"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
                                **({"observe_at": observe} if observe else {}), **({"state": state} if state else {}))),
              technique, level, note))


BOUND = "Exhaustive only within the stated bounds of the specification; bound to the code by the executions recorded in the evidence file. "

p("C01", "Every blob is processed exactly once and its result written in file order",
  "When an .osm.pbf file is processed in parallel, each blob of the file is handed to the processing step exactly once with the bytes and the position it has in the file. "
  "The write step sees exactly one result per blob, in the order of the blobs in the file, whatever the number of workers and however they are scheduled. "
  "At most the configured number of processing steps run at once, and write steps never overlap.",
  ["schedules", "inputs", "configurations"], "every schedule of reader, workers, reorderer and writer; every number of workers >= 1; every number of blobs",
  "There is no test of the pipeline at all; its order depends on goroutine schedules which a handful of runs never samples.",
  ["internal/pbf/process.go", "internal/pbf/reorder.go"],
  [("reorder stage releases results by index", "internal/pbf/reorder.go"), ("reader/worker/writer goroutines joined by channels", "internal/pbf/process.go")],
  "TLA+ specification of the pipeline (refinement checked by TLC), TLC-chosen schedules replayed through gates and free runs, traces validated by TLC",
  BOUND + "Trusts the gate driver's event order (logged under one lock).")

p("C02", "Processing always terminates; cancelling leaves a gap-free prefix",
  "Processing of a well-formed file always ends and reports completion once, for any number of workers and any moment of cancellation, and completion is reported only after every processing and write step has returned. "
  "If it is cancelled, the results written are exactly those of the first k blobs in order, for some k, with no gap or duplicate. "
  "The input's bytes stay readable for as long as any step can still look at them.",
  ["schedules", "crash_points", "configurations"], "every schedule and every point at which the context is cancelled",
  "No test cancels the pipeline; a deadlock or a gap needs a particular interleaving of cancellation with the stages.",
  ["internal/pbf/process.go", "internal/pbf/reorder.go"],
  [("select on ctx.Done in every stage and ordered channel closing", "internal/pbf/process.go")],
  "TLA+ specification with cancellation and fairness (safety, liveness, refinement) plus replay of TLC-chosen cancellation points on the real pipeline",
  BOUND + "A hang is judged by a generous timeout (minutes against milliseconds).")

p("C03", "The node index returns the exact location of every node and nothing else",
  "Looking up the id of any node of the input in the built node index returns the location of that node, for every kind of block layout, granularity and offset. "
  "Looking up any other non-negative id reports that it is not present. "
  "The answer does not depend on the hint given with the lookup, nor on the lookups before it.",
  ["inputs", "configurations", "histories"], "all id sequences that increase, all block divisions, all coordinates, all hints and orders of lookups",
  "The repository's tests look up a handful of ids in hand-made indexes; gaps, block boundaries and hints have unboundedly many combinations.",
  ["cmd/nodeindex/indexer/nodeindexer_worker.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "internal/nodeindex/nodesubindex.go", "internal/nodeindex/nodeindex.go", "internal/nodeindex/index_element.go"],
  [("ranges of ids with one-id gaps filled by an empty location", "cmd/nodeindex/indexer/nodeindexer_worker.go"), ("search from a hint", "internal/nodeindex/nodesubindex.go")],
  "TLA+ model of the index build and lookup (TLC), files enumerated by TLC and generated, every recorded lookup of the real index validated by TLC against the contract",
  BOUND + "Ids in the input strictly increase and are not negative, as ENCODING.md requires.")

p("C04", "The passes over a node index cover every node exactly once",
  "For any number of passes, the sub-indexes of a node index together contain each indexed node exactly once: its id is found, with its location, in one pass and reported absent in all the others. "
  "The numbers of locations in the passes differ by no more than one index element requires, so that each pass is about an equal share.",
  ["inputs", "configurations"], "all indexes and all numbers of passes, also more passes than index elements",
  "Tests use one or two pass counts on tiny indexes; rounding at the cut points depends on both numbers.",
  ["internal/nodeindex/nodeindex.go", "internal/nodeindex/nodesubindex.go"],
  [("cut points of the passes", "internal/nodeindex/nodeindex.go")],
  "TLA+ model of the division into passes (TLC), recorded lookups in every pass of real indexes validated by TLC",
  BOUND)

p("C05", "Rewriting replaces way node ids by locations and changes nothing else",
  "In the output of rewritenodes every node reference of every way whose node is in the index is replaced by that node's location value, references of unindexed nodes are kept, and the order and number of references stay the same. "
  "Everything else the file says - the nodes with coordinates and tags, the ids and tags of ways, relations with members, roles and tags, and the order of all of these - is unchanged. "
  "The result is the same for every memory limit (number of passes) and worker count.",
  ["inputs", "configurations"], "all files, node indexes, memory limits, worker counts",
  "No test runs the rewriter; multi-pass results, empty messages, long ways and string-table reuse need whole files.",
  ["cmd/rewritenodes/rewritenodes.go", "cmd/rewritenodes/rewriter/noderewriter_worker.go", "cmd/rewritenodes/rewriter/noderewriter_writer.go", "internal/t/primitive_block_ways.go", "internal/pb/embed.go"],
  [("per-pass replacement of non-negative refs", "cmd/rewritenodes/rewriter/noderewriter_worker.go"), ("intermediate pass files", "cmd/rewritenodes/rewritenodes.go")],
  "TLA+ model of the multi-pass rewrite (TLC), real runs over enumerated and generated files validated element by element by a TLC trace specification",
  BOUND + "Decoding of outputs by an independent decoder.")

p("C06", "The way index returns every way's locations exactly",
  "Looking up a way of the rewritten input in the built way index returns exactly its sequence of locations, with runs of equal consecutive locations reduced to one, for every alignment. "
  "Looking up any other way id reports that it is absent.",
  ["inputs", "configurations"], "all ways (0 to thousands of locations, repeats, any values), ids, alignments, worker counts",
  "The tests never build a way index from a file.",
  ["cmd/wayindex/wayindexer/wayindexer_worker.go", "cmd/wayindex/wayindexer/wayindexer_writer.go", "internal/wayindex/indexdata.go", "internal/wayindex/subindex.go", "internal/wayindex/wayindex.go"],
  [("zig-zag deltas with 0 as terminator, padded blocks", "cmd/wayindex/wayindexer/wayindexer_worker.go"), ("search and decoding", "internal/wayindex/subindex.go")],
  "TLA+ model of the way index (TLC), recorded lookups in real indexes validated by a TLC trace specification",
  BOUND + "Way ids in the input strictly increase.")

p("C07", "The passes over a way index cover every way exactly once",
  "For any number of passes, each way of a way index is found with its locations in exactly one of the sub-indexes, and reported absent in all others. "
  "Ids that are not in the index are absent from every pass.",
  ["inputs", "configurations"], "all way indexes and numbers of passes, also more passes than ways",
  "No test divides a way index.",
  ["internal/wayindex/wayindex.go", "internal/wayindex/subindex.go"],
  [("cut points of the passes", "internal/wayindex/wayindex.go")],
  "TLA+ model of the division (TLC), recorded lookups in every pass of real way indexes validated by TLC",
  BOUND)

p("C08", "The relation index lists every relation with the locations of its ways",
  "The relation index has one record per relation of the input, in file order: the relation id, the number of its way members, and for each way member in member order the number of its locations and these locations as the way index has them (none if the way is not in the way index). "
  "Node and relation members do not appear. "
  "The result is the same for every number of passes and workers.",
  ["inputs", "configurations"], "all relations (0 to thousands of members of all types), way indexes, passes, workers",
  "No test runs relindex; multi-pass merging and buffer flushing depend on sizes tests never reach.",
  ["cmd/relindex/relindex.go", "cmd/relindex/relindexerinit/relindexer_worker.go", "cmd/relindex/relindexerinit/relindexer_writer.go"],
  [("passes over a file of relation records", "cmd/relindex/relindex.go")],
  "TLA+ model of the multi-pass build (TLC), complete output of real runs validated record by record by a TLC trace specification",
  BOUND)

p("C09", "The tag filter drops exactly the unwanted node tags and nothing else",
  "tagfilter removes from nodes exactly the tags whose key is on the fixed list or starts with a fixed prefix (case sensitive, the key alone decides), then drops exactly the nodes left with no tags; the others keep their id, position (to 1e-7 degrees) and remaining tags. "
  "All ways and relations remain, with all tags, references, members and roles. "
  "A block left with no entities is dropped; the other blocks keep their order, and within a block so do its nodes, its ways and its relations.",
  ["inputs", "configurations"], "all files, tag keys and values, block layouts, coordinate frames, worker counts",
  "No test runs tagfilter.",
  ["cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "cmd/tagfilter/tagfilterer/tagfilterer_writer.go", "internal/t/primitive_block_nodes.go", "internal/t/dense_nodes.go"],
  [("delete lists and re-encoding with a new string table", "cmd/tagfilter/tagfilterer/tagfilterer_worker.go")],
  "TLA+ transcription of the filter relation, every entity of real runs over generated files validated by a TLC trace specification",
  BOUND + "The list of keys and prefixes is a constant of the specification.")

p("C10", "Decompressing keeps every blob's content, type and order",
  "decompress writes one blob per blob of the input, in the same order and of the same type, each stored uncompressed with exactly the uncompressed bytes of the input blob. "
  "This holds for every size of blob, including empty ones, every compression of the input, and every worker count.",
  ["inputs", "configurations"], "all blob sequences, sizes, compressions, worker counts",
  "No test runs decompress.",
  ["cmd/decompress/decompressor/decompressor_worker.go", "cmd/decompress/decompressor/decompressor_writer.go", "internal/t/blob.go", "internal/t/blob_header.go"],
  [("decompression and raw re-encoding", "internal/t/blob.go")],
  "TLA+ specification of the blob map, real outputs validated blob by blob by a TLC trace specification",
  BOUND)

p("C11", "Location values are lossless and always distinguishable from ids",
  "Every position with longitude in [-180, 180] and latitude in [-90, 90] at 1e-7 degree resolution is encoded as a negative 64-bit value, different positions have different values, and decoding returns the same position. "
  "The value interleaves the bits of longitude (even) and latitude (odd, with the top bit set), and is the same whichever tool or code path computes it.",
  ["inputs"], "all positions",
  "The unit tests encode a few constants; 2^64 positions cannot be sampled, and the negative/positive boundary of each coordinate matters.",
  ["internal/morton/morton.go", "internal/t/primitive_block_nodes.go"],
  [("bit interleaving", "internal/morton/morton.go")],
  "TLA+ definition of the bit layout (TLC checks it lossless on a bounded width), bit-level linearity cases and samples of the real code validated by TLC",
  BOUND)

p("C12", "Protobuf encoding and decoding are inverse and lengths exact",
  "Encoding any 32- or 64-bit value, zig-zag value, packed or delta-packed list, byte string or embedded message and decoding it gives back the same value and consumes exactly the bytes written. "
  "The bytes are those of the protobuf wire format: every length written in front of something equals the number of bytes which follow, also at each size where a varint grows, and whatever does not fit the space reserved for its length is refused, never written wrong.",
  ["inputs"], "all values and list lengths, in particular every varint length boundary",
  "The tests use a few constants; every varint length boundary and combination with embedding matters.",
  ["internal/pb/varint.go", "internal/pb/32.go", "internal/pb/64.go", "internal/pb/embed.go", "internal/pb/buffer.go"],
  [("varint readers and writers", "internal/pb/varint.go"), ("embedded messages", "internal/pb/embed.go")],
  "TLA+ definition of the wire format over limb words, cases enumerated by TLC with expected bytes and replayed through the real encoders and decoders",
  BOUND)

p("C13", "A string table gives every distinct string one index and index 0 to \"\"",
  "A string table built from any sequence of strings and tag maps contains the empty string at index 0 and every distinct string which was added exactly once, and nothing else. "
  "The strings used most come first, equally used ones in byte order, so the table depends only on what was added and not on the order. "
  "Every key, value and role of a written block refers to the index at which its string stands in the table of the encoded block; a string which was never added has no index.",
  ["inputs", "histories"], "all sequences of adds and lookups, all sets of entities of a block",
  "The unit tests use a few strings; order, repetition, the empty string, many strings and the interplay with block writing are open.",
  ["internal/t/string_table_builder.go", "internal/t/string_table.go", "internal/t/primitive_block.go"],
  [("map from string to index, assigned when the table is closed", "internal/t/string_table_builder.go")],
  "TLA+ state machine of the builder, all operation sequences up to a bound enumerated by TLC and replayed, longer histories and whole blocks validated by TLC",
  BOUND)

p("C14", "Output bytes do not depend on workers, scheduling or timing",
  "For the same input and settings every tool writes byte-identical output (the counting and finding tools report the same) for every number of workers and in every run, whatever the schedule, the processors available or the content of recycled memory. "
  "Turning lookup timing on or off, or limiting the memory of rewritenodes, does not change the output either.",
  ["schedules", "configurations"], "all worker counts and schedules, with buffers recycled in any order",
  "No test runs a tool twice; differences appear only with particular schedules or buffer reuse.",
  ["internal/pbf/process.go", "internal/pool/bytebuffer.go", "cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "cmd/rewritenodes/rewriter/noderewriter_worker.go"],
  [("per-block processing and ordered writing", "internal/pbf/process.go")],
  "TLA+ pipeline specification with a deterministic worker function (self-composition in TLC), real runs across workers, schedules and pools validated by TLC",
  BOUND)

p("C15", "An index whose build was interrupted is never accepted as complete",
  "If building a node index or a way index is interrupted at any moment - cancelled, killed, or stopped by an error - the file left behind is either rejected when opened or answers every lookup like the completed index. "
  "An earlier index at the same path is not silently mixed with the new one.",
  ["crash_points", "fault_sequences"], "every prefix of the build's effects on the file: cancellation before any blob, kill and write failure at any system call or byte",
  "No test interrupts a build; the order of header, elements and locations matters only at a crash.",
  ["cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/nodeindex/nodeindex.go", "cmd/wayindex/wayindexer/wayindexer_writer.go", "internal/nodeindex/nodeindex.go", "internal/wayindex/wayindex.go"],
  [("header written last", "cmd/nodeindex/indexer/nodeindexer_writer.go"), ("placeholder header", "cmd/wayindex/wayindexer/wayindexer_writer.go")],
  "TLA+ model of the build as a sequence of file effects with a crash between any two (TLC), real builds stopped at enumerated points and the file left judged by a TLC trace specification",
  BOUND + "Process crash, not power loss: what write() accepted is kept.", level="model_checking")

p("C16", "A failed write never goes unnoticed",
  "If any creation, write, seek, read-back or close of an output or intermediate file fails, the tool ends with a non-zero exit status, at whatever point of the output the failure occurs. "
  "When a tool exits with status 0, all of its output has reached the file.",
  ["fault_sequences", "crash_points"], "a failure at every operation and byte offset of every output and intermediate file of every tool; permanent and transient failures, short writes",
  "No test makes a write fail.",
  ["internal/iio/wrappers.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/wayindex/wayindexer/wayindexer_writer.go", "cmd/relindex/relindex.go", "cmd/rewritenodes/rewritenodes.go", "cmd/tagfilter/tagfilterer/tagfilterer_writer.go"],
  [("wrappers which panic on error", "internal/iio/wrappers.go")],
  "TLA+ model of output through intermediate files with failing operations (TLC), a fault at every file operation of the real tools, outcomes validated by a TLC trace specification",
  BOUND + "Failures are injected at the system call layer of the Go standard library. Failure to remove a file does not count.")

p("C17", "The counting and finding tools report exactly what is in the file",
  "entitycount and blockcount report exactly the numbers of nodes, ways, relations and blocks (and the extremes and tag counts they print) of the file. "
  "entityfind reports exactly the entities with the requested id and only these. "
  "None of this depends on the number of workers.",
  ["inputs", "configurations"], "all files, block and group layouts, worker counts",
  "No test runs these tools.",
  ["cmd/entitycount/entitycount.go", "cmd/blockcount/blockcount.go", "cmd/entityfind/entityfind.go"],
  [("per-block counting summed by the writer", "cmd/entitycount/entitycount.go")],
  "TLA+ definition of the counts, real reports over generated files validated by a TLC trace specification",
  BOUND)

p("C18", "The progress display shows the workers that run, with their last state",
  "Once updates have stopped, a refresh of the display shows exactly the running workers, one line each, and every line shows the last state, block and counts that the worker (or writer) published. "
  "While updates go on, a refresh shows every worker which ran throughout it, none which had ended before it began, and none twice; a line which shows a state shows its block and counts as of when that state was set, or later.",
  ["schedules"], "every interleaving of workers starting, ending and publishing with refreshes",
  "The tracker has no test; the order of reading version and list, and of state and values, matters only in a race.",
  ["internal/tracker/worker_tracker.go", "internal/tracker/widget_workers.go", "internal/ui/widget/widget_command.go", "cmd/nodeindex/indexer/state/state_writer.go", "cmd/rewritenodes/rewriter/state/state_worker.go",
   "cmd/tagfilter/tagfilterer/widget/widget_state_worker.go"],
  [("version is read before the list and increased after the change", "internal/tracker/widget_workers.go"), ("values are stored before the state and read after it", "cmd/rewritenodes/rewriter/state/state_worker.go")],
  "TLA+ models of list, lines and display (TLC, every interleaving), TLC-generated schedules run step by step on the real tracker, states and widgets, their histories validated by TLC trace specifications",
  BOUND)

p("C19", "A pooled buffer has one owner at a time and its content does not leak",
  "A buffer is never handed out of the pool while another user still holds it, and no data that is still to be read or written is in a buffer that has been given back. "
  "The buffer obtained has the requested length for every request, and output is the same whatever a recycled buffer contained.",
  ["histories", "schedules", "inputs"], "every history of get and put, with every content of recycled buffers",
  "Recycling depends on the garbage collector and on schedules; the tests cannot force reuse.",
  ["internal/pool/bytebuffer.go", "cmd/rewritenodes/rewriter/noderewriter_worker.go", "cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "cmd/decompress/decompressor/decompressor_worker.go", "internal/t/blob.go"],
  [("pool of byte slices", "internal/pool/bytebuffer.go")],
  "TLA+ model of the pool and its users (TLC), tools run over an adversarial pool which recycles at once and poisons, get/put histories and outputs validated by TLC",
  BOUND)

p("C20", "Files the tools cannot process correctly are rejected, never skipped silently",
  "A tool given an .osm.pbf that is truncated, has an unknown blob type, field or compression, a wrong raw size or checksum, malformed varints, lengths that exceed what encloses them, undense nodes, "
  "arrays of different lengths that belong together or references outside the string table, in a part which the tool reads, ends with a non-zero status rather than silently losing or inventing data; intact files are accepted. "
  "A node index of another version or a missing input is rejected likewise.",
  ["inputs", "fault_sequences"], "every truncation point and every unsupported or malformed construct",
  "The tests decode only well-formed data.",
  ["internal/t/blob.go", "internal/t/blob_header.go", "internal/t/primitive_block.go", "internal/t/primitive_group.go", "internal/pbf/process.go", "internal/pb/buffer.go"],
  [("panics on unknown fields and on short buffers", "internal/pb/buffer.go")],
  "TLA+ acceptor of the wire format deciding accept/reject per mutated file, real outcomes validated by TLC",
  BOUND)

p("C21", "Values beyond the index formats' limits are rejected, not wrapped",
  "A range of nodes, a location offset, a way id or a block offset that does not fit in the bits the index format gives it makes the tool or encoder fail. "
  "Every value that does fit is stored and read back unchanged.",
  ["inputs"], "all values around each field's limit",
  "Tests use small values; wrap-around appears only at 2^24, 2^31, 2^33 and 2^40.",
  ["internal/nodeindex/count_offset.go", "internal/nodeindex/index_element.go", "internal/wayindex/indexdata.go"],
  [("range checks before packing", "internal/nodeindex/count_offset.go"), ("range checks before packing", "internal/wayindex/indexdata.go")],
  "TLA+ definition of the packed words over limbs with boundary cases enumerated by TLC, replayed through the real encoders and tools",
  BOUND)

p("C22", "The dump tools print exactly what is in the index",
  "dumpnodeindex prints every location of the elements of the selected pass and element range exactly once and in order, with the ids, words and positions that are stored, and the search for its id finds just that; selecting a pass or a range prints exactly that part of what the whole dump prints, and the passes together print the whole. "
  "dumpwayindex prints every way with its stored locations, and its search finds each way with these in exactly one of the passes.",
  ["inputs", "configurations"], "all indexes, pass selections and element ranges",
  "No test runs the dump tools.",
  ["cmd/dumpnodeindex/dumpnodeindex.go", "cmd/dumpwayindex/dumpwayindex.go"],
  [("printing loops", "cmd/dumpnodeindex/dumpnodeindex.go")],
  "TLA+ definition of the listing, real dumps validated line by line by a TLC trace specification",
  BOUND)

p("C23", "Tools leave no temporary files and never modify their inputs",
  "After a tool ends successfully, the only files created or changed are the output files it was asked for. "
  "Inputs (the .osm.pbf and the indexes) keep their bytes, also when the tool fails, and existing output files are replaced completely, with nothing of a longer old file left.",
  ["inputs", "configurations", "fault_sequences"], "all tools, numbers of passes, existing files at the output path, failing runs",
  "No test looks at the directory after a run.",
  ["cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/rewritenodes/rewritenodes.go", "cmd/relindex/relindex.go", "internal/iio/wrappers.go"],
  [("removal of intermediate files", "cmd/rewritenodes/rewritenodes.go")],
  "TLA+ model of the directory during each tool (TLC), directory snapshots around real runs validated by a TLC trace specification",
  BOUND)

p("C24", "Progress markup shows the text exactly at every position",
  "A progress bar drawn behind a text displays exactly that text, whatever characters it has, at every progress from empty to full: markup characters of the text are escaped and no character is lost or doubled. "
  "The highlighted part is a prefix as long as the share of the width that is done: empty at none, and never shorter with more progress until all is done.",
  ["inputs"], "all texts, widths and progress values",
  "A few constants at most are tested; escaping interacts with the cut position.",
  ["internal/ui/format.go", "internal/ui/widget/widget_common_line.go", "internal/ui/widget/widget_pass_progress.go"],
  [("escaping and cutting", "internal/ui/format.go")],
  "TLA+ definition of markup rendering, texts and cut points enumerated by TLC and replayed on the real formatter",
  BOUND)

p("C25", "The whole tool chain yields each relation's way geometry",
  "Running nodeindex, rewritenodes, wayindex and relindex one after the other on any .osm.pbf yields for each relation and way member the positions of that way's nodes in order (repeats reduced), just as the original file says them. "
  "Decompressing at any step, filtering tags at any step but before making the node index, rewriting again, and any choice of passes, memory, alignment and workers make no difference to this. "
  "References to nodes which the node index does not have remain ids.",
  ["inputs", "configurations"], "all files and combinations of tools and settings",
  "No test composes tools.",
  ["cmd/nodeindex/nodeindex.go", "cmd/rewritenodes/rewritenodes.go", "cmd/wayindex/wayindex.go", "cmd/relindex/relindex.go", "cmd/tagfilter/tagfilter.go", "cmd/decompress/decompress.go"],
  [("the composition of the tools", "cmd/")],
  "TLA+ composition of the tool specifications (TLC), end-to-end runs over generated planets validated by a TLC trace specification",
  BOUND)


p("C26", "A command line is carried out as it says or refused untouched",
  "Every tool refuses a command line which is wrong - unknown option, missing or ill-formed or out-of-range value (fewer than one worker, pass or MB, a timing factor of 1 or less, negative alignment, interval or sub-index, an output which is an input under any name), missing required option, surplus argument, options which do not belong together - with a message and a failure status, and has not created or changed any file. "
  "A request for help prints the usage, succeeds and touches nothing. Any other command line does exactly what its plainest equivalent does, in whatever order and spelling: the last occurrence of an option wins (a list collects), options left out have their defaults, and the profiles asked for are written whole.",
  ["inputs"], "all tools and command lines",
  "No test runs a tool; whether a wrong value is noticed before or after the output is opened, or not at all, depends on the combination of options.",
  ["internal/system/args.go", "internal/ui/args.go", "cmd/relindex/args.go", "cmd/wayindex/args.go", "cmd/rewritenodes/args.go", "cmd/dumpwayindex/args.go", "cmd/dumpnodeindex/args.go", "cmd/entityfind/args.go", "cmd/nodeindex/args.go"],
  [("parsing and validation of options", "cmd/"), ("system options and profiles", "internal/system/args.go")],
  "TLA+ model of command lines and their processing (TLC), command lines enumerated by TLC run on the real tools, results validated by a TLC trace specification",
  BOUND)


p("C27", "The display changes nothing but the screen, and gives it back",
  "With the display on - any refresh interval, terminal size, change of size, and keys - a tool ends by itself with the same output, status and reports as without it, and then the terminal is as it was before: modes, normal screen, cursor. "
  "While a run stands still, the screen comes to show the lines of the current part of the run and no others: the pass, the file being read, each running worker, the writer. "
  "Ctrl-C, pressed at any moment, ends the run early and cleanly: a prefix of the output, or an index which is not accepted. Where there is no terminal, the tool refuses before touching anything or does its work as without a display.",
  ["inputs", "schedules", "configurations"], "all tools, schedules of display and work, terminals, refresh intervals and key sequences",
  "No test starts a display; deadlocks and lost events depend on the schedule.",
  ["internal/ui/ui.go", "internal/ui/debugui.go", "internal/ui/widget/widget_command.go", "internal/ui/widget/widget_process_state.go", "internal/ui/widget/widget_pass_progress.go",
   "cmd/rewritenodes/rewritenodes.go", "cmd/nodeindex/nodeindex.go", "cmd/wayindex/wayindex.go", "cmd/relindex/relindex.go", "cmd/decompress/decompress.go", "cmd/tagfilter/tagfilter.go"],
  [("start and stop of the display, keys", "internal/ui/ui.go"), ("lines of each pass", "cmd/rewritenodes/rewritenodes.go")],
  "TLA+ model of main thread, event loop, ticker and keys (TLC, with liveness), sessions enumerated by TLC and played on a pty against the real tools stopped at chosen file operations, validated by a TLC trace specification",
  BOUND)

p("C28", "A memory target is kept, and every lookup is counted exactly once",
  "With a memory target of M megabytes rewritenodes works in the fewest passes for which an equal share of the index's locations takes less than M MB, and in one without a target; relindex in as many passes as asked for. "
  "The report at the end tells one run time per pass, and counts each lookup of each pass exactly once, whatever the number of workers and the schedule: in the range of ids of the block's last successful lookup (hitHint; at first the first range of the pass), in another range (hitDefault), "
  "of an id above those of the pass (missDeferred), or of one which no range of the pass has (missDefault). relindex's report has the same sums of hits and the same misses. A reference is looked up until a pass has found it. With timing on, the numbers are the same and at most one time is counted per lookup.",
  ["inputs", "schedules", "configurations"], "all indexes, files, memory targets, pass and worker counts",
  "No test prints a report; lost updates need workers which count at the same moment, and passes need indexes of megabytes.",
  ["internal/nodeindex/nodesubindex.go", "internal/nodeindex/nodeindex.go", "internal/wayindex/subindex.go", "internal/wayindex/wayindex.go",
   "cmd/rewritenodes/rewritenodes.go", "cmd/rewritenodes/rewriter/noderewriter_worker.go", "cmd/relindex/relindex.go"],
  [("passes from the memory target", "cmd/rewritenodes/rewritenodes.go"), ("counters of a lookup", "internal/nodeindex/nodesubindex.go")],
  "TLA+ model of passes, workers, hints and counters (TLC), layouts, targets and references enumerated by TLC and carried out by the real tools, their reports validated by a TLC trace specification",
  BOUND)

p("C29", "An index whose end is missing is refused, never used as a smaller one",
  "If the end of a node or way index is missing - a copy which broke off, at whatever byte - every tool which reads it fails, and leaves nothing where its result would be: no reference or way is silently treated as unknown because its location is not in the file. "
  "This holds for every number of passes and whichever ids are looked up. The whole index is always accepted.",
  ["inputs", "crash_points", "configurations"], "all indexes, every place at which the file may end, all readers and numbers of passes",
  "No test opens an incomplete index; whether it shows depends on where it ends, on the passes and on the ids looked up.",
  ["internal/nodeindex/nodeindex.go", "internal/wayindex/wayindex.go", "internal/pb/64.go", "cmd/rewritenodes/rewritenodes.go", "cmd/relindex/relindex.go",
   "cmd/dumpnodeindex/dumpnodeindex.go", "cmd/dumpwayindex/dumpwayindex.go"],
  [("opening of a node index", "internal/nodeindex/nodeindex.go"), ("opening of a way index", "internal/wayindex/wayindex.go")],
  "TLA+ model of a copy which breaks off and a reader in passes (TLC), cuts enumerated by TLC and made in real indexes read by the real tools, validated by a TLC trace specification",
  BOUND)


def main():
    done = [x for x in P if os.path.exists(os.path.join(V, "checks", x[0]["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, *_ in done:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    for d, *_ in P:
        for fn in d["anchors"]["files"] + [m["where"] for m in d["anchors"]["mechanism"]]:
            if not os.path.exists(os.path.join("/repo", fn)):
                print(d["id"], "no such file", fn)
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
    for d, tech, level, note in done:
        m["checks"].append({"property": d["id"], "quick_cmd": "bin/check %s quick" % d["id"],
                            "thorough_cmd": "bin/check %s thorough" % d["id"], "evidence_file": "evidence/%s.json" % d["id"],
                            "technique": tech, "level": level, "level_note": note})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d of %d properties claimed" % (len(done), len(P)))


if __name__ == "__main__":
    main()
