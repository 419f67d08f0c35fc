package main

import (
	"github.com/gdamore/tcell/views"

	dec "github.com/squizzling/osmindex/cmd/decompress/decompressor"
	decs "github.com/squizzling/osmindex/cmd/decompress/decompressor/state"
	decw "github.com/squizzling/osmindex/cmd/decompress/decompressor/widget"
	ni "github.com/squizzling/osmindex/cmd/nodeindex/indexer"
	nis "github.com/squizzling/osmindex/cmd/nodeindex/indexer/state"
	niw "github.com/squizzling/osmindex/cmd/nodeindex/indexer/widget"
	ri "github.com/squizzling/osmindex/cmd/relindex/relindexerinit"
	ris "github.com/squizzling/osmindex/cmd/relindex/relindexerinit/state"
	riw "github.com/squizzling/osmindex/cmd/relindex/relindexerinit/widget"
	rw "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
	rws "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/state"
	rww "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/widget"
	tf "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer"
	tfs "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer/state"
	tfw "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer/widget"
	wi "github.com/squizzling/osmindex/cmd/wayindex/wayindexer"
	wis "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/state"
	wiw "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/widget"
	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/ui/widget"
)

func newProvider(tool string) trackable {
	switch tool {
	case "decompress":
		return &dec.Decompressor{}
	case "nodeindex":
		return &ni.NodeIndexer{}
	case "wayindex":
		return &wi.WayIndexer{}
	case "relindex":
		return &ri.RelIndexerInitializer{}
	case "rewritenodes":
		return &rw.NodeRewriter{}
	case "tagfilter":
		return &tf.TagFilterer{}
	}
	panic(tool)
}

// newTool returns the display of a tool and its worker function
func newTool(tool string) (*box, pbf.WorkFunc) {
	switch tool {
	case "decompress":
		p := &dec.Decompressor{}
		return &box{widget.NewWidgetCmd(p, decw.NewWidgetStateWorker, decw.NewWidgetStateWriter)}, p.Worker
	case "nodeindex":
		p := &ni.NodeIndexer{}
		return &box{widget.NewWidgetCmd(p, niw.NewWidgetStateWorker, niw.NewWidgetStateWriter)}, p.Worker
	case "wayindex":
		p := &wi.WayIndexer{}
		return &box{widget.NewWidgetCmd(p, wiw.NewWidgetStateWorker, wiw.NewWidgetStateWriter)}, p.Worker(1)
	case "relindex":
		p := &ri.RelIndexerInitializer{}
		return &box{widget.NewWidgetCmd(p, riw.NewWidgetStateWorker, riw.NewWidgetStateWriter)}, p.Worker()
	case "rewritenodes":
		p := &rw.NodeRewriter{}
		return &box{widget.NewWidgetCmd(p, rww.NewWidgetStateWorker, rww.NewWidgetStateWriter)}, p.Worker(nil, false)
	case "tagfilter":
		p := &tf.TagFilterer{}
		return &box{widget.NewWidgetCmd(p, tfw.NewWidgetStateWorker, tfw.NewWidgetStateWriter)}, p.Worker()
	}
	panic(tool)
}

type line struct {
	widget views.Widget
	ops    map[string]func(uint64)
}

type setter interface{ SetCurrentState(uint64) }

func states(s setter, extra map[string]func(uint64), names map[string]uint64) map[string]func(uint64) {
	ops := map[string]func(uint64){}
	for n, v := range names {
		v := v
		ops[n] = func(uint64) { s.SetCurrentState(v) }
	}
	for n, f := range extra {
		ops[n] = f
	}
	return ops
}

type fm = map[string]func(uint64)
type sm = map[string]uint64

// newLine returns a fresh line and the operations on its state; the names are those of StateLine.tla
func newLine(name string) *line {
	switch name {
	case "decompress.worker":
		s := &decs.Worker{}
		return &line{decw.NewWidgetStateWorker(s), states(s, fm{"decoding": s.SetDecodingBlob},
			sm{"waiting": decs.WorkerReceivingBlock, "decompressing": decs.WorkerDecompressingBlob, "encoding": decs.WorkerEncodingBlob, "sending": decs.WorkerSendingBlock})}
	case "decompress.writer":
		s := &decs.Writer{}
		return &line{decw.NewWidgetStateWriter(s), states(s, fm{"writing": s.SetWritingBlock}, sm{"waiting": decs.WriterReceivingBlock})}
	case "nodeindex.worker":
		s := &nis.Worker{}
		return &line{niw.NewWidgetStateWorker(s), states(s, fm{"decoding": s.SetStateDecodeBlock},
			sm{"waiting": nis.WorkerReading, "processing": nis.WorkerProcessing, "sending": nis.WorkerWriting})}
	case "nodeindex.writer":
		s := &nis.Writer{}
		return &line{niw.NewWidgetStateWriter(s), states(s, fm{"index": s.SetStateWritingIndex, "copying": s.SetStateCopyLocations, "advance": s.AdvanceCopy},
			sm{"waiting": nis.WriterReading, "locations": nis.WriterWritingLocations, "finalizing": nis.WriteFinalizing})}
	case "wayindex.worker":
		s := &wis.Worker{}
		return &line{wiw.NewWidgetStateWorker(s), states(s, fm{"decoding": s.SetStateDecodeBlock},
			sm{"waiting": wis.WorkerReading, "processing": wis.WorkerProcessing, "sending": wis.WorkerWriting})}
	case "wayindex.writer":
		s := &wis.Writer{}
		return &line{wiw.NewWidgetStateWriter(s), states(s, fm{"index": s.SetStateWritingIndex, "copying": func(n uint64) { s.SetStateCopyLocations(int64(n)) }, "advance": s.AdvanceCopy},
			sm{"waiting": wis.WriterReading, "locations": wis.WriterWritingLocations, "finalizing": wis.WriteFinalizing})}
	case "relindex.worker":
		s := &ris.Worker{}
		return &line{riw.NewWidgetStateWorker(s), states(s, fm{"decoding": s.SetStateDecodeBlock},
			sm{"waiting": ris.WorkerReading, "processing": ris.WorkerProcessing, "sending": ris.WorkerWriting})}
	case "relindex.writer":
		s := &ris.Writer{}
		return &line{riw.NewWidgetStateWriter(s), states(s, fm{"index": s.SetStateWriting}, sm{"waiting": ris.WriterReading})}
	case "rewritenodes.worker":
		s := &rws.Worker{}
		return &line{rww.NewWidgetStateWorker(s), states(s, fm{"decoding": s.SetStateDecoding, "working": func(n uint64) { s.SetStateWorking(int(n)) },
			"next": func(n uint64) {
				for ; n > 0; n-- {
					s.NextWay()
				}
			}},
			sm{"waiting": rws.WorkerReading, "sending": rws.WorkerWriting})}
	case "rewritenodes.writer":
		s := &rws.Writer{}
		return &line{rww.NewWidgetStateWriter(s), states(s, fm{"writing": s.SetStateWriting}, sm{"waiting": rws.WriterReading})}
	case "tagfilter.worker":
		s := &tfs.Worker{}
		return &line{tfw.NewWidgetStateWorker(s), states(s, fm{"decoding": s.SetStateDecoding, "keep": s.AddKept, "drop": s.AddDropped},
			sm{"waiting": tfs.WorkerReading, "processing": tfs.WorkerWorking, "encoding": tfs.WorkerEncoding, "sending": tfs.WorkerWriting})}
	case "tagfilter.writer":
		s := &tfs.Writer{}
		return &line{tfw.NewWidgetStateWriter(s), states(s, fm{"writing": s.SetStateWriting, "filler": func(n uint64) {
			for ; n > 0; n-- {
				s.AddFiller()
			}
		}},
			sm{"waiting": tfs.WriterReading})}
	}
	panic(name)
}
