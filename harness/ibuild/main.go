// Command ibuild builds an index as the tool does, and cancels at an operation on its files.
//
//	VFAULT=N:hook ibuild node|way IN OUT WORKERS SHIFT WAITMS
package main

import (
	"context"
	"fmt"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/squizzling/osmindex/cmd/nodeindex/indexer"
	"github.com/squizzling/osmindex/cmd/wayindex/wayindexer"
	"github.com/squizzling/osmindex/internal/pbf"
)

func num(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

func main() {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	workers, shift, wait := num(os.Args[4]), num(os.Args[5]), num(os.Args[6])
	syscall.VfHook = func() {
		cancel()
		time.Sleep(time.Duration(wait) * time.Millisecond)
	}
	if os.Args[1] == "node" {
		ni := &indexer.NodeIndexer{}
		pbf.ProcessFileAsync(ctx, os.Args[2], ni.Worker, ni.Output(os.Args[3]), workers).Wait()
	} else {
		wi := &wayindexer.WayIndexer{}
		pbf.ProcessFileAsync(ctx, os.Args[2], wi.Worker(shift), wi.Output(os.Args[3], shift), workers).Wait()
	}
	fmt.Println("finished")
}
