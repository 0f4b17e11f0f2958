// Command driver steps the real zeropb code through behaviours of the
// specification and records traces of its own workloads. It decides nothing.
package main

import (
	"bufio"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strings"
)

func main() {
	mode := flag.String("mode", "trace", "trace or replay")
	work := flag.String("work", "", "workload")
	n := flag.Int("n", 10, "traces")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "trace file")
	rel := flag.String("rel", "all", "clauses that count")
	only := flag.Int("only", -1, "record only this trace")
	sync := flag.String("sync", "", "file for the call in progress")
	typ := flag.String("type", "", "message type to replay on")
	in := flag.String("in", "", "behaviours to replay")
	modes := flag.Int("modes", 3, "ways to prepare the message")
	keep := flag.Int("keep", 200, "deviating behaviours to record")
	reused := flag.Bool("reused", false, "only what deviates on used messages but not on fresh ones")
	use := flag.String("types", "", "use only these message types")
	flag.StringVar(&raceLog, "racelog", "", "")
	flag.Parse()
	if *use != "" {
		onlyTypes = strings.Split(*use, ",")
	}

	f, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r := &Rec{f: f, w: bufio.NewWriterSize(f, 1<<20), only: *only, ops: map[string]int{}, rel: strings.Split(*rel, ",")}
	lastRec = r
	if *sync != "" {
		if syncFile, err = os.Create(*sync); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	go watchdog()
	switch *mode {
	case "trace":
		w := workloads[*work]
		if w == nil {
			fmt.Fprintln(os.Stderr, "no workload", *work)
			os.Exit(3)
		}
		w(r, G{rand.New(rand.NewSource(*seed))}, *n)
	case "replay":
		replay(r, types[*typ], *in, *modes, *keep, *reused)
	case "allocs":
		allocReplay(r, types[*typ], *in, *keep)
	case "memory":
		memReplay(r, types[*typ], *in, *keep)
	case "pairs":
		pairReplay(r, types[*typ], *in, *keep)
	case "readers":
		readReplay(r, types[*typ], *in, *keep, logSize)
	}
	r.w.Flush()
	r.f.Close()
	r.stats(false)
}
