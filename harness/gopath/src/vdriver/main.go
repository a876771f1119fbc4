// Command vdriver runs the real tricorder code along behaviours of the TLA+
// specifications in /verif/spec, and records behaviours of the real code for
// TLC to judge.
package main

import (
	"flag"
	"os"
)

var (
	fGraph  = flag.String("graph", "", "TLC output with the state graph")
	fOut    = flag.String("out", "", "result file")
	fTrace  = flag.String("trace", "", "trace file to write")
	fIn     = flag.String("in", "", "input file")
	fSeed   = flag.Int64("seed", 1, "")
	fShard  = flag.Int("shard", 0, "")
	fShards = flag.Int("shards", 1, "")
	fExtra  = flag.Int("extra", 0, "random steps after the tour")
	fMaxLen = flag.Int("maxlen", 400, "")
	fBudget = flag.Int("budget", 0, "maximum number of tour steps, 0 = all")
	fN      = flag.Int("n", 100, "number of histories")
	fMode   = flag.String("mode", "", "")
)

var commands = map[string]func(){}

var onStart = func() {}

func main() {
	onStart()
	cmd := os.Args[1]
	// The code under test sees the flag package; keep ours out of its way.
	fs := flag.CommandLine
	fs.Parse(os.Args[2:])
	flag.CommandLine = flag.NewFlagSet("app", flag.ContinueOnError)
	outPath = *fOut
	f := commands[cmd]
	if f == nil {
		fatal("unknown command", cmd)
	}
	startWatchdog()
	f()
	finish(true)
}
