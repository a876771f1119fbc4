package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

var c24 = []string{"C24"}

func num(n int64) []int64 {
	if n < 0 {
		return []int64{-1, 0}
	}
	return []int64{n / 1e9, n % 1e9}
}

func openFiles() int64 {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		fatal(err)
	}
	return int64(len(l)) // with the one just used
}

// figures of the operating system and the runtime
func figures(start time.Time) rec {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		fatal(err)
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	tv := func(t syscall.Timeval) []int64 { return num(int64(t.Sec)*1e9 + int64(t.Usec)*1e3) }
	return rec{
		"cpu/user": tv(u.Utime), "cpu/sys": tv(u.Stime),
		"memory/max-resident-set-size": num(u.Maxrss * 1024), "memory/shared": num(u.Ixrss * 1024), "memory/unshared-data": num(u.Idrss * 1024), "memory/unshared-stack": num(u.Isrss * 1024),
		"memory/soft-page-fault": num(u.Minflt), "memory/hard-page-fault": num(u.Majflt), "memory/swaps": num(u.Nswap),
		"io/input": num(u.Inblock), "io/output": num(u.Oublock), "ipc/sent": num(u.Msgsnd), "ipc/received": num(u.Msgrcv), "signals/received": num(u.Nsignals),
		"scheduler/voluntary-switches": num(u.Nvcsw), "scheduler/involuntary-switches": num(u.Nivcsw),
		"memory/total": num(int64(m.Sys - m.HeapReleased)), "go/num-goroutines": num(int64(runtime.NumGoroutine())), "io/num-open-file-descriptors": num(openFiles()),
		"go/version": "s" + runtime.Version(), "name": "s" + os.Args[0], "args": "s" + strings.Join(os.Args[1:], "|"), "start-time": num(start.UnixNano()),
	}
}

var procTexts = map[string]*goKind{}

func init() {
	for _, p := range []string{"go/version", "name", "args"} {
		procTexts[p] = kindNamed("string")
	}
	for _, p := range []string{"cpu/user", "cpu/sys"} {
		procTexts[p] = kindNamed("duration")
	}
	procTexts["start-time"] = kindNamed("time")
	for _, p := range strings.Fields("memory/max-resident-set-size memory/shared memory/unshared-data memory/unshared-stack memory/soft-page-fault memory/hard-page-fault memory/swaps io/input io/output ipc/sent ipc/received signals/received scheduler/voluntary-switches scheduler/involuntary-switches go/num-goroutines io/num-open-file-descriptors") {
		procTexts[p] = kindNamed("int64")
	}
	procTexts["memory/total"] = kindNamed("uint64")
}

// value in the terms of the specification
func procValue(o *metObs) interface{} {
	if len(o.Vals) != 1 {
		return "not one value"
	}
	v := o.Vals[0]
	var n, s int64
	switch {
	case o.Kind == types.String:
		return v
	case o.Kind == types.GoTime:
		if k, _ := fmt.Sscanf(v, "t%d.%d", &s, &n); k == 2 {
			return num(s*1e9 + n)
		}
	default:
		if k, _ := fmt.Sscanf(strings.TrimPrefix(v, "d"), "%d", &n); k == 1 {
			return num(n)
		}
	}
	return []int64{-1, 0}
}

// procSample makes one request between two looks at the figures.
func procSample(ifc, pick int, t0, t1 time.Time) rec {
	known := map[string]*mreg{}
	names := []string{}
	for p, k := range procTexts {
		u := units.None
		if k.kind == types.GoDuration {
			u = units.Second
		}
		known["/proc/"+p] = &mreg{o: &mobj{w: "var", k: k}, path: "/proc/" + p, unit: u}
		names = append(names, p)
	}
	ifs := []string{"read", "rpc-list", "json-list", "text", "read", "rpc-get", "json-get", "text"}
	x := ifc % len(ifs)
	one, q := x >= 4, ""
	if one {
		sortedNames(names)
		q = names[pick%len(names)]
	}
	var l []*metObs
	var err error
	before := figures(t0)
	if one {
		var o *metObs
		o, err = getMetric("/proc/"+q, ifs[x], known["/proc/"+q])
		if err == nil {
			if o.Path == "" {
				o.Path = "/proc/" + q
			}
			l = []*metObs{o}
		}
	} else {
		l, err = listMetrics("/proc", ifs[x], known)
	}
	after := figures(t1)
	e := rec{"i": ifs[x], "q": q, "before": before, "after": after, "err": "", "es": []rec{}}
	if err != nil {
		e["err"] = err.Error()
		return e
	}
	es := []rec{}
	for _, o := range l {
		es = append(es, rec{"p": strings.TrimPrefix(o.Path, "/proc/"), "m": o.meta, "u": o.Unit, "x": procValue(o)})
	}
	e["es"] = es
	return e
}

// unsteady: some gauge is not what it was before and after.
func unsteady(e rec) bool {
	for _, m := range e["es"].([]rec) {
		p := m["p"].(string)
		b, a := fmt.Sprint(e["before"].(rec)[p]), fmt.Sprint(e["after"].(rec)[p])
		if p == "memory/total" || p == "go/num-goroutines" || p == "io/num-open-file-descriptors" {
			if x := fmt.Sprint(m["x"]); x != a || x != b {
				return true
			}
		}
	}
	return false
}

func sortedNames(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

var procSink []byte

// procWork makes the figures move, each of them in some of its variants.
func procWork(rng *rand.Rand, dir string, st *procState) {
	switch rng.Intn(9) {
	case 0: // user time
		x := 0
		for t := time.Now(); time.Since(t) < time.Duration(5+rng.Intn(20))*time.Millisecond; {
			for i := 0; i < 1000; i++ {
				x += i * x
			}
		}
		procSink = append(procSink[:0], byte(x))
	case 1: // system time
		f, err := os.Open("/dev/zero")
		if err != nil {
			return
		}
		b := make([]byte, 1<<20)
		for t := time.Now(); time.Since(t) < time.Duration(5+rng.Intn(20))*time.Millisecond; {
			f.Read(b)
		}
		f.Close()
	case 2: // page faults and memory
		b := make([]byte, 200<<20)
		for i := 0; i < len(b); i += 4096 {
			b[i] = 1
		}
		procSink = b
	case 3: // and giving it back
		procSink = nil
		debug.FreeOSMemory()
	case 4: // goroutines
		for n := rng.Intn(20); n >= 0; n-- {
			go func() { <-st.stop }()
		}
	case 5:
		close(st.stop)
		st.stop = make(chan bool)
		time.Sleep(2 * time.Millisecond)
	case 6: // files
		n := rng.Intn(10)
		if rng.Intn(4) == 0 {
			n = 100 + rng.Intn(1000)
		}
		for ; n >= 0; n-- {
			if f, err := os.Open(os.DevNull); err == nil {
				st.files = append(st.files, f)
			}
		}
	case 7:
		for _, f := range st.files {
			f.Close()
		}
		st.files = nil
	case 8: // blocks, switches
		if f, err := os.Create(filepath.Join(dir, "f")); err == nil {
			f.Write(make([]byte, 1<<18))
			f.Sync()
			f.Close()
		}
		for i := 0; i < 5; i++ {
			time.Sleep(time.Microsecond)
			runtime.Gosched()
		}
	}
}

type procState struct {
	stop  chan bool
	files []*os.File
}

func init() {
	started := time.Time{}
	commands["process-child"] = func() {
		t1 := started
		var t0n int64
		if _, err := fmt.Sscan(os.Getenv("VERIF_T0"), &t0n); err != nil {
			fatal(err)
		}
		rng := newRand(*fSeed, "process")
		st := &procState{stop: make(chan bool)}
		ev := []rec{}
		for i := 0; i < *fN; i++ {
			procWork(rng, *fIn, st)
			// gauges may change for a moment: the runtime has goroutines of
			// its own and gives memory back when it likes
			ifc, pick := rng.Intn(1<<20), rng.Intn(1<<20)
			e := procSample(ifc, pick, time.Unix(0, t0n), t1)
			for k := 0; k < 12 && unsteady(e); k++ {
				time.Sleep(time.Millisecond)
				e = procSample(ifc, pick, time.Unix(0, t0n), t1)
			}
			ev = append(ev, e)
		}
		b, err := json.Marshal(rec{"ev": ev})
		if err != nil {
			fatal(err)
		}
		if err := os.WriteFile(filepath.Join(*fIn, "out"), b, 0644); err != nil {
			fatal(err)
		}
	}
	onStart = func() { started = time.Now() }
	commands["process"] = func() {
		tr := newTrace()
		defer tr.close()
		self, err := os.Executable()
		if err != nil {
			fatal(err)
		}
		for i := 0; i < *fN; i++ {
			rng := newRand((*fSeed*1000003+int64(i))*64+int64(*fShard), "process")
			dir, err := os.MkdirTemp("", "vproc")
			if err != nil {
				fatal(err)
			}
			name := []string{self, "some name", "prog", "a/b<c>", "x|y", "./prog", "../p/./prog.exe", "", "-sh", "/usr//bin/prog "}[rng.Intn(10)]
			args := []string{name, "process-child", "-out", filepath.Join(dir, "res"), "-in", dir, "-seed", fmt.Sprint(rng.Intn(1 << 30)), "-n", "14", "--"}
			nargs := rng.Intn(4)
			if rng.Intn(4) == 0 {
				nargs = []int{10, 33, 70, 140, 300, 1100}[rng.Intn(6)]
			}
			for j := nargs; j > 0; j-- {
				args = append(args, []string{"", "a", "b c", "-x=1", "<&>", "日本", "q'", "tab\t", "--password=x", "a|b", " x ", strings.Repeat("long", 30)}[rng.Intn(12)])
			}
			cmd := exec.Cmd{Path: self, Args: args, Stderr: os.Stderr}
			cmd.Env = append(os.Environ(), fmt.Sprint("VERIF_T0=", time.Now().UnixNano()))
			if err := cmd.Run(); err != nil {
				fatal("child:", err)
			}
			b, err := os.ReadFile(filepath.Join(dir, "out"))
			if err != nil {
				fatal(err)
			}
			os.RemoveAll(dir)
			tr.put(json.RawMessage(b))
			count("histories", 1)
		}
	}
	_ = tricorder.ErrNotFound
}
