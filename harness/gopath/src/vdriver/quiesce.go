package main

import (
	"bytes"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// goid returns the number of the current goroutine.
func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

var lastStack string
var stackBuf = make([]byte, 1<<20)

// States in which a goroutine stays unless another one wakes it.
var blockedStates = []string{
	"chan receive", "chan send", "select", "sync.", "IO wait",
	"finalizer wait", "cleanup wait",
}

// atRest reports whether every goroutine besides the caller is blocked.
func atRest() bool {
	for {
		n := runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			lastStack = string(stackBuf[:n])
			return restIn(lastStack)
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
}

func restIn(s string) bool {
	first := true
	for len(s) > 0 {
		i := strings.Index(s, "goroutine ")
		if i < 0 {
			break
		}
		if i > 0 && s[i-1] != '\n' {
			s = s[i+10:]
			continue
		}
		s = s[i:]
		e := strings.IndexByte(s, '\n')
		if e < 0 {
			e = len(s)
		}
		line := s[:e]
		s = s[e:]
		a, b := strings.IndexByte(line, '['), strings.LastIndexByte(line, ']')
		if a < 0 || b < a {
			continue
		}
		if first {
			first = false // the caller
			continue
		}
		st := line[a+1 : b]
		ok := false
		for _, p := range blockedStates {
			if strings.HasPrefix(st, p) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// quiesce waits until nothing can happen without the caller. False: some
// goroutine kept being runnable or sleeping for long.
func quiesce() bool {
	t := time.Now()
	for i := 0; ; i++ {
		if i < 3 {
			runtime.Gosched()
		}
		if atRest() {
			return true
		}
		if i > 20 {
			time.Sleep(50 * time.Microsecond)
		}
		if time.Since(t) > 20*time.Second {
			return false
		}
	}
}
