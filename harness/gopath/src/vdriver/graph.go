package main

import (
	"bufio"
	"encoding/json"
	"math/rand"
	"os"
	"strconv"
)

// Graph is the state graph TLC printed: one line per transition.
type Graph struct {
	Init   []int
	States []json.RawMessage
	Out    [][]int // edge indexes by state
	Edges  []Edge
	Info   map[int]json.RawMessage // what else the specification says about a state
}

// Edge is one transition of the specification.
type Edge struct {
	S, T int
	Act  json.RawMessage
}

func loadGraph(file string) *Graph {
	f, err := os.Open(file)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	g := &Graph{Info: map[int]json.RawMessage{}}
	ids := map[string]int{}
	id := func(raw json.RawMessage) int {
		if i, ok := ids[string(raw)]; ok {
			return i
		}
		i := len(g.States)
		ids[string(raw)] = i
		g.States = append(g.States, raw)
		g.Out = append(g.Out, nil)
		return i
	}
	seen := map[string]bool{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		line := sc.Text()
		if len(line) < 3 || line[0] != '"' || line[1] != 'E' && line[1] != 'I' && line[1] != 'S' {
			continue
		}
		s, err := strconv.Unquote(line)
		if err != nil {
			fatal("bad TLC line", line, err)
		}
		if s[0] == 'I' {
			g.Init = append(g.Init, id(json.RawMessage(s[1:])))
			continue
		}
		if s[0] == 'S' {
			var i struct{ St json.RawMessage }
			if err := json.Unmarshal([]byte(s[1:]), &i); err != nil {
				fatal("bad TLC json", line, err)
			}
			g.Info[id(i.St)] = json.RawMessage(s[1:])
			continue
		}
		var e struct{ S, A, T json.RawMessage }
		if err := json.Unmarshal([]byte(s[1:]), &e); err != nil {
			fatal("bad TLC json", line, err)
		}
		si, ti := id(e.S), id(e.T)
		key := strconv.Itoa(si) + ">" + strconv.Itoa(ti) + string(e.A)
		if seen[key] {
			continue
		}
		seen[key] = true
		g.Out[si] = append(g.Out[si], len(g.Edges))
		g.Edges = append(g.Edges, Edge{si, ti, e.A})
	}
	if len(g.Init) == 0 || len(g.Edges) == 0 {
		fatal("empty graph")
	}
	return g
}

// SUT is the code under test seen from a specification.
type SUT interface {
	// Reset brings the code into the initial state of the specification.
	Reset(init int, rng *rand.Rand) bool
	// Step performs act and compares with the state reached. False: they
	// differ (and the mismatch was recorded).
	Step(act json.RawMessage, target int, replay func() interface{}) bool
}

// tour walks the graph so that every edge of this shard is replayed, then
// random edges until extra more steps were made. Walks are cut after maxLen.
func tour(g *Graph, sut SUT, rng *rand.Rand, shard, shards, extra, maxLen int, budget int) {
	need := make([]int, len(g.States)) // uncovered edges leaving a state
	uncovered := make([]bool, len(g.Edges))
	left := 0
	for i, e := range g.Edges {
		if i%shards == shard {
			uncovered[i] = true
			need[e.S]++
			left++
		}
	}
	cur := -1
	var walk []json.RawMessage
	dead := map[int]bool{} // initial states that lead to no uncovered edge
	start := func() bool {
		cur = g.Init[rng.Intn(len(g.Init))]
		for k := 0; dead[cur] && k < 1000 && left > 0; k++ {
			cur = g.Init[rng.Intn(len(g.Init))]
		}
		walk = walk[:0]
		count("walks", 1)
		if !sut.Reset(cur, rng) {
			return false
		}
		return true
	}
	replay := func() interface{} {
		return append([]json.RawMessage(nil), walk...)
	}
	fails := 0
	do := func(ei int) bool {
		e := g.Edges[ei]
		walk = append(walk, e.Act)
		if uncovered[ei] {
			uncovered[ei] = false
			need[e.S]--
			left--
			count("edges_covered", 1)
		}
		count("steps", 1)
		ok := sut.Step(e.Act, e.T, replay)
		cur = e.T
		if !ok {
			fails++
			return false
		}
		if len(walk) == 12 {
			sample(replay())
		}
		return true
	}
	// path to the nearest state with an uncovered edge
	nearest := func() []int {
		prev := make(map[int]int)
		prev[cur] = -1
		q := []int{cur}
		for len(q) > 0 {
			s := q[0]
			q = q[1:]
			if need[s] > 0 {
				var p []int
				for s != cur {
					ei := prev[s]
					p = append([]int{ei}, p...)
					s = g.Edges[ei].S
				}
				return p
			}
			for _, ei := range g.Out[s] {
				t := g.Edges[ei].T
				if _, ok := prev[t]; !ok {
					prev[t] = ei
					q = append(q, t)
				}
			}
		}
		return nil
	}
	if !start() {
		return
	}
	steps := 0
	for left > 0 && (budget == 0 || steps < budget) {
		if fails > 20 {
			return
		}
		if len(walk) > maxLen {
			if !start() {
				return
			}
		}
		if need[cur] == 0 {
			p := nearest()
			if p == nil {
				// unreachable from here: start over; from the initial
				// state everything is reachable
				if len(walk) == 0 {
					dead[cur] = true
					if len(dead) == len(g.Init) {
						break
					}
				}
				if !start() {
					return
				}
				continue
			}
			okp := true
			for _, ei := range p {
				steps++
				if !do(ei) {
					okp = false
					break
				}
			}
			if !okp {
				if !start() {
					return
				}
			}
			continue
		}
		// pick an uncovered edge at random among those leaving cur
		k := rng.Intn(need[cur])
		for _, ei := range g.Out[cur] {
			if uncovered[ei] {
				if k == 0 {
					steps++
					if !do(ei) {
						if !start() {
							return
						}
					}
					break
				}
				k--
			}
		}
	}
	count("edges_left", left)
	for i := 0; i < extra; i++ {
		if fails > 20 {
			return
		}
		if len(g.Out[cur]) == 0 || len(walk) > maxLen {
			if !start() {
				return
			}
		}
		out := g.Out[cur]
		if len(out) == 0 {
			return
		}
		if !do(out[rng.Intn(len(out))]) {
			if !start() {
				return
			}
		}
	}
}
