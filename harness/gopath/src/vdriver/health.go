package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/Symantec/tricorder/go/healthserver"
)

type answer struct {
	Code int    `json:"code"`
	Text string `json:"text"`
}

type healthState struct{ Health, Ready answer }

type healthAct struct {
	Op     string
	Arg    string
	Panics bool
}

var healthTexts = []string{
	"database down", "x", "OK ", " OK", "ok", "0", "%s %d", "<b>bad</b>",
	"ünwell \u2603", "line1\nline2", "Not ready", "not ready.",
	strings.Repeat("long ", 500), "\t", "\"quoted\"", "200", "OK\n",
}

type healthSUT struct {
	g     *Graph
	texts map[string]string
	rng   *rand.Rand
	fresh bool
	n     int
}

func (h *healthSUT) conc(s string) string {
	if c, ok := h.texts[s]; ok {
		return c
	}
	return s
}

func httpAnswer(uri string) answer {
	w := httpGet(uri, nil)
	b := w.Body.String()
	if w.Code != 200 {
		b = strings.TrimSuffix(b, "\n")
	}
	return answer{w.Code, b}
}

func (h *healthSUT) observe(want healthState, what string, replay func() interface{}) bool {
	uri := "/healthz"
	got := healthState{httpAnswer(uri), httpAnswer("/readiness")}
	want.Health.Text = h.conc(want.Health.Text)
	want.Ready.Text = h.conc(want.Ready.Text)
	if want.Health.Code == 200 {
		want.Health.Text = "OK"
	}
	if want.Ready.Code == 200 {
		want.Ready.Text = "OK"
	}
	count("observations", 2)
	if got != want {
		mismatch([]string{"C21"}, what, map[string]interface{}{"got": got, "want": want}, replay())
		return false
	}
	return true
}

func (h *healthSUT) Reset(init int, rng *rand.Rand) bool {
	h.rng = rng
	var st healthState
	json.Unmarshal(h.g.States[init], &st)
	h.texts = map[string]string{}
	p := rng.Perm(len(healthTexts))
	for i := 1; i <= 3; i++ {
		h.texts[fmt.Sprintf("s%d", i)] = healthTexts[p[i]]
	}
	if h.fresh {
		h.fresh = false
	} else {
		healthserver.SetHealthy()
		healthserver.SetNotReady("not ready")
	}
	return h.observe(st, "initial state", func() interface{} { return "start of process" })
}

func (h *healthSUT) Step(act json.RawMessage, target int, replay func() interface{}) bool {
	var a healthAct
	var st healthState
	json.Unmarshal(act, &a)
	json.Unmarshal(h.g.States[target], &st)
	guard([]string{"C21"}, a.Op, replay)
	defer unguard()
	arg := h.conc(a.Arg)
	if a.Arg == "" || a.Arg == "OK" {
		arg = a.Arg
	}
	p := catch(func() {
		switch a.Op {
		case "SetHealthy":
			healthserver.SetHealthy()
		case "SetReady":
			healthserver.SetReady()
		case "SetNotHealthy":
			healthserver.SetNotHealthy(arg)
		case "SetNotReady":
			healthserver.SetNotReady(arg)
		default:
			fatal("unknown op", a.Op)
		}
	})
	if (p != nil) != a.Panics {
		mismatch([]string{"C21"}, fmt.Sprintf("%s(%q): panic %v, specification says panics=%v", a.Op, arg, p, a.Panics), nil, replay())
		return false
	}
	return h.observe(st, fmt.Sprintf("answers after %s(%q)", a.Op, arg), replay)
}

func init() {
	commands["health-mbt"] = func() {
		g := loadGraph(*fGraph)
		rng := newRand(*fSeed, fmt.Sprint("health", *fShard))
		tour(g, &healthSUT{g: g, fresh: true}, rng, *fShard, *fShards, *fExtra, *fMaxLen, *fBudget)
	}
}

func init() {
	commands["health-conc"] = func() {
		tw := newTrace()
		rng := newRand(*fSeed, fmt.Sprint("healthconc", *fShard))
		var ys yieldSched
		for n := 0; n < *fN; n++ {
			healthserver.SetHealthy()
			healthserver.SetNotReady("not ready")
			nt := 2 + rng.Intn(3)
			threads := make([][]*cop, nt)
			for t := range threads {
				for k := 0; k < 2+rng.Intn(4); k++ {
					arg := fmt.Sprintf("t%d-%d", t, k)
					var op string
					switch rng.Intn(8) {
					case 0:
						op, arg = "SetHealthy", ""
					case 1:
						op, arg = "SetReady", ""
					case 2:
						op = "SetNotHealthy"
					case 3:
						op = "SetNotReady"
					case 4, 5:
						op = "QHealth"
					default:
						op = "QReady"
					}
					threads[t] = append(threads[t], &cop{rec{"op": op, "arg": arg}, func(r rec) {
						switch r["op"] {
						case "SetHealthy":
							healthserver.SetHealthy()
						case "SetReady":
							healthserver.SetReady()
						case "SetNotHealthy":
							healthserver.SetNotHealthy(r["arg"].(string))
						case "SetNotReady":
							healthserver.SetNotReady(r["arg"].(string))
						case "QHealth":
							a := httpAnswer("/healthz")
							r["code"], r["text"] = a.Code, a.Text
						case "QReady":
							a := httpAnswer("/readiness")
							r["code"], r["text"] = a.Code, a.Text
						}
					}})
				}
			}
			ys.arm(rng)
			ev := runHistory(threads, rng, []string{"C21"}, nil)
			ys.disarm()
			tw.put(rec{"init": rec{"health": "", "ready": "not ready"}, "ev": ev})
			count("histories", 1)
		}
		tw.close()
	}
}
