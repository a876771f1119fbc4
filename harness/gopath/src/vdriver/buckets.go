package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"strconv"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// cases reads a table of cases computed by the specification and calls f with
// those of this shard.
func cases(f func(i int, raw json.RawMessage)) {
	fl, err := os.Open(*fIn)
	if err != nil {
		fatal(err)
	}
	defer fl.Close()
	sc := bufio.NewScanner(fl)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	i := 0
	for sc.Scan() {
		if i%*fShards == *fShard {
			f(i, append(json.RawMessage(nil), sc.Bytes()...))
			count("cases", 1)
		}
		i++
	}
}

func dec(m []int) float64 {
	f, err := strconv.ParseFloat(fmt.Sprintf("%de%d", m[0], m[1]), 64)
	if err != nil {
		fatal(err)
	}
	return f
}

// exactly: the decimal number is a float, so that no rounding can be excused.
func exactly(m []int) bool {
	r, ok := new(big.Rat).SetString(fmt.Sprintf("%de%d", m[0], m[1]))
	if !ok {
		fatal("rat", m)
	}
	_, ex := r.Float64()
	return ex
}

type bucketCase struct {
	C struct {
		Ctor                            string
		Count                           int
		Start, Scale, Inc, Lower, Upper []int
		Ends                            [][]int
	}
	Ok   bool
	Ends [][]int
	Cs   []int
}

func bucketRun(i int, raw json.RawMessage) {
	var c bucketCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	var b *tricorder.Bucketer
	bad := func(what string, detail interface{}) { mismatch([]string{"C15"}, what, detail, raw) }
	var ends []float64
	p := catch(func() {
		switch c.C.Ctor {
		case "exp":
			b = tricorder.NewExponentialBucketer(c.C.Count, dec(c.C.Start), dec(c.C.Scale))
		case "lin":
			b = tricorder.NewLinearBucketer(c.C.Count, dec(c.C.Start), dec(c.C.Inc))
		case "geo":
			b = tricorder.NewGeometricBucketer(dec(c.C.Lower), dec(c.C.Upper))
		case "arb":
			for _, e := range c.C.Ends {
				ends = append(ends, dec(e))
			}
			b = tricorder.NewArbitraryBucketer(ends...)
		default:
			fatal(c.C.Ctor)
		}
	})
	if (p == nil) != c.Ok {
		bad("the constructor's arguments", fmt.Sprintf("panic %v, specification says valid: %v", p, c.Ok))
		return
	}
	if p != nil {
		return
	}
	// bucketers are immutable
	for k := range ends {
		ends[k] = -12345
	}
	// rounding of the arguments and of each step is excused only when the
	// arguments are no floats themselves
	exact := c.C.Ctor == "arb" || c.C.Ctor == "geo"
	if c.C.Ctor == "exp" {
		exact = exactly(c.C.Start) && exactly(c.C.Scale)
	}
	if c.C.Ctor == "lin" {
		exact = exactly(c.C.Start) && exactly(c.C.Inc)
	}
	ds := []anyDist{newAnyDist(b, "c"), newAnyDist(b, "n"), newAnyDist(b, "c")}
	path := fmt.Sprintf("/buck/%d", i)
	defer tricorder.UnregisterPath("/buck")
	for k, d := range ds {
		if err := tricorder.RegisterMetric(fmt.Sprintf("%s/%d", path, k), d.metric(), units.None, "d"); err != nil {
			fatal(err)
		}
	}
	// the distributions share a bucketer, nothing else
	for k := range ds {
		ob, err := readDist(fmt.Sprintf("%s/%d", path, k), distIfaces[(i+k)%len(distIfaces)])
		if err != nil {
			bad("reading", err.Error())
			return
		}
		rs := ob.d.Ranges
		if len(rs) != len(c.Ends)+1 {
			bad("number of ranges", fmt.Sprintf("%d, specification says %d", len(rs), len(c.Ends)+1))
			return
		}
		for j, e := range c.Ends {
			x := dec(e)
			tol := 0.0
			if !exact {
				tol = 1e-9 * math.Abs(x)
				if c.C.Ctor == "lin" {
					tol = 1e-9 * (math.Abs(dec(c.C.Start)) + float64(c.C.Count)*dec(c.C.Inc))
				}
			}
			if rs[j].Upper != rs[j+1].Lower || math.Abs(rs[j].Upper-x) > tol {
				bad("endpoint", map[string]interface{}{"number": j, "upper": fmt.Sprint(rs[j].Upper), "next lower": fmt.Sprint(rs[j+1].Lower), "want": fmt.Sprint(x)})
				return
			}
		}
		count("endpoints", len(c.Ends))
		if k == 2 {
			for _, r := range rs {
				if r.Count != 0 || ob.d.Count != 0 {
					bad("a new distribution is not empty", rs)
				}
			}
			continue
		}
		for j := range c.Ends {
			e := rs[j].Upper
			ds[k].add(math.Nextafter(e, math.Inf(-1)))
			if e == 0 && k == 1 {
				// the other zero is the same number
				e = math.Copysign(0, -1)
			}
			ds[k].add(e)
		}
		ob, err = readDist(fmt.Sprintf("%s/%d", path, k), "read")
		if err != nil {
			bad("reading", err.Error())
			return
		}
		var cs []int
		for _, r := range ob.d.Ranges {
			cs = append(cs, int(r.Count))
		}
		if fmt.Sprint(cs) != fmt.Sprint(c.Cs) {
			bad("counts after adding each endpoint and the float just below it", map[string]interface{}{"got": cs, "want": c.Cs})
			return
		}
		count("values", 2*len(c.Ends))
	}
}

// durations added to distributions
func distDurRun(i int, raw json.RawMessage) {
	var c timeCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	if c.K != "dur" {
		return
	}
	bad := func(what string, detail interface{}) { mismatch([]string{"C19"}, what, detail, raw) }
	d := c.duration()
	want, err := strconv.ParseFloat(c.S, 64)
	if err != nil {
		fatal(err)
	}
	for _, kind := range []string{"c", "n"} {
		ad := newAnyDist(tricorder.PowersOfTen, kind)
		path := fmt.Sprintf("/distdur/%d", i)
		if err := tricorder.RegisterMetric(path, ad.metric(), units.Unit(c.U), "d"); err != nil {
			bad("registering", err.Error())
			return
		}
		p := catch(func() { ad.add(d) })
		ok := c.U == "Seconds" || c.U == "Milliseconds"
		if (p == nil) != ok {
			bad("adding a duration", fmt.Sprintf("panic %v with unit %q", p, c.U))
		}
		ob, err := readDist(path, "read")
		if err != nil {
			bad("reading", err.Error())
			return
		}
		close := func(x, y float64) bool {
			return x == y || math.Nextafter(x, y) == y || math.Nextafter(math.Nextafter(x, y), y) == y
		}
		if ok && p == nil {
			if ob.d.Count != 1 || !close(ob.d.Sum, want) || !close(ob.d.Min, want) || !close(ob.d.Max, want) || !close(ob.d.Median, want) {
				bad("a duration in the distribution's unit", map[string]interface{}{"got": ob.d, "want": want})
			}
			if kind == "n" {
				// moved and taken away again
				ad.n.Update(d, time.Duration(0))
				if ad.n.Sum() != 0 {
					bad("updating a duration to zero", ad.n.Sum())
				}
				ad.n.Update(time.Duration(0), d)
				if !close(ad.n.Sum(), want) {
					bad("updating zero to a duration", ad.n.Sum())
				}
				ad.n.Remove(d)
				if ad.n.Sum() != 0 || ad.n.Count() != 0 {
					bad("removing a duration", ad.n.Sum())
				}
			}
		} else if ob.d.Count != 0 || ob.d.Generation != 0 || ob.d.Sum != 0 {
			bad("a refused duration changed the distribution", ob.d)
		}
		tricorder.UnregisterPath(path)
		count("durations", 1)
	}
}

func init() {
	commands["buckets"] = func() { cases(bucketRun) }
	commands["dist-dur"] = func() { cases(distDurRun) }
}
