package main

import (
	"flag"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/idoall/stockindicator/utils/klines"
)

// TRun is a run of spec/Together.tla: what began and ended when, and what the
// calls that ended answered.
type TRun struct {
	Events  []int `json:"events"`
	Got     []int `json:"got"`
	Candles int   `json:"candles"`
}
type TogetherTrace struct {
	Id      int        `json:"id"`
	Kind    string     `json:"kind"`
	P       []P        `json:"p"`
	Ops     [][]string `json:"opnames"`
	Market  Series     `json:"market"`
	Mp      string     `json:"mp"`
	Ans     []Answer   `json:"ans"`
	Alone   [][]int    `json:"alone"`
	Candles int        `json:"candles"`
	Runs    []TRun     `json:"runs"`
}

// runTogether keeps to the scripts: a call runs in a goroutine of its own from
// its beginning to its end.
func runTogether(ks []*Kind, ps []P, s *Series, scripts [][]int, shared bool) *TogetherTrace {
	t := &TogetherTrace{P: ps, Market: *s, Mp: fs(maxAbs(s.O, s.H, s.L, s.C, []float64{1})), Runs: []TRun{}}
	tab, ct := &Table{}, &candleTable{}
	var names []string
	ops := make([][]Op, len(ks))
	for i, k := range ks {
		names = append(names, k.Name)
		obj, e := build(k, ps[i], s.Item())
		if e != "" {
			panic("cannot build " + k.Name + ": " + e)
		}
		if f, ok := obj.(*functions); ok {
			ops[i] = f.ops()
		} else {
			ops[i] = opsOf(obj)
		}
		var on []string
		var alone []int
		for _, op := range ops[i] {
			on = append(on, op.Name)
			f, _ := build(k, ps[i], s.Item())
			alone = append(alone, tab.id(call(op, f, s)))
		}
		t.Ops, t.Alone = append(t.Ops, on), append(t.Alone, alone)
	}
	t.Kind = strings.Join(names, "+")
	it := s.Item()
	t.Candles = ct.id(it, it.Candles, nil)
	type running struct {
		op   int
		done chan Answer
	}
	for _, sc := range scripts {
		items := make([]*klines.Item, len(ks))
		one := s.Item()
		ptrs := append([]*klines.Candle{}, one.Candles...)
		for i := range items {
			if items[i] = one; !shared {
				items[i] = s.Item()
			}
		}
		objs := make([]any, len(ks))
		calls := make([]running, len(ks))
		run := TRun{Events: []int{}, Got: []int{}}
		for _, e := range sc {
			got := answerOf()
			if e > 0 {
				sl, op := e/10-1, e%10
				if op > 1 { // fewer operations than the model has
					op = 1 + (op-1)%len(ops[sl])
				}
				c := running{op, make(chan Answer, 1)}
				calls[sl] = c
				e = 10*(sl+1) + op
				go func() {
					if op == 0 {
						obj, err := build(ks[sl], ps[sl], items[sl])
						objs[sl] = obj
						if err != "" {
							c.done <- failure(err)
							return
						}
						c.done <- answerOf()
						return
					}
					c.done <- call(ops[sl][op-1], objs[sl], s)
				}()
			} else {
				got = <-calls[-e-1].done
			}
			run.Events = append(run.Events, e)
			run.Got = append(run.Got, tab.id(got))
		}
		run.Candles = ct.id(one, ptrs, nil)
		t.Runs = append(t.Runs, run)
	}
	t.Ans = tab.All
	return t
}

// candleReader derives from a list of candles what can be derived.
type candleReader struct{ it *klines.Item }

func (c *candleReader) Calculation()             {}
func (c *candleReader) GetData() *klines.OHLC    { return c.it.GetOHLC() }
func (c *candleReader) HeikinAshi() *klines.Item { return c.it.ToHeikinAshi() }
func (c *candleReader) Typical() (a, b, d []float64) {
	return c.it.HL2(), c.it.HLC3(), c.it.OHLC4()
}
func (c *candleReader) Inside() *klines.Item {
	if len(c.it.Candles) == 0 {
		return nil
	}
	return c.it.RemoveOutsideRangeCopy(time.Unix(c.it.Candles[0].TimeUnix, 0), time.Unix(c.it.Candles[len(c.it.Candles)/2].TimeUnix, 0))
}

// functions are some of the functions of lists, over the same lists.
type functions struct {
	ks []*Kind
	ps []P
}

func (f *functions) ops() []Op {
	ops := []Op{{"nothing", func(any, *Series) Answer { return answerOf() }}}
	for i, k := range f.ks {
		k, p := k, f.ps[i]
		ops = append(ops, Op{k.Name, func(_ any, s *Series) Answer {
			t := newTrace(0, k.Name, p, s)
			k.Run(t, p, s)
			return answerOf(columns(t.Out), columns(t.Get), t.Rt, t.Side, t.Pure, t.Err)
		}})
	}
	return ops
}

func columns(m map[string][]string) (r []string) {
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r = append(append(r, n), m[n]...)
	}
	return
}

// others are kinds of slots that are no indicators.
func others(r *rand.Rand) []*Kind {
	var all []*Kind
	for _, k := range kinds {
		if k.New == nil && k.Run != nil && k.MinLen == 0 {
			all = append(all, k)
		}
	}
	none := func(*rand.Rand) P { return P{"_": 0} }
	r2 := []*Kind{{Name: "candles", Params: none, New: func(it *klines.Item, p P) any { return &candleReader{it} }}}
	for len(all) > 0 {
		f := &functions{}
		name := "functions"
		for len(f.ks) < 4 && len(all) > 0 {
			i := r.Intn(len(all))
			f.ks, f.ps = append(f.ks, all[i]), append(f.ps, all[i].Params(r))
			name += " " + all[i].Name
			all = append(all[:i], all[i+1:]...)
		}
		r2 = append(r2, &Kind{Name: name, Params: none, New: func(it *klines.Item, p P) any { return f }})
	}
	return r2
}

func init() {
	// together: C29, calls that overlap
	modes["together"] = func(args []string) {
		fl := flag.NewFlagSet("together", flag.ExitOnError)
		seed := fl.Int64("seed", 1, "")
		scripts := fl.String("scripts", "", "")
		slots := fl.Int("slots", 2, "")
		count := fl.Int("count", 200, "combinations of indicators")
		each := fl.Int("each", 20, "scripts per combination")
		out := fl.String("out", "", "")
		fl.Parse(args)
		all := readLines[[]int](*scripts)
		r := rng(*seed, fmt.Sprint("together", *slots))
		ks := append(indicators(""), others(r)...)
		at := r.Intn(len(all))
		var jobs []func() *TogetherTrace
		for c := 0; c < *count; c++ {
			combo, ps := make([]*Kind, *slots), make([]P, *slots)
			for i := range combo {
				combo[i] = ks[r.Intn(len(ks))]
				if i == 0 {
					combo[i] = ks[c%len(ks)]
				}
				if i == 1 && c/len(ks)%2 == 0 {
					combo[i] = combo[0] // two of the same kind
				}
				ps[i] = combo[i].Params(r)
				if _, has := ps[i]["ohlc"]; has {
					ps[i]["ohlc"] = false
				}
			}
			s := genSeries(r, 20+r.Intn(60), seriesClasses[r.Intn(len(seriesClasses))])
			var mine [][]int
			for j := 0; j < *each && j < len(all); j++ {
				mine = append(mine, all[at%len(all)])
				at++
			}
			shared := r.Intn(4) != 0
			jobs = append(jobs, func() *TogetherTrace { return runTogether(combo, ps, s, mine, shared) })
		}
		s := newSink(*out)
		n := 0
		for i, t := range parallel(jobs) {
			t.Id = i
			n += len(t.Runs)
			s.put(t)
		}
		s.close()
		fmt.Println(n)
	}
}
