package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"

	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

func readLines[T any](path string) (r []T) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		var x T
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			panic(err)
		}
		r = append(r, x)
	}
	return
}

// indicators are the kinds that are built over a candle list.
func indicators(only string) (r []*Kind) {
	for _, k := range kinds {
		if k.New != nil && (only == "" || only == k.Name) {
			r = append(r, k)
		}
	}
	return
}

// Pub is one publication, see spec/TracePublisher.tla.
type Pub struct {
	N    int      `json:"n"`
	P    P        `json:"p"`
	Recs []int    `json:"recs"`
	At   []int    `json:"at"`
	Lens []int    `json:"lens"`
	Side []string `json:"side"`
	Err  string   `json:"err"`
}
type PubTrace struct {
	Id      int      `json:"id"`
	Kind    string   `json:"kind"`
	P       P        `json:"p"`
	Mp      string   `json:"mp"`
	Sided   bool     `json:"sided"`
	Growing bool     `json:"growing"`
	Recs    []Answer `json:"recs"`
	Runs    []Pub    `json:"runs"`
}

// publish runs one indicator over one market.  other is the candle list of
// the second time scale, for the strategy that takes one.
func publish(k *Kind, p P, s, other *Series, def bool, tab *Table, content bool) Pub {
	r := Pub{N: s.Len(), P: p, Recs: []int{}, At: []int{}, Lens: []int{}, Side: []string{}}
	if len(p) == 0 {
		r.P = P{"_": 0}
	}
	r.Err = guarded(callLimit, func() {
		it := s.Item()
		var obj any
		if def {
			obj = k.NewDef(it)
		} else {
			obj = k.New(it, p)
		}
		data := getData(obj)
		index := map[int64]int{}
		for i, t := range s.T {
			index[t] = i + 1
		}
		rt, _, sides := records(data)
		if len(rt) != data.Len() {
			panic("records without a time")
		}
		for i := 0; i < data.Len(); i++ {
			r.At = append(r.At, index[rt[i]])
			if content {
				r.Recs = append(r.Recs, tab.id(answerOf(data.Index(i).Interface())))
			} else {
				r.Recs = append(r.Recs, 0)
			}
		}
		for _, op := range opsOf(obj)[1:] {
			// every list a getter returns has one entry per candle
			if op.Name == "GetData" || strings.HasPrefix(op.Name, "AnalysisSide") {
				continue
			}
			m := reflect.ValueOf(obj).MethodByName(strings.Split(op.Name, "(")[0])
			args := []reflect.Value{}
			if m.Type().NumIn() == 1 {
				args = append(args, reflect.ValueOf(2))
			}
			for _, v := range m.Call(args) {
				if v.Kind() == reflect.Slice {
					r.Lens = append(r.Lens, v.Len())
				}
			}
		}
		switch {
		case k.Name == "Camarilla":
			// the rule compares with candles of another time scale
			r.Side = sideStrings(camarillaSignals(obj, other))
		case hasSides(obj):
			r.Side = sideStrings(obj.(utils.IStrategy).AnalysisSide().Data)
		case k.DataSide:
			r.Side = sideStrings(sides)
		}
	})
	return r
}

func sidedKind(k *Kind) bool {
	if k.DataSide || k.Side != nil {
		return true
	}
	ok := false
	guarded(callLimit, func() { ok = hasSides(k.New((&Series{}).Item(), k.Params(rand.New(rand.NewSource(1))))) })
	return ok
}

// shaped is a market made of two stretches.
func shaped(r *rand.Rand, first, a, b, n int) *Series {
	s := &Series{Class: "shape", Ex: true}
	t := int64(1600000000) + int64(r.Intn(1000000))
	px := float64(64 + r.Intn(64))
	for i := 0; i < n; i++ {
		sh := a
		if first > 0 && i >= first {
			sh = b
		}
		o, h, l, c, v := px, px, px, px, float64(1+r.Intn(500))
		switch sh {
		case 1: // flat: the same candle with wicks
			h, l = px+1, px-1
		case 2: // one price
		case 3:
			c = px + 2
			h, l = c+1, o-0.5
		case 4:
			c = px - 0.5
			h, l = o+0.25, c-0.25
		case 5:
			c = px + 3
			if i%2 == 1 {
				c = px - 3
			}
			h, l = max(o, c)+1, min(o, c)-1
		case 6:
			c, v = px+float64(r.Intn(3)-1), 0
			h, l = max(o, c)+0.5, min(o, c)-0.5
		}
		s.add(o, h, l, c, v, t)
		px = max(c, 8)
		t += 60 * int64(1+r.Intn(3))
	}
	return s
}

func defaults(k *Kind, r *rand.Rand) P {
	p := P{}
	for a, b := range k.Default {
		p[a] = b
	}
	if _, has := k.Params(r)["ohlc"]; has {
		p["ohlc"] = false
	}
	return p
}

// RunPlan of one SessionTrace.
type SRun struct {
	Ops     []int `json:"ops"`
	Got     []int `json:"got"`
	Candles []int `json:"candles"`
}
type SList struct {
	Slots   []int    `json:"slots"`
	Names   []string `json:"names"`
	Got     []int    `json:"got"`
	Candles int      `json:"candles"`
}
type SessionTrace struct {
	Id      int        `json:"id"`
	Kind    string     `json:"kind"`
	P       []P        `json:"p"`
	Ops     [][]string `json:"opnames"`
	Market  Series     `json:"market"`
	Mp      string     `json:"mp"`
	Ans     []Answer   `json:"ans"`
	Fresh   [][][]int  `json:"fresh"`
	Candles []int      `json:"candles"`
	Runs    []SRun     `json:"runs"`
	Lists   []SList    `json:"lists"`
	Names   []string   `json:"names"`
	Sides   []int      `json:"sides"`
}

// candleTable numbers the states of the candle list (and of the shared column view).
type candleTable struct{ ids map[string]int }

func (c *candleTable) id(it *klines.Item, ptrs []*klines.Candle, o *klines.OHLC) int {
	var b strings.Builder
	for i, x := range it.Candles {
		if x == nil {
			b.WriteString("nil;")
			continue
		}
		own := i < len(ptrs) && ptrs[i] == x
		y := *x
		fmt.Fprintf(&b, "%v %x;", own, fmt.Sprintf("%+v", y))
	}
	fmt.Fprintf(&b, "%v %v %v %v", it.Exchange, it.Symbol, it.Code, it.Interval)
	if o != nil {
		fmt.Fprintf(&b, "|%v", *o)
	}
	if c.ids == nil {
		c.ids = map[string]int{}
	}
	k := b.String()
	if i, ok := c.ids[k]; ok {
		return i
	}
	c.ids[k] = len(c.ids) + 1
	return c.ids[k]
}

// clears says what clearing an indicator does: it keeps the candles or drops
// them with the results.
func clears(k *Kind) string {
	return map[string]string{"SMC": "keeps", "VolumeOscillator": "drops", "ReversalSignals": "drops"}[k.Name]
}

// markets are the market of a session and what it becomes when it moves on,
// numbered as in spec/Session.tla: after market m comes 2m with the last candle
// amended and 2m+1 with the next one of the series appended.
func markets(s *Series, moves int) []*Series {
	r := []*Series{nil, s.Head(s.Len() - moves)}
	for m := 1; len(r) < 2<<moves; m++ {
		a := r[m].clone()
		i := a.Len() - 1
		a.C[i] += (a.H[i]-a.L[i])/2 + 1
		a.H[i] = max(a.H[i], a.C[i]) + 0.5
		a.V[i] += 7
		a.B[i] = !a.B[i]
		b := r[m].clone()
		i++
		b.O, b.H, b.L, b.C = append(b.O, s.O[i]), append(b.H, s.H[i]), append(b.L, s.L[i]), append(b.C, s.C[i])
		b.V, b.B, b.T = append(b.V, s.V[i]), append(b.B, s.B[i]), append(b.T, s.T[i])
		r = append(r, a, b)
	}
	return r
}

func (s *Series) clone() *Series {
	c := func(x []float64) []float64 { return append([]float64{}, x...) }
	return &Series{Class: s.Class, O: c(s.O), H: c(s.H), L: c(s.L), C: c(s.C), V: c(s.V),
		B: append([]bool{}, s.B...), T: append([]int64{}, s.T...), Ex: s.Ex}
}

// advance moves a candle list on to the market s.
func advance(it *klines.Item, s *Series) {
	last := s.Item().Candles[s.Len()-1]
	if s.Len() > len(it.Candles) {
		it.Candles = append(it.Candles, last)
	} else {
		*it.Candles[s.Len()-1] = *last
	}
}

// runScripts runs each script over its own candle list.  ks are the slots.
func runScripts(ks []*Kind, ps []P, full *Series, scripts [][]int, lists [][]int, nops, moves int) *SessionTrace {
	mk := markets(full, moves)
	s := mk[1]
	t := &SessionTrace{P: ps, Market: *full, Mp: fs(4 * maxAbs(full.O, full.H, full.L, full.C, []float64{1})), Runs: []SRun{}, Lists: []SList{}, Names: []string{}, Sides: []int{}}
	if moves == 0 {
		t.Mp = fs(maxAbs(s.O, s.H, s.L, s.C, []float64{1}))
	}
	tab := &Table{}
	ct := &candleTable{}
	var names []string
	prm := func(i int, shared *klines.OHLC) P {
		q := P{}
		for a, b := range ps[i] {
			q[a] = b
		}
		if shared != nil {
			q["_shared"] = shared
		}
		return q
	}
	start := func() (*klines.Item, []*klines.Candle, *klines.OHLC) {
		it := s.Item()
		return it, append([]*klines.Candle{}, it.Candles...), it.GetOHLC()
	}
	ops := make([][]Op, len(ks))
	for i, k := range ks {
		names = append(names, k.Name)
		obj, e := build(k, prm(i, nil), s.Item())
		if e != "" {
			panic("cannot build " + k.Name + ": " + e)
		}
		ops[i] = opsOf(obj)
		if nops < len(ops[i]) && nops > 0 {
			ops[i] = ops[i][:nops]
		}
		on := make([]string, len(ops[i]))
		for j, op := range ops[i] {
			on[j] = op.Name
		}
		t.Ops = append(t.Ops, on)
	}
	for _, m := range mk[1:] {
		it := m.Item()
		t.Candles = append(t.Candles, ct.id(it, it.Candles, it.GetOHLC()))
		fresh := make([][]int, len(ks))
		for i, k := range ks {
			fresh[i] = make([]int, len(ops[i]))
			for j, op := range ops[i] {
				f, _ := build(k, prm(i, nil), m.Item())
				fresh[i][j] = tab.id(call(op, f, m))
			}
		}
		t.Fresh = append(t.Fresh, fresh)
	}
	t.Kind = strings.Join(names, "+")
	for _, sc := range scripts {
		it, ptrs, o := start()
		objs := make([]any, len(ks))
		run := SRun{Ops: []int{}, Got: []int{}, Candles: []int{}}
		ok := true
		for _, x := range sc {
			if sl, op := x/10, x%10; sl == 0 {
				continue
			} else if sl > len(ks) || (op > len(ops[sl-1]) && op != 9) || (op == 9 && clears(ks[sl-1]) == "") {
				ok = false
			}
		}
		if !ok {
			continue
		}
		m := 1
		for _, x := range sc {
			sl, op := x/10-1, x%10
			got := tab.id(answerOf())
			if sl < 0 {
				m = 2*m + op - 7
				advance(it, mk[m])
				ptrs = append(ptrs, it.Candles[len(ptrs):]...)
				o = it.GetOHLC()
			} else if op == 0 {
				obj, e := build(ks[sl], prm(sl, o), it)
				objs[sl] = obj
				if e != "" {
					got = tab.id(failure(e))
				}
			} else if op == 9 {
				if e := guarded(callLimit, func() { objs[sl].(interface{ Clear() }).Clear() }); e != "" {
					got = tab.id(failure(e))
				}
			} else {
				got = tab.id(call(ops[sl][op-1], objs[sl], mk[m]))
			}
			run.Ops = append(run.Ops, x)
			run.Got = append(run.Got, got)
			run.Candles = append(run.Candles, ct.id(it, ptrs, o))
		}
		t.Runs = append(t.Runs, run)
	}
	if len(lists) > 0 {
		for i, k := range ks {
			f, _ := build(k, prm(i, nil), s.Item())
			d := utils.SideData{}
			a := failure("none")
			if st, ok := f.(utils.IStrategy); ok {
				guarded(callLimit, func() { d = st.AnalysisSide(); a = answerOf(d.Data) })
			}
			t.Names = append(t.Names, d.Name)
			t.Sides = append(t.Sides, tab.id(a))
		}
		for _, l := range lists {
			it, ptrs, o := start()
			objs := make([]utils.IStrategy, len(ks))
			for i, k := range ks {
				obj, _ := build(k, prm(i, o), it)
				objs[i], _ = obj.(utils.IStrategy)
			}
			var sts []utils.IStrategy
			for _, x := range l {
				sts = append(sts, objs[x-1])
			}
			r := SList{Slots: append([]int{}, l...), Names: []string{}, Got: []int{}}
			e := guarded(callLimit, func() {
				for _, d := range utils.RunStrategies(sts...) {
					r.Names = append(r.Names, d.Name)
					r.Got = append(r.Got, tab.id(answerOf(d.Data)))
				}
			})
			if e != "" {
				r.Names, r.Got = []string{e}, []int{tab.id(failure(e))}
			}
			r.Candles = ct.id(it, ptrs, o)
			t.Lists = append(t.Lists, r)
		}
	}
	t.Ans = tab.All
	return t
}

// moving are the scripts in which something is asked before and after the
// market moves on, if it may.
func moving(all [][]int, moves int) [][]int {
	if moves == 0 {
		return all
	}
	var r [][]int
	for _, sc := range all {
		asked, moved, again := false, false, false
		for _, x := range sc {
			again = again || moved && x > 10 && x%10 > 1
			moved = moved || asked && x < 10
			asked = asked || x > 10
		}
		if again {
			r = append(r, sc)
		}
	}
	return r
}

func init() {
	// shapes: C01, every indicator over every shape of market
	modes["shapes"] = func(args []string) {
		fl := flag.NewFlagSet("shapes", flag.ExitOnError)
		shapes := fl.String("shapes", "", "")
		seed := fl.Int64("seed", 1, "")
		stride := fl.Int("stride", 1, "each kind takes every stride-th of the two-stretch shapes")
		only := fl.String("only", "", "")
		out := fl.String("out", "", "")
		fl.Parse(args)
		all := readLines[[]int](*shapes)
		var jobs []func() *PubTrace
		for ki, k := range indicators(*only) {
			k, ki := k, ki
			mk := func(def bool) func() *PubTrace {
				return func() *PubTrace {
					r := rng(*seed, "shapes"+k.Name+fmt.Sprint(def))
					t := &PubTrace{Kind: k.Name, P: P{"_": 0}, Mp: "1", Sided: sidedKind(k), Recs: []Answer{}, Runs: []Pub{}}
					for i, sh := range all {
						if sh[0] > 0 && (i+ki)%*stride != 0 {
							continue
						}
						p := k.Params(r)
						if def {
							p = defaults(k, r)
							if i%3 != 0 && sh[0] > 0 {
								continue
							}
						}
						s := shaped(r, sh[0], sh[1], sh[2], sh[3])
						t.Runs = append(t.Runs, publish(k, p, s, dailyOf(s), def && k.NewDef != nil, &Table{}, false))
					}
					for j := 0; j < 24 && !def; j++ {
						s := genSeries(r, 30+r.Intn(260), seriesClasses[r.Intn(len(seriesClasses))])
						t.Runs = append(t.Runs, publish(k, k.Params(r), s, dailyOf(s), false, &Table{}, false))
					}
					if def { // the default periods are longer than the shapes
						for _, n := range []int{60, 130, 199, 200, 201, 260, 700} {
							s := genSeries(r, n, seriesClasses[r.Intn(len(seriesClasses))])
							t.Runs = append(t.Runs, publish(k, defaults(k, r), s, dailyOf(s), k.NewDef != nil, &Table{}, false))
						}
					}
					return t
				}
			}
			jobs = append(jobs, mk(false))
			if k.Default != nil {
				jobs = append(jobs, mk(true))
			}
		}
		s := newSink(*out)
		n := 0
		for i, t := range parallel(jobs) {
			t.Id = i
			n += len(t.Runs)
			s.put(t)
		}
		s.close()
		fmt.Println(n)
	}

	// prefixes: C02, every prefix of markets
	modes["prefixes"] = func(args []string) {
		fl := flag.NewFlagSet("prefixes", flag.ExitOnError)
		seed := fl.Int64("seed", 1, "")
		per := fl.Int("per", 4, "markets per kind")
		long := fl.Int("long", 50, "")
		only := fl.String("only", "", "")
		conf := fl.String("conf", "", "markets of spec/Market.tla instead of random ones")
		markets := fl.String("markets", "", "")
		out := fl.String("out", "", "")
		fl.Parse(args)
		var jobs []func() *PubTrace
		job := func(k *Kind, p P, s *Series, def bool) {
			jobs = append(jobs, func() *PubTrace {
				t := &PubTrace{Kind: k.Name, P: P{"_": 0}, Mp: fs(maxAbs(s.O, s.H, s.L, s.C, []float64{1})), Sided: sidedKind(k), Growing: true, Runs: []Pub{}}
				tab := &Table{}
				tab.id(answerOf())
				other := dailyOf(s)
				step := 1
				if s.Len() > 120 {
					step = s.Len() / 60
				}
				for n := 0; n <= s.Len(); n += step {
					t.Runs = append(t.Runs, publish(k, p, s.Head(n), other, def, tab, true))
				}
				t.Recs = tab.All
				return t
			})
		}
		if *conf != "" {
			var c Conf
			b, err := os.ReadFile(*conf)
			if err == nil {
				err = json.Unmarshal(b, &c)
			}
			if err != nil {
				panic(err)
			}
			for _, m := range readLines[[]int](*markets) {
				for _, cf := range c.Configs {
					if k := kindByName[cf.Kind]; k.New != nil && k.Name != "SMC" {
						job(k, params(cf.P), c.series(m), false)
					}
				}
			}
		} else {
			for _, k := range indicators(*only) {
				if k.Name == "SMC" {
					continue
				}
				r := rng(*seed, "prefixes"+k.Name)
				for j := 0; j < *per; j++ {
					p := k.Params(r)
					n := 8 + r.Intn(*long)
					def := k.NewDef != nil && j == *per-1
					if def {
						p = defaults(k, r)
						n = min(300, maxPeriod(p)+20+r.Intn(20))
					}
					gen := genSeries
					if k.Gen != nil {
						gen = k.Gen
					}
					job(k, p, gen(r, n, append(seriesClasses, "recover", "highclose")[r.Intn(len(seriesClasses)+2)]), def)
				}
			}
		}
		s := newSink(*out)
		for i, t := range parallel(jobs) {
			t.Id = i
			s.put(t)
		}
		s.close()
		fmt.Println(s.n)
	}

	// calls: C03, every script of calls on each indicator
	modes["calls"] = func(args []string) {
		fl := flag.NewFlagSet("calls", flag.ExitOnError)
		seed := fl.Int64("seed", 1, "")
		scripts := fl.String("scripts", "", "")
		per := fl.Int("per", 2, "markets per kind")
		extra := fl.Int("extra", 0, "markets per kind for a sample of the scripts")
		only := fl.String("only", "", "")
		moves := fl.Int("moves", 0, "how often the market moves on in a script")
		clearing := fl.String("clearing", "no", "only indicators that are cleared like this")
		out := fl.String("out", "", "")
		fl.Parse(args)
		all := moving(readLines[[]int](*scripts), *moves)
		var again [][]int // one call over and over
		for _, sc := range all {
			same := len(sc) > 2
			for _, x := range sc[min(2, len(sc)):] {
				same = same && x == sc[1]
			}
			if same {
				again = append(again, sc)
			}
		}
		var jobs []func() *SessionTrace
		for _, k := range indicators(*only) {
			if *clearing != "no" && clears(k) != *clearing {
				continue
			}
			r := rng(*seed, "calls"+k.Name)
			for j := 0; j < *per+*extra; j++ {
				k := k
				p := k.Params(r)
				mine := all
				n := 3 + r.Intn(28)
				if j == 0 {
					n = 24 + r.Intn(20)
				}
				if k.Name == "SMC" && j == 0 {
					n = 240
				}
				if j >= *per {
					n = 8 + r.Intn(80)
					mine = append([][]int{}, again...)
					for x := 0; x < 10; x++ {
						mine = append(mine, all[r.Intn(len(all))])
					}
				}
				gen := genSeries
				if k.Gen != nil {
					gen = k.Gen
				}
				s := gen(r, n, []string{"walk", "zigzag", "trend", "gaps", "ties", "recover"}[r.Intn(6)])
				if k.Gen == nil {
					s.disorder(r)
				}
				jobs = append(jobs, func() *SessionTrace { return runScripts([]*Kind{k}, []P{p}, s, mine, nil, 0, *moves) })
			}
		}
		s := newSink(*out)
		n := 0
		for i, t := range parallel(jobs) {
			t.Id = i
			n += len(t.Runs)
			s.put(t)
		}
		s.close()
		fmt.Println(n)
	}

	// sessions: C04, scripts over several indicators and one candle list
	modes["sessions"] = func(args []string) {
		fl := flag.NewFlagSet("sessions", flag.ExitOnError)
		seed := fl.Int64("seed", 1, "")
		scripts := fl.String("scripts", "", "")
		lists := fl.String("lists", "", "")
		slots := fl.Int("slots", 2, "")
		count := fl.Int("count", 200, "combinations of indicators")
		moves := fl.Int("moves", 0, "how often the market moves on in a script")
		clearing := fl.Bool("clearing", false, "combinations with an indicator that can be cleared")
		each := fl.Int("each", 60, "scripts per combination")
		out := fl.String("out", "", "")
		fl.Parse(args)
		all := moving(readLines[[]int](*scripts), *moves)
		ls := [][]int{}
		if *lists != "" {
			for _, l := range readLines[[]int](*lists) {
				ls = append(ls, l)
			}
		}
		ks := indicators("")
		var strategies []*Kind
		for _, k := range ks {
			if sidedKind(k) && !k.DataSide && k.Side == nil {
				strategies = append(strategies, k)
			}
		}
		var cleared []*Kind
		for _, k := range ks {
			if clears(k) != "" {
				cleared = append(cleared, k)
			}
		}
		r := rng(*seed, "sessions"+fmt.Sprint(*slots))
		off := r.Intn(len(ks))
		at := r.Intn(max(1, len(all)))
		var jobs []func() *SessionTrace
		for c := 0; c < *count; c++ {
			combo := make([]*Kind, *slots)
			ps := make([]P, *slots)
			pool := ks
			if c%3 == 2 && len(ls) > 0 {
				pool = strategies
			}
			for i := range combo {
				if i == 0 && *clearing {
					combo[i] = cleared[c%len(cleared)]
				} else if i == 0 {
					combo[i] = pool[(off+c)%len(pool)]
				} else {
					combo[i] = pool[r.Intn(len(pool))]
				}
				if i == 1 && c%5 == 0 {
					combo[i] = combo[0] // two of the same kind
				}
				ps[i] = combo[i].Params(r)
				if _, has := ps[i]["ohlc"]; has && r.Intn(2) == 0 {
					ps[i]["ohlc"] = true
				}
			}
			s := genSeries(r, 12+r.Intn(30), []string{"walk", "zigzag", "trend", "gaps", "ties", "recover", "decimal", "flat"}[r.Intn(8)])
			s.disorder(r)
			var mine [][]int
			for j := 0; j < *each && j < len(all); j++ {
				mine = append(mine, all[at%len(all)])
				at++
			}
			var mls [][]int
			for _, l := range ls {
				ok := true
				for _, x := range l {
					if x > *slots || !sidedKind(combo[x-1]) || combo[x-1].DataSide || combo[x-1].Side != nil {
						ok = false
					}
				}
				if ok {
					mls = append(mls, l)
				}
			}
			jobs = append(jobs, func() *SessionTrace { return runScripts(combo, ps, s, mine, mls, 4, *moves) })
		}
		s := newSink(*out)
		n := 0
		for i, t := range parallel(jobs) {
			t.Id = i
			n += len(t.Runs) + len(t.Lists)
			s.put(t)
		}
		s.close()
		fmt.Println(n)
	}
}
