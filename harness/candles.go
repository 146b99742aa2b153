package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"time"

	"github.com/idoall/stockindicator/utils/klines"
)

// Bar is a candle as spec/Scaling.tla sees it; times are in units from a base.
type Bar struct {
	T      int64  `json:"t"`
	O      string `json:"o"`
	H      string `json:"h"`
	L      string `json:"l"`
	C      string `json:"c"`
	V      string `json:"v"`
	A      string `json:"a"`
	N      string `json:"n"`
	Change string `json:"change"`
	Bull   bool   `json:"bull"`
}
type Upscaled struct {
	Id      int    `json:"id"`
	Kind    string `json:"kind"`
	P       string `json:"p"`
	Old     int64  `json:"old"`
	New     int64  `json:"new"`
	Src     []Bar  `json:"src"`
	Got     []Bar  `json:"got"`
	Refused bool   `json:"refused"`
	Kept    bool   `json:"kept"`
	Named   bool   `json:"named"`
	Err     string `json:"err"`
}

// readScripts reads one JSON list of integers per line.
func readScripts(path string) (r [][]int) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		var m []int
		if err := json.Unmarshal(sc.Bytes(), &m); err != nil {
			panic(err)
		}
		r = append(r, m)
	}
	return
}

type clock struct {
	base, unit int64 // seconds
}

const offGrid = -999999

func (k clock) abs(t int64) int64 { return k.base + t*k.unit }
func (k clock) rel(t int64) int64 {
	if (t-k.base)%k.unit != 0 || (t-k.base)/k.unit > 1<<30 || (t-k.base)/k.unit < -(1<<30) {
		return offGrid
	}
	return (t - k.base) / k.unit
}
func (k clock) interval(n int64) klines.Interval {
	return klines.Interval(time.Duration(n*k.unit) * time.Second)
}

var units = []int64{1, 60, 3600, 86400, 300, 7 * 86400}
var bases = []int64{1700000000, 1, 1699999260, 0, -86400 * 3, 1582156800, 1583020799}

func randClock(r *rand.Rand) clock {
	return clock{bases[r.Intn(len(bases))], units[r.Intn(len(units))]}
}

// wideClock also puts candles further apart than fits 32 bits.
func wideClock(r *rand.Rand) clock {
	k := randClock(r)
	if r.Intn(4) == 0 {
		k.unit = []int64{1 << 31, 1 << 32, 3000000000, 1 << 33}[r.Intn(4)]
	}
	return k
}

func bars(k clock, cs []*klines.Candle) []Bar {
	r := []Bar{}
	for _, c := range cs {
		if c == nil {
			r = append(r, Bar{T: offGrid, O: "NaN", H: "NaN", L: "NaN", C: "NaN", V: "NaN", A: "NaN", N: "NaN", Change: "NaN"})
			continue
		}
		r = append(r, Bar{k.rel(c.TimeUnix), fs(c.Open), fs(c.High), fs(c.Low), fs(c.Close), fs(c.Volume), fs(c.Amount), is(c.Count), fs(c.ChangePercent), c.IsBullMarket})
	}
	return r
}

func upscale(k clock, it *klines.Item, old, new int64) (t *Upscaled, res *klines.Item) {
	t = &Upscaled{Kind: "ConvertToNewInterval", P: fmt.Sprintf("unit %d s, base %d", k.unit, k.base), Old: old, New: new, Src: []Bar{}, Got: []Bar{}}
	var head klines.Item
	var before, made []klines.Candle
	if it != nil {
		t.Src = bars(k, it.Candles)
		head, before = *it, copyItem(it)
	}
	t.Err = guarded(callLimit, func() {
		got, err := it.ConvertToNewInterval(k.interval(new))
		t.Refused = err != nil
		if err == nil {
			t.Got = bars(k, got.Candles)
			t.Named = got.Exchange == head.Exchange && got.Symbol == head.Symbol && got.Code == head.Code && got.Interval == k.interval(new)
			res = got
			made = copyItem(got)
			for _, c := range got.Candles { // the new candles are its own
				c.Close++
			}
		}
		t.Kept = it == nil || sameItem(it, before) && it.Exchange == head.Exchange && it.Symbol == head.Symbol &&
			it.Code == head.Code && it.Interval == head.Interval
		if res != nil {
			for x, c := range res.Candles {
				*c = made[x]
			}
		}
	})
	return
}

func init() {
	modes["upscale"] = func(args []string) {
		fl := flag.NewFlagSet("upscale", flag.ExitOnError)
		scripts := fl.String("scripts", "", "")
		seed := fl.Int64("seed", 1, "")
		real := fl.Bool("real", false, "prices of random markets instead of the bars of the model")
		out := fl.String("out", "", "")
		fl.Parse(args)
		// the bars of spec/Upscale.tla
		alphabet := [][7]float64{{4, 6, 3, 5, 2, 9, 1}, {5, 9, 2, 4, 3, 14, 2}, {8, 8, 7, 7, 0, 0, 0}, {3, 5, 1, 3, 5, 11, 4}, {2, 2, 2, 2, 1, 2, 3}}
		sc := readScripts(*scripts)
		var jobs []func() []*Upscaled
		for j, w := range sc {
			r := rng(*seed, fmt.Sprint("upscale", j))
			jobs = append(jobs, func() []*Upscaled {
				k := randClock(r)
				old, new := int64(w[0]), int64(w[1])
				it := &klines.Item{Exchange: "exchange", Symbol: "symbol", Code: "code", Interval: k.interval(old)}
				var ser *Series
				trades := []int{0, 0, 24, 31, 44}[r.Intn(5)] // more trades than fit 32 bits
				if *real {
					ser = genSeries(r, len(w)/2-1, seriesClasses[r.Intn(len(seriesClasses))])
				}
				for x := 0; 2+2*x < len(w); x++ {
					t := k.abs(int64(w[2+2*x]))
					if ser != nil {
						it.Candles = append(it.Candles, &klines.Candle{Open: ser.O[x], High: ser.H[x], Low: ser.L[x], Close: ser.C[x], Volume: ser.V[x],
							Amount: ser.V[x] * ser.C[x], Count: r.Int63n(50) << trades, TimeUnix: t, IsBullMarket: ser.B[x]})
						continue
					}
					b := alphabet[w[3+2*x]-1]
					it.Candles = append(it.Candles, &klines.Candle{Open: b[0], High: b[1], Low: b[2], Close: b[3], Volume: b[4], Amount: b[5], Count: int64(b[6]),
						TimeUnix: t, IsBullMarket: b[3] > b[0], ChangePercent: (b[3] - b[0]) / b[0]})
				}
				t, res := upscale(k, it, old, new)
				ts := []*Upscaled{t}
				if res != nil {
					t2, _ := upscale(k, res, new, new*int64(2+r.Intn(2)))
					ts = append(ts, t2)
				}
				return ts
			})
		}
		s := newSink(*out)
		id := 0
		put := func(t *Upscaled) { t.Id = id; id++; s.put(t) }
		var none *klines.Item
		t, _ := upscale(clock{0, 60}, none, 0, 1)
		put(t)
		for _, ts := range parallel(jobs) {
			for _, t := range ts {
				put(t)
			}
		}
		s.close()
		fmt.Println(s.n)
	}
}

// ListCall is one operation on a list of candles.
type ListCall struct {
	Op     string   `json:"op"`
	A      int64    `json:"a"`
	B      int64    `json:"b"`
	Down   bool     `json:"down"`
	Follow bool     `json:"follow"`
	List   [][2]int `json:"list"`
	Copy   [][2]int `json:"copy"`
	Whole  bool     `json:"whole"`
	Named  bool     `json:"named"`
	Err    string   `json:"err"`
}
type ListTrace struct {
	Id    int        `json:"id"`
	Kind  string     `json:"kind"`
	P     string     `json:"p"`
	Start [][2]int   `json:"start"`
	Calls []ListCall `json:"calls"`
}

func runList(k clock, w []int, r *rand.Rand) *ListTrace {
	tr := &ListTrace{Kind: "Item", P: fmt.Sprintf("unit %d s, base %d", k.unit, k.base), Start: [][2]int{}, Calls: []ListCall{}}
	it := &klines.Item{Exchange: "exchange", Symbol: "symbol", Code: "code", Interval: k.interval(1)}
	made := func(t, id int) klines.Candle {
		x := float64(id)
		return klines.Candle{TimeUnix: k.abs(int64(t)), Open: x + 1, Close: x + 2, High: x + 3, Low: x, Volume: 10 * x, Amount: 20 * x,
			Count: int64(id), ChangePercent: 1 / (x + 1), IsBullMarket: id%2 == 0}
	}
	n := w[0]
	for j, t := range w[1 : 1+n] {
		tr.Start = append(tr.Start, [2]int{t, j + 1})
		c := made(t, j+1)
		it.Candles = append(it.Candles, &c)
	}
	for _, op := range w[1+n:] {
		c := ListCall{Whole: true, List: [][2]int{}, Copy: [][2]int{}, A: int64(op%100) / 10, B: int64(op) % 10}
		// the location of a time does not matter
		at := func(t int64) time.Time {
			x := time.Unix(k.abs(t), 0)
			if r.Intn(2) == 0 {
				x = x.UTC()
			}
			return x
		}
		show := func(it *klines.Item) [][2]int {
			l := [][2]int{}
			for _, x := range it.Candles {
				if x == nil {
					l = append(l, [2]int{offGrid, 0})
					continue
				}
				t := int(k.rel(x.TimeUnix))
				l = append(l, [2]int{t, int(x.Count)})
				c.Whole = c.Whole && *x == made(t, int(x.Count))
			}
			return l
		}
		named := func(it *klines.Item) bool {
			return it.Exchange == "exchange" && it.Symbol == "symbol" && it.Code == "code" && it.Interval == k.interval(1)
		}
		c.Err = guarded(callLimit, func() {
			var res *klines.Item
			switch {
			case op == 1:
				c.Op = "dedupe"
				it.RemoveDuplicates()
			case op <= 3:
				c.Op, c.Down = "sort", op == 3
				it.SortCandlesByTimestamp(op == 3)
			case op == 4:
				c.Op = "clear"
				it.Clear()
			case op < 200:
				c.Op = "range"
				it.RemoveOutsideRange(at(c.A), at(c.B))
			default:
				c.Op, c.Follow = "copy", op >= 300
				res = it.RemoveOutsideRangeCopy(at(c.A), at(c.B))
				c.Copy = show(res)
				mod, other := res, it // changing one does not change the other
				if c.Follow {
					mod, other = it, res
				}
				for _, x := range mod.Candles {
					x.Close++
				}
				show(other)
				for _, x := range mod.Candles {
					x.Close--
				}
			}
			c.List = show(it)
			c.Named = named(it) && (res == nil || named(res))
			if c.Follow {
				it = res
			}
		})
		if c.Op == "" {
			c.Op = fmt.Sprint(op)
		}
		tr.Calls = append(tr.Calls, c)
		if c.Err != "" {
			break
		}
	}
	return tr
}

func init() {
	modes["candles"] = func(args []string) {
		fl := flag.NewFlagSet("candles", flag.ExitOnError)
		scripts := fl.String("scripts", "", "")
		seed := fl.Int64("seed", 1, "")
		out := fl.String("out", "", "")
		fl.Parse(args)
		var jobs []func() *ListTrace
		for j, w := range readScripts(*scripts) {
			r := rng(*seed, fmt.Sprint("candles", j))
			jobs = append(jobs, func() *ListTrace { return runList(wideClock(r), w, r) })
		}
		s := newSink(*out)
		for i, t := range parallel(jobs) {
			t.Id = i
			s.put(t)
		}
		s.close()
		fmt.Println(s.n)
	}
}

// genFlagged lists candles whose directions, and sometimes times, are their own.
func genFlagged(r *rand.Rand, n int, class string) *Series {
	s := genSeries(r, n, class)
	if r.Intn(2) == 0 {
		s.flags(r)
	}
	if r.Intn(3) == 0 {
		s.disorder(r)
	}
	return s
}

// The kinds of C23: series and candles derived from candles.
func derived(name string, f func(it *klines.Item, s *Series) map[string][]float64) {
	k := &Kind{Name: name, Group: "C23", Params: none, Gen: genFlagged}
	k.Run = func(t *Trace, p P, s *Series) {
		it := s.Item()
		before := copyItem(it)
		for n, c := range f(it, s) {
			t.set(n, c)
		}
		t.Rt = t.T
		t.Pure = sameItem(it, before) && it.Exchange == "x" && it.Symbol == "s" && it.Code == "c" && it.Interval == klines.OneMin
	}
	reg(k)
}

func init() {
	derived("HL2", func(it *klines.Item, s *Series) map[string][]float64 { return val(it.HL2()) })
	derived("HLC3", func(it *klines.Item, s *Series) map[string][]float64 { return val(it.HLC3()) })
	derived("OHLC4", func(it *klines.Item, s *Series) map[string][]float64 { return val(it.OHLC4()) })
	derived("GetOHLC", func(it *klines.Item, s *Series) map[string][]float64 {
		o := it.GetOHLC()
		m := map[string][]float64{"Open": cp(o.Open), "High": cp(o.High), "Low": cp(o.Low), "Close": cp(o.Close), "Volume": cp(o.Volume), "Bull": {}, "Time": {}}
		for _, b := range o.BullMarket {
			m["Bull"] = append(m["Bull"], bool01(b))
		}
		for _, t := range o.TimeUnix {
			m["Time"] = append(m["Time"], float64(t-s.T[0]))
		}
		for i := range o.Close { // the columns are not the candles
			o.Open[i], o.High[i], o.Low[i], o.Close[i], o.Volume[i] = -1, -1, -1, -1, -1
		}
		return m
	})
	derived("HeikinAshi", func(it *klines.Item, s *Series) map[string][]float64 {
		h := it.ToHeikinAshi()
		named := h.Exchange == it.Exchange && h.Symbol == it.Symbol && h.Code == it.Code && h.Interval == it.Interval
		m := map[string][]float64{"Open": {}, "High": {}, "Low": {}, "Close": {}, "Volume": {}, "Time": {}, "Kept": {}}
		for i, c := range h.Candles {
			put := func(n string, x float64) { m[n] = append(m[n], x) }
			put("Open", c.Open)
			put("High", c.High)
			put("Low", c.Low)
			put("Close", c.Close)
			put("Volume", c.Volume)
			put("Time", float64(c.TimeUnix-s.T[0]))
			put("Kept", bool01(named && i < len(it.Candles) && c.Amount == it.Candles[i].Amount && c.Count == it.Candles[i].Count))
			c.Close = -1
		}
		return m
	})
}
