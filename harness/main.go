package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"github.com/idoall/stockindicator/utils/klines"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
)

type sink struct {
	f *os.File
	w *bufio.Writer
	n int
}

func newSink(path string) *sink {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &sink{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}
func (s *sink) put(x any) {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	s.w.Write(b)
	s.w.WriteByte('\n')
	s.n++
}
func (s *sink) close() { s.w.Flush(); s.f.Close() }

func rng(seed int64, salt string) *rand.Rand {
	h := uint64(1469598103934665603)
	for _, c := range salt {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return rand.New(rand.NewSource(int64(h) ^ (seed * 7919)))
}

var modes = map[string]func(args []string){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: h MODE ...")
		os.Exit(2)
	}
	m, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	m(os.Args[2:])
}

// lengths aims the length of a series at the phases of the indicator.
func lengths(r *rand.Rand, p P, long int) int {
	m := maxPeriod(p)
	switch r.Intn(12) {
	case 0:
		return r.Intn(4)
	case 1:
		return max(0, m-1)
	case 2:
		return m
	case 3:
		return m + 1 + r.Intn(2)
	case 4:
		return 2*m + 3
	case 5:
		return 150 + r.Intn(3*long)
	default:
		return 30 + r.Intn(long)
	}
}

func init() {
	// values: traces of the kinds of one property group (or "all")
	modes["values"] = func(args []string) {
		fl := flag.NewFlagSet("values", flag.ExitOnError)
		group := fl.String("group", "", "")
		seed := fl.Int64("seed", 1, "")
		per := fl.Int("per", 10, "series per kind")
		long := fl.Int("long", 60, "")
		classes := fl.String("classes", "normal", "")
		only := fl.String("only", "", "")
		sided := fl.Bool("sided", false, "only kinds with signals")
		out := fl.String("out", "", "")
		fl.Parse(args)
		cs := seriesClasses
		if *classes == "degenerate" {
			cs = degenerateClasses
		}
		s := newSink(*out)
		id := 0
		var jobs []func() *Trace
		for _, k := range kinds {
			if *group != "all" && k.Group != *group {
				continue
			}
			if *only != "" && k.Name != *only {
				continue
			}
			if *group == "all" && k.New == nil && k.Name != "Chandelier" {
				continue
			}
			n := *per
			if k.Heavy > 0 {
				n = max(3, n/k.Heavy)
			}
			r := rng(*seed, *group+*classes+k.Name)
			if *classes == "touching" {
				for j := 0; j < n && steerable(k); j++ {
					jr := rand.New(rand.NewSource(r.Int63()))
					jobs = append(jobs, func() *Trace {
						p := touchParams(k, jr)
						return runKind(0, k, p, steer(k, p, jr, 25+jr.Intn(*long)), jr.Intn(2) == 0)
					})
				}
				continue
			}
			for j := 0; j < n; j++ {
				p := k.Params(r)
				useDef := k.Default != nil && j%12 == 11 && *classes == "normal"
				kk := k
				if useDef {
					p = P{}
					for a, b := range k.Default {
						p[a] = b
					}
					if _, has := k.Params(r)["ohlc"]; has {
						p["ohlc"] = false
					}
					if k.NewDef != nil {
						k2 := *k
						k2.New = func(it *klinesItem, _ P) any { return k.NewDef(it) }
						kk = &k2
					}
				}
				class := cs[(j+r.Intn(2))%len(cs)]
				ln := lengths(r, p, *long)
				if j < 2 {
					ln = 40 + r.Intn(*long)
				}
				if k.Name == "SMC" {
					ln = []int{0, 1, 5, 30, 120, 205, 260, 320}[r.Intn(8)]
					if j < 3 {
						ln = 300 + r.Intn(*long)
					}
					if j%2 == 0 { // order blocks are only chosen after 200 candles
						class = "swings"
						ln = max(ln, 240+r.Intn(200))
					}
				}
				if useDef {
					ln = maxPeriod(p) + 20 + r.Intn(*long)
				}
				if j == 3 || j == 4 { // long enough for anything that starts late
					ln = 700 + r.Intn(900)
					if k.Name == "SMC" { // its own cost grows with the square
						ln = 500 + r.Intn(250)
					}
				}
				gen := genSeries
				if k.Gen != nil {
					gen = k.Gen
				}
				ser := gen(r, ln, class)
				calcFirst, kk1 := r.Intn(2) == 0, kk
				jobs = append(jobs, func() *Trace {
					t := runKind(0, kk1, p, ser, calcFirst)
					if useDef {
						t.Class += "/default"
					}
					return t
				})
			}
		}
		for _, t := range parallel(jobs) {
			if *sided && !t.Sided {
				continue
			}
			t.Id = id
			s.put(t)
			id++
		}
		s.close()
		fmt.Println(s.n)
	}
}

// parallel runs the jobs on every core and returns their results in order.
func parallel[R any](jobs []func() R) []R {
	res := make([]R, len(jobs))
	next := int64(-1)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				j := int(atomic.AddInt64(&next, 1))
				if j >= len(jobs) {
					return
				}
				res[j] = jobs[j]()
			}
		}()
	}
	wg.Wait()
	return res
}

type klinesItem = klines.Item
