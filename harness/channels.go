package main

import (
	"bytes"
	"context"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/idoall/stockindicator/helpertools"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/ta"
)

// NetCall is one call that builds a network, as in spec/Networks.tla.
type NetCall struct {
	Op   string `json:"op"`
	F    string `json:"f,omitempty"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	N    int    `json:"n"`
	Fill int    `json:"fill"`
	Cap  int    `json:"cap"`
	Vals []int  `json:"vals"`
}
type Net struct {
	Id    int       `json:"id"`
	Calls []NetCall `json:"calls"`
	Procs []struct {
		K  string `json:"k"`
		No int    `json:"no"`
	} `json:"procs"`
}
type NetEvent struct {
	E string `json:"e"`
	N int    `json:"n"`
	V int    `json:"v"`
}
type NetTrace struct {
	Id      int        `json:"id"`
	Kind    string     `json:"kind"`
	P       string     `json:"p"`
	Calls   []NetCall  `json:"calls"`
	Events  []NetEvent `json:"events"`
	Sources int        `json:"sources"`
	Total   int        `json:"total"`
	Waiting int        `json:"waiting"`
	Leaked  int        `json:"leaked"`
	Err     string     `json:"err"`
}

// port is one end of a network that the environment holds.  It does its next
// communication whenever it is given a token.
type port struct {
	tokens chan struct{}
	steps  int
}

func yieldSome(n int) {
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}

// runNet builds the network with the real operators over T and moves its ends
// in the order of the schedule (numbers of processes), then lets all run free.
func runNet[T commonutils.Number](label string, net *Net, sched []int, r *rand.Rand, enc func(int) T, dec func(T) int, libraryEnds bool) *NetTrace {
	t := &NetTrace{Calls: net.Calls, Events: []NetEvent{}}
	var mu sync.Mutex
	over := false
	event := func(e string, n, v int) {
		mu.Lock()
		if !over {
			t.Events = append(t.Events, NetEvent{e, n, v})
		}
		mu.Unlock()
	}
	ports := make([]*port, len(net.Procs)+1)
	for i, p := range net.Procs {
		if p.K == "src" || p.K == "sink" {
			ports[i+1] = &port{tokens: make(chan struct{}, 4096)}
		}
	}
	var srcProcs, sinkProcs []int
	for i, p := range net.Procs {
		switch p.K {
		case "src":
			srcProcs = append(srcProcs, i+1)
		case "sink":
			sinkProcs = append(sinkProcs, i+1)
		}
	}
	jitter := func() int { return 0 }
	if r.Intn(3) > 0 {
		seed := r.Int63()
		var jm sync.Mutex
		jr := rand.New(rand.NewSource(seed))
		jitter = func() int { jm.Lock(); defer jm.Unlock(); return jr.Intn(6) }
	}
	var wg sync.WaitGroup
	var waiting int64
	chans := []<-chan T{nil}
	si, ki := 0, 0
	e := guarded(callLimit, func() {
		pprof.Do(context.Background(), pprof.Labels("job", label), func(context.Context) {
			for _, c := range net.Calls {
				c := c
				switch c.Op {
				case "input":
					t.Sources++
					t.Total += len(c.Vals)
					no := si
					pt := ports[srcProcs[no]]
					si++
					if libraryEnds {
						vals := make([]T, len(c.Vals))
						for i, v := range c.Vals {
							vals[i] = enc(v)
							event("sent", no+1, v)
						}
						event("closed", no+1, 0)
						chans = append(chans, helpertools.Slice2Chan(vals))
						continue
					}
					ch := make(chan T, c.Cap)
					chans = append(chans, ch)
					wg.Add(1)
					atomic.AddInt64(&waiting, 1)
					go func() {
						defer wg.Done()
						for _, v := range c.Vals {
							<-pt.tokens
							yieldSome(jitter())
							ch <- enc(v)
							event("sent", no+1, v)
						}
						<-pt.tokens
						yieldSome(jitter())
						close(ch)
						event("closed", no+1, 0)
						atomic.AddInt64(&waiting, -1)
					}()
				case "map":
					switch c.F {
					case "twice":
						chans = append(chans, helpertools.Apply(chans[c.A], func(x T) T { return 2*x + 1 }))
					case "round":
						chans = append(chans, helpertools.RoundDigits(chans[c.A], 2))
					default:
						panic("unknown function " + c.F)
					}
				case "pipe":
					ch := make(chan T, c.Cap)
					in := chans[c.A]
					chans = append(chans, ch)
					go helpertools.Pipe(in, ch)
				case "shift":
					chans = append(chans, helpertools.Shift(chans[c.A], c.N, enc(c.Fill)))
				case "skip":
					chans = append(chans, helpertools.Skip(chans[c.A], c.N))
				case "dup":
					outs := helpertools.Duplicate(chans[c.A], c.N)
					if len(outs) != c.N {
						panic(fmt.Sprintf("Duplicate(%d) gave %d channels", c.N, len(outs)))
					}
					for _, o := range outs {
						chans = append(chans, o)
					}
				case "operate":
					chans = append(chans, helpertools.Operate(chans[c.A], chans[c.B], func(a, b T) T { return 10*a + b }))
				case "smat":
					// four channels of its own come before the result
					chans = append(chans, nil, nil, nil, nil, ta.SmaT(c.N, chans[c.A]))
				case "sink":
					no := ki
					pt := ports[sinkProcs[no]]
					ki++
					ch := chans[c.A]
					wg.Add(1)
					atomic.AddInt64(&waiting, 1)
					go func() {
						defer wg.Done()
						if libraryEnds {
							for _, v := range helpertools.Chan2Slice(ch) {
								event("got", no+1, dec(v))
							}
							event("end", no+1, 0)
							atomic.AddInt64(&waiting, -1)
							return
						}
						for {
							<-pt.tokens
							yieldSome(jitter())
							v, ok := <-ch
							if !ok {
								event("end", no+1, 0)
								atomic.AddInt64(&waiting, -1)
								return
							}
							event("got", no+1, dec(v))
						}
					}()
				}
			}
		})
	})
	if e != "" {
		t.Err = e
		return t
	}
	for _, x := range sched {
		ports[x].tokens <- struct{}{}
		yieldSome(2)
	}
	for i := range ports { // from here on everything may move
		if ports[i] != nil {
			for j := 0; j < 2000; j++ {
				ports[i].tokens <- struct{}{}
			}
		}
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(netLimit()):
		netTimeouts.Add(1)
	}
	mu.Lock()
	over = true
	mu.Unlock()
	t.Waiting = int(atomic.LoadInt64(&waiting))
	return t
}

// the first executions that hang are given a long time; once a few have hung,
// what hangs is a fact and the rest need not wait as long
var netTimeouts atomic.Int64

func netLimit() time.Duration {
	if netTimeouts.Load() < 8 {
		return 30 * time.Second
	}
	return 300 * time.Millisecond
}

var labelled = regexp.MustCompile(`(?m)^(\d+) @.*\n# labels: \{"job":"(\d+)"\}\n((?:#.*\n)*)`)

// leftovers counts, per job, the goroutines started inside the library that
// are still there after a grace period.
func leftovers() map[int]int {
	var res map[int]int
	for try := 0; try < 60; try++ {
		res = map[int]int{}
		var b bytes.Buffer
		pprof.Lookup("goroutine").WriteTo(&b, 1)
		for _, m := range labelled.FindAllStringSubmatch(b.String(), -1) {
			if !strings.Contains(m[3], "stockindicator/helpertools") && !strings.Contains(m[3], "stockindicator/utils") {
				continue
			}
			n, _ := strconv.Atoi(m[1])
			j, _ := strconv.Atoi(m[2])
			res[j] += n
		}
		if len(res) == 0 {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	return res
}

func hasRound(n *Net) bool {
	for _, c := range n.Calls {
		if c.F == "round" {
			return true
		}
	}
	return false
}

func (n *Net) name() string {
	var s []string
	for _, c := range n.Calls {
		if c.Op != "input" && c.Op != "sink" {
			s = append(s, c.Op)
		}
	}
	if len(s) == 0 {
		return "direct"
	}
	return strings.Join(s, "-")
}

func init() {
	modes["channels"] = func(args []string) {
		fl := flag.NewFlagSet("channels", flag.ExitOnError)
		nets := fl.String("nets", "", "")
		schedules := fl.String("schedules", "", "lines [net, process, ...]; without it, random ones")
		seed := fl.Int64("seed", 1, "")
		repeat := fl.Int("repeat", 1, "")
		out := fl.String("out", "", "")
		fl.Parse(args)
		byId := map[int]*Net{}
		all := readLines[Net](*nets)
		for i := range all {
			byId[all[i].Id] = &all[i]
			for j := range all[i].Calls {
				if all[i].Calls[j].Vals == nil {
					all[i].Calls[j].Vals = []int{}
				}
			}
		}
		r := rng(*seed, "channels")
		type job struct {
			net   *Net
			sched []int
			lib   bool
			kind  int
			r     *rand.Rand
		}
		var js []job
		add := func(n *Net, sched []int, lib bool) {
			js = append(js, job{n, sched, lib, r.Intn(3), rand.New(rand.NewSource(r.Int63()))})
		}
		if *schedules != "" {
			for _, l := range readLines[[]int](*schedules) {
				for k := 0; k < *repeat; k++ {
					add(byId[l[0]], l[1:], false)
				}
			}
		}
		for i := range all {
			n := &all[i]
			zero := true
			var ends []int
			for j, p := range n.Procs {
				if p.K == "src" || p.K == "sink" {
					ends = append(ends, j+1)
				}
			}
			for _, c := range n.Calls {
				zero = zero && c.Cap == 0
			}
			for k := 0; k < *repeat; k++ {
				add(n, nil, zero)
				if *schedules == "" {
					// one end at a time, in bursts
					var sched []int
					for len(sched) < 40 && len(ends) > 0 {
						x := ends[r.Intn(len(ends))]
						for b := 1 + r.Intn(5); b > 0; b-- {
							sched = append(sched, x)
						}
					}
					add(n, sched, false)
				}
			}
		}
		var jobs []func() *NetTrace
		for id, j := range js {
			id, j := id, j
			jobs = append(jobs, func() *NetTrace {
				l := strconv.Itoa(id)
				switch {
				case hasRound(j.net):
					return runNet(l, j.net, j.sched, j.r, func(v int) float64 { return float64(v) / 8 }, func(x float64) int { return int(math.Round(x * 100)) }, j.lib)
				case j.kind == 0:
					return runNet(l, j.net, j.sched, j.r, func(v int) float64 { return float64(v) }, func(x float64) int { return int(math.Floor(x + 1e-9)) }, j.lib)
				case j.kind == 1:
					return runNet(l, j.net, j.sched, j.r, func(v int) int64 { return int64(v) }, func(x int64) int { return int(x) }, j.lib)
				}
				return runNet(l, j.net, j.sched, j.r, func(v int) int { return v }, func(x int) int { return x }, j.lib)
			})
		}
		ts := parallel(jobs)
		left := leftovers()
		s := newSink(*out)
		for i, t := range ts {
			t.Id, t.Kind, t.P = i, js[i].net.name(), fmt.Sprint(js[i].sched)
			t.Leaked = left[i]
			s.put(t)
		}
		s.close()
		fmt.Println(s.n)
	}

	modes["equals"] = func(args []string) {
		fl := flag.NewFlagSet("equals", flag.ExitOnError)
		scripts := fl.String("scripts", "", "")
		seed := fl.Int64("seed", 1, "")
		count := fl.Int("count", 0, "random inputs")
		out := fl.String("out", "", "")
		fl.Parse(args)
		var jobs []func() *equalsTrace
		n := 0
		add := func(ins [][]int, types ...int) {
			for _, k := range types {
				k, buffer := k, n%3
				n++
				jobs = append(jobs, func() *equalsTrace { return equalsOf[k](ins, buffer) })
			}
		}
		for _, sc := range append(readLines[[]int](*scripts), []int{}) {
			ins := [][]int{}
			for _, code := range sc { // a digit is one more than the value
				l := []int{}
				for ; code > 0; code /= 10 {
					l = append([]int{code%10 - 1}, l...)
				}
				ins = append(ins, l)
			}
			add(ins, n%len(equalsOf))
		}
		// several pairs of long streams that differ somewhere, or nowhere
		r := rng(*seed, "equals")
		for ; *count > 0; *count-- {
			ins := [][]int{}
			for pairs := 1 + r.Intn(5); pairs > 0; pairs-- {
				a := make([]int, r.Intn(4)*r.Intn(100))
				for x := range a {
					a[x] = r.Intn(100) - 50
				}
				ins = append(ins, a, append([]int{}, a...))
			}
			b := &ins[r.Intn(len(ins))]
			switch k := r.Intn(6); {
			case k < 1:
				*b = append(*b, r.Intn(2))
			case k < 2 && len(*b) > 0:
				*b = (*b)[:len(*b)-1]
			case k < 4 && len(*b) > 0:
				(*b)[r.Intn(len(*b))] += 100
			case k < 5:
				x := r.Intn(len(ins))
				ins[x], *b = *b, ins[x]
			}
			add(ins, r.Intn(len(equalsOf)))
		}
		s := newSink(*out)
		for i, t := range parallel(jobs) {
			t.Id = i
			s.put(t)
		}
		s.close()
		fmt.Println(s.n)
	}
}

type equalsTrace struct {
	Id     int     `json:"id"`
	Kind   string  `json:"kind"`
	P      string  `json:"p"`
	Ins    [][]int `json:"ins"`
	Answer string  `json:"answer"`
}

type pairOf struct{ a, b int }

// equalsOf compares channels of values of several types, one for each number.
var equalsOf = []func([][]int, int) *equalsTrace{
	equalsWith("int", func(x int) int { return x }),
	equalsWith("float64", func(x int) float64 { return float64(x) / 8 }),
	equalsWith("string", func(x int) string { return strings.Repeat("s", max(x, 0)) + strings.Repeat("t", max(-x, 0)) }),
	equalsWith("struct", func(x int) pairOf { return pairOf{x / 10, x % 10} }),
	equalsWith("int64", func(x int) int64 { return int64(x) << 40 }),
}

func equalsWith[T comparable](name string, value func(int) T) func([][]int, int) *equalsTrace {
	return func(ins [][]int, buffer int) *equalsTrace {
		t := &equalsTrace{Kind: "CheckEquals", P: name, Ins: ins}
		var chs []<-chan T
		for _, l := range ins {
			ch := make(chan T, buffer)
			l := l
			go func() {
				defer close(ch)
				for _, v := range l {
					ch <- value(v)
				}
			}()
			chs = append(chs, ch)
		}
		if e := guarded(callLimit, func() {
			if helpertools.CheckEquals(chs...) == nil {
				t.Answer = "equal"
			} else {
				t.Answer = "different"
			}
		}); e != "" {
			t.Answer = e
		}
		for _, ch := range chs {
			go helpertools.Drain(ch)
		}
		return t
	}
}
