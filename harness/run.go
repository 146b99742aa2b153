package main

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

type P map[string]any

func (p P) I(k string) int     { return p[k].(int) }
func (p P) S(k string) string  { return p[k].(string) }
func (p P) B(k string) bool    { return p[k].(bool) }
func (p P) Opt(k string) bool  { b, ok := p[k].(bool); return ok && b }
func (p P) F(k string) float64 { return parseF(p[k].(string)) }

// seconds is the Unix time in whole seconds; no candle has the time of one that
// is not a whole number of them.
func seconds(t time.Time) int64 {
	if t.Nanosecond() != 0 {
		return -1 << 60
	}
	return t.Unix()
}

// guarded runs f with a panic guard and a time limit; "" means it returned.
func guarded(limit time.Duration, f func()) (err string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				st := string(debug.Stack())
				at := ""
				for _, l := range strings.Split(st, "\n") {
					if strings.Contains(l, "/repo/") {
						at = strings.TrimSpace(l)
						break
					}
				}
				done <- fmt.Sprintf("panic: %v at %s", x, at)
				return
			}
			done <- ""
		}()
		f()
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case e := <-done:
		return e
	case <-t.C:
		hung()
		return "timeout"
	}
}

const callLimit = 60 * time.Second

var hangs int64

// hung counts the calls that never returned.  Each goes on using a core, so
// after some of them the rest of the run would be meaningless: the process
// gives up with a status of its own.
func hung() {
	if atomic.AddInt64(&hangs, 1) == 6 {
		var b []byte = make([]byte, 1<<16)
		fmt.Fprintf(os.Stderr, "HANGS: 6 calls have not returned\n%s\n", b[:runtime.Stack(b, true)])
		os.Exit(3)
	}
}

// records flattens what GetData returned: the float fields by name and the times.
func records(data reflect.Value) (rt []int64, cols map[string][]float64, sides []utils.Side) {
	cols = map[string][]float64{}
	n := data.Len()
	et := data.Type().Elem()
	if et.Kind() == reflect.Ptr {
		et = et.Elem()
	}
	for f := 0; f < et.NumField(); f++ {
		if et.Field(f).Type.Kind() == reflect.Float64 {
			cols[et.Field(f).Name] = []float64{}
		}
	}
	for i := 0; i < n; i++ {
		v := data.Index(i)
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		for f := 0; f < et.NumField(); f++ {
			name := et.Field(f).Name
			switch {
			case et.Field(f).Type.Kind() == reflect.Float64:
				cols[name] = append(cols[name], v.Field(f).Float())
			case name == "Time":
				rt = append(rt, seconds(v.Field(f).Interface().(time.Time)))
			case name == "Side":
				sides = append(sides, v.Field(f).Interface().(utils.Side))
			}
		}
	}
	return
}

func getData(obj any) reflect.Value {
	return reflect.ValueOf(obj).MethodByName("GetData").Call(nil)[0]
}
func calculate(obj any) { reflect.ValueOf(obj).MethodByName("Calculation").Call(nil) }

func hasSides(obj any) bool {
	_, ok := obj.(utils.IStrategy)
	return ok
}

func sideStrings(s []utils.Side) []string {
	r := make([]string, len(s))
	for i := range s {
		r[i] = s[i].String()
	}
	return r
}

func copyItem(it *klines.Item) []klines.Candle {
	r := make([]klines.Candle, len(it.Candles))
	for i := range it.Candles {
		r[i] = *it.Candles[i]
	}
	return r
}
func sameItem(it *klines.Item, c []klines.Candle) bool {
	if len(it.Candles) != len(c) {
		return false
	}
	for i := range c {
		if it.Candles[i] == nil || *it.Candles[i] != c[i] {
			return false
		}
	}
	return true
}

// Trace is one observed execution of one indicator or function.
type Trace struct {
	Id    int                 `json:"id"`
	Kind  string              `json:"kind"`
	Class string              `json:"class"`
	P     P                   `json:"p"`
	N     int                 `json:"n"`
	T     []string            `json:"t"`
	O     []string            `json:"o"`
	H     []string            `json:"h"`
	L     []string            `json:"l"`
	C     []string            `json:"c"`
	V     []string            `json:"v"`
	B     []bool              `json:"b"`
	Mp    string              `json:"mp"`
	Mv    string              `json:"mv"`
	Ex    bool                `json:"ex"`
	Rt    []string            `json:"rt"`
	Out   map[string][]string `json:"out"`
	Get   map[string][]string `json:"get"`
	Side  []string            `json:"side"`
	Sided bool                `json:"sided"`
	Aux   map[string]any      `json:"aux"`
	Pure  bool                `json:"pure"`
	Err   string              `json:"err"`
}

func newTrace(id int, kind string, p P, s *Series) *Trace {
	t := &Trace{Id: id, Kind: kind, Class: s.Class, P: p, N: s.Len(), T: iss(s.T), O: fss(s.O), H: fss(s.H), L: fss(s.L), C: fss(s.C),
		V: fss(s.V), B: append([]bool{}, s.B...), Mp: fs(magnitude(s.O, s.H, s.L, s.C)), Mv: fs(magnitude(s.V)), Ex: s.Ex,
		Rt: []string{}, Out: map[string][]string{"_": {}}, Get: map[string][]string{"_": {}}, Side: []string{}, Pure: true,
		Aux: map[string]any{"_": 0}}
	if t.P == nil {
		t.P = P{}
	}
	if _, ok := t.P["_"]; !ok {
		q := P{"_": 0}
		for k, v := range t.P {
			q[k] = v
		}
		t.P = q
	}
	return t
}

func (t *Trace) set(name string, col []float64) { t.Out[name] = fss(col) }

// runKind executes one kind over one series.
func runKind(id int, k *Kind, p P, s *Series, calcFirst bool) *Trace {
	t := newTrace(id, k.Name, p, s)
	e := guarded(callLimit, func() {
		if k.Run != nil {
			k.Run(t, p, s)
			return
		}
		it := s.Item()
		before := copyItem(it)
		obj := k.New(it, p)
		if calcFirst {
			calculate(obj)
		}
		rt, cols, sides := records(getData(obj))
		t.Rt = iss(rt)
		for name, col := range cols {
			t.set(name, col)
		}
		if k.Get != nil {
			for name, col := range k.Get(obj, p) {
				t.Get[name] = fss(col)
			}
		}
		switch {
		case k.Side != nil:
			t.Sided = true
			t.Side = sideStrings(k.Side(t, obj, s))
		case hasSides(obj):
			t.Sided = true
			t.Side = sideStrings(obj.(utils.IStrategy).AnalysisSide().Data)
		case len(sides) > 0 || k.DataSide:
			t.Sided = true
			t.Side = sideStrings(sides)
		}
		if k.After != nil {
			k.After(t, obj, p, s)
		}
		t.Pure = sameItem(it, before)
	})
	t.Err = e
	if e != "" {
		// the run was cut short: log it as it is
		t2 := newTrace(id, k.Name, p, s)
		t2.Err = e
		return t2
	}
	return t
}
