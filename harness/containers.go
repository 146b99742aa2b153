package main

import (
	"flag"
	"fmt"
	"reflect"
	"time"

	"github.com/idoall/stockindicator/container"
	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/container/queue"
)

type TreeCall struct {
	Op  string `json:"op"`
	V   int    `json:"v"`
	Ok  bool   `json:"ok"`
	Min int    `json:"min"`
	Max int    `json:"max"`
	Err string `json:"err"`
}
type QueueCall struct {
	Op    string `json:"op"`
	V     int    `json:"v"`
	Got   int    `json:"got"`
	Empty bool   `json:"empty"`
	Err   string `json:"err"`
}
type CallTrace[C any] struct {
	Id    int    `json:"id"`
	Kind  string `json:"kind"`
	P     string `json:"p"`
	Calls []C    `json:"calls"`
}

// ranked is a value with an order of its own; two of the same rank are equal
// in order but distinguishable.
type ranked struct {
	rank int
	tag  string
}

func (r ranked) Compare(o container.Comparable) int {
	d := r.rank - o.(ranked).rank
	switch {
	case d < 0:
		return -1
	case d > 0:
		return 1
	}
	return 0
}

// the number v of the model as a value of each comparable type, and back
var treeTypes = []struct {
	name string
	to   func(v int) any
	from func(x any) int
}{
	{"float64", func(v int) any { return float64(v)*1.25 - 4 }, func(x any) int { return int((x.(float64) + 4) / 1.25) }},
	{"int64", func(v int) any { return int64(v) - 3 }, func(x any) int { return int(x.(int64)) + 3 }},
	{"Comparable", func(v int) any { return ranked{v, fmt.Sprint("#", v)} }, func(x any) int { return x.(ranked).rank }},
	{"float64 close together", func(v int) any { return 1 + float64(v)*1e-12 }, func(x any) int { return int((x.(float64)-1)*1e12 + 0.5) }},
	{"int64 large", func(v int) any { return int64(1)<<53 + int64(v) }, func(x any) int { return int(x.(int64) - int64(1)<<53) }},
}

func runTree(script []int, ty int, bulk bool) []TreeCall {
	tt := treeTypes[ty]
	var calls []TreeCall
	var t *bst.Tree
	stop := false
	num := func(x any) int {
		if x == nil {
			return 0
		}
		return tt.from(x)
	}
	do := func(op string, v int, f func() bool) bool {
		c := TreeCall{Op: op, V: v}
		c.Err = guarded(callLimit, func() {
			c.Ok = f()
			c.Min, c.Max = num(t.Min()), num(t.Max())
		})
		stop = stop || c.Err != ""
		calls = append(calls, c)
		return c.Ok
	}
	do("new", 0, func() bool { t = bst.New(); return true })
	top := 0
	for i := 0; i < len(script) && !stop; i++ {
		v := script[i]
		top = max(top, v, -v)
		switch {
		case v > 0 && bulk && ty == 0 && (i == 0 || len(script)%3 > 0):
			// a run of inserts at once; the model sees them one by one,
			// so only the last of them is checked for what the tree shows
			j := i
			var vs, given []float64
			for j < len(script) && script[j] > 0 {
				vs = append(vs, tt.to(script[j]).(float64))
				top = max(top, script[j])
				j++
			}
			given = cp(vs)
			lo, hi := 1<<30, 0
			if m, any := t.Min().(float64); any {
				lo, hi = tt.from(m), tt.from(t.Max())
			}
			e := guarded(callLimit, func() {
				if t.Inserts(vs) != t {
					panic("another tree")
				}
			})
			if e == "" && !reflect.DeepEqual(vs, given) {
				e = "changed its argument"
			}
			if e != "" {
				calls = append(calls, TreeCall{Op: "insert", V: v, Err: e})
				return calls
			}
			for ; i < j-1; i++ {
				lo, hi = min(lo, script[i]), max(hi, script[i])
				calls = append(calls, TreeCall{Op: "insert", V: script[i], Ok: true, Min: lo, Max: hi})
			}
			do("insert", script[i], func() bool { return true })
		case v > 0:
			do("insert", v, func() bool { t.Insert(tt.to(v)); return true })
		default:
			do("remove", -v, func() bool { return t.Remove(tt.to(-v)) })
		}
	}
	for v := 1; v <= top && !stop; v++ {
		w := v
		if len(script)%2 == 0 {
			w = top + 1 - v
		}
		for n := 0; n < len(script)+2 && !stop && do("remove", w, func() bool { return t.Remove(tt.to(w)) }); n++ {
		}
	}
	return calls
}

func runQueue(script []int, ty int) []QueueCall {
	to := func(v int) any {
		switch {
		case v == 0:
			return nil
		case ty == 0:
			return v
		case ty == 1:
			return fmt.Sprint("v", v)
		}
		return []int{v}
	}
	from := func(x any) int {
		switch y := x.(type) {
		case nil:
			return 0
		case int:
			return y
		case string:
			n := 0
			fmt.Sscanf(y, "v%d", &n)
			return n
		case []int:
			return y[0]
		}
		return -9
	}
	q := queue.New()
	var calls []QueueCall
	do := func(v int) int {
		c := QueueCall{Got: -1}
		c.Err = guarded(5*time.Second, func() {
			switch v {
			case -2:
				c.Op = "empty"
				c.Empty = q.Empty()
			case -1:
				c.Op = "dequeue"
				func() {
					defer func() { recover() }()
					c.Got = from(q.Dequeue())
				}()
			default:
				c.Op, c.V = "enqueue", v
				q.Enqueue(to(v))
			}
		})
		calls = append(calls, c)
		return c.Got
	}
	for _, v := range script {
		do(v)
	}
	do(-2)
	for i := 0; i <= len(script); i++ { // what is left, and one refusal more
		do(-1)
		do(-2)
	}
	return calls
}

func init() {
	modes["tree"] = func(args []string) {
		fl := flag.NewFlagSet("tree", flag.ExitOnError)
		scripts := fl.String("scripts", "", "")
		types := fl.Int("types", 2, "value types per script")
		out := fl.String("out", "", "")
		fl.Parse(args)
		s := newSink(*out)
		for i, sc := range readLines[[]int](*scripts) {
			for j := 0; j < *types; j++ {
				ty := (i + j) % len(treeTypes)
				s.put(CallTrace[TreeCall]{s.n, "tree", treeTypes[ty].name, runTree(sc, ty, i%2 == 0)})
			}
		}
		s.close()
		fmt.Println(s.n)
	}
	modes["queue"] = func(args []string) {
		fl := flag.NewFlagSet("queue", flag.ExitOnError)
		scripts := fl.String("scripts", "", "")
		out := fl.String("out", "", "")
		fl.Parse(args)
		s := newSink(*out)
		for i, sc := range readLines[[]int](*scripts) {
			s.put(CallTrace[QueueCall]{s.n, "queue", fmt.Sprint(i % 3), runQueue(sc, i%3)})
		}
		s.close()
		fmt.Println(s.n)
	}
}
