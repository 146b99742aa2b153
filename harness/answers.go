package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

// Answer is what a call returned: its shape and texts, and its numbers.
type Answer struct {
	Ok  bool     `json:"ok"`
	Txt []string `json:"txt"`
	Num []string `json:"num"`
}

func (a *Answer) add(v reflect.Value) {
	switch v.Kind() {
	case reflect.Float64, reflect.Float32:
		a.Num = append(a.Num, fs(v.Float()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		a.Txt = append(a.Txt, fmt.Sprint(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if s, ok := v.Interface().(utils.Side); ok {
			a.Txt = append(a.Txt, s.String())
			return
		}
		a.Txt = append(a.Txt, fmt.Sprint(v.Uint()))
	case reflect.Bool, reflect.String:
		a.Txt = append(a.Txt, fmt.Sprint(v.Interface()))
	case reflect.Ptr:
		if v.IsNil() {
			a.Txt = append(a.Txt, "nil")
			return
		}
		a.add(v.Elem())
	case reflect.Slice, reflect.Array:
		a.Txt = append(a.Txt, fmt.Sprintf("[%d", v.Len()))
		for i := 0; i < v.Len(); i++ {
			a.add(v.Index(i))
		}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			if t.IsZero() {
				a.Txt = append(a.Txt, "never")
			} else {
				a.Txt = append(a.Txt, is(seconds(t)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				a.add(v.Field(i))
			}
		}
	case reflect.Interface:
		a.add(v.Elem())
	case reflect.Invalid:
		a.Txt = append(a.Txt, "nil")
	default: // nothing an answer could be compared by
		panic("an answer holds a " + v.Kind().String())
	}
}

func answerOf(vs ...any) Answer {
	a := Answer{Ok: true, Txt: []string{}, Num: []string{}}
	for _, v := range vs {
		a.add(reflect.ValueOf(v))
	}
	return a
}

func failure(e string) Answer { return Answer{Txt: []string{"failed: " + e}, Num: []string{}} }

// Table gives equal answers the same number, starting from 1.
type Table struct {
	All []Answer
	ids map[string]int
}

func (t *Table) id(a Answer) int {
	if t.ids == nil {
		t.ids = map[string]int{}
		t.All = []Answer{}
	}
	k := strings.Join(a.Txt, "\x00") + "\x01" + strings.Join(a.Num, "\x00")
	if i, ok := t.ids[k]; ok {
		return i
	}
	t.All = append(t.All, a)
	t.ids[k] = len(t.All)
	return len(t.All)
}

// Op is one way of observing an indicator.
type Op struct {
	Name string
	Do   func(obj any, s *Series) Answer
}

// opsOf lists the calls an indicator offers: Calculation first, then the data,
// the signals and the getters.
func opsOf(obj any) []Op {
	t := reflect.TypeOf(obj)
	var names []string
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() == 1 && m.Name != "Clear" && m.Name != "Calculation" {
			names = append(names, m.Name)
		}
	}
	rank := map[string]int{"GetData": -2, "AnalysisSide": -1}
	sort.SliceStable(names, func(i, j int) bool { return rank[names[i]] < rank[names[j]] })
	ops := []Op{{"Calculation", func(o any, s *Series) Answer { calculate(o); return answerOf() }}}
	for _, n := range names {
		name := n
		ops = append(ops, Op{name, func(o any, s *Series) Answer {
			var vs []any
			for _, v := range reflect.ValueOf(o).MethodByName(name).Call(nil) {
				vs = append(vs, v.Interface())
			}
			a := answerOf(vs...)
			if smc, ok := o.(*trend.SmartMoneyConcepts); ok { // published in fields
				b := answerOf(smc.OrderBlockBullish, smc.OrderBlockBearish, smc.StrongHigh, smc.WeakHigh, smc.StrongLow, smc.WeakLow)
				a.Txt, a.Num = append(a.Txt, b.Txt...), append(a.Num, b.Num...)
			}
			return a
		}})
	}
	switch obj.(type) {
	case *trend.Atr:
		for _, n := range []int{2, 5} {
			n := n
			ops = append(ops, Op{fmt.Sprintf("ChandelierExit(%d)", n), func(o any, s *Series) Answer {
				l, sh := o.(*trend.Atr).ChandelierExit(n)
				return answerOf(l, sh)
			}})
		}
	case *oscillator.Camarilla:
		ops = append(ops, Op{"AnalysisSide(item)", func(o any, s *Series) Answer {
			return answerOf(o.(*oscillator.Camarilla).AnalysisSide(dailyOf(s).Item()))
		}})
	}
	return ops
}

// call performs an operation; a panic or a hang is an answer too.
func call(op Op, obj any, s *Series) (a Answer) {
	e := guarded(callLimit, func() { a = op.Do(obj, s) })
	if e != "" {
		return failure(e)
	}
	return a
}

// build makes an indicator; shared, if not nil, is a column view used instead of a private one.
func build(k *Kind, p P, it *klines.Item) (obj any, e string) {
	e = guarded(callLimit, func() { obj = k.New(it, p) })
	return
}
