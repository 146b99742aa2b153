package main

import (
	"math"
	"math/rand"
	"sort"

	"github.com/idoall/stockindicator/utils"
)

// Markets that touch.  A rule is settled by what happens where two published
// numbers meet; random prices hardly ever get there.  steer lets a market walk
// and on some bars looks for the close, high, low or volume that makes two of
// the numbers the indicator publishes equal, or one of them equal to a close
// or to a round threshold: exactly where a price on the grid does it, and
// closely elsewhere.

var thresholds = []float64{0, 0, 0, 10, 20, 30, 50, 70, 80, 90, 100, -20, -80, -100}

const grid = 1 << 14

func onGrid(x float64) float64 { return math.Round(x*grid) / grid }

func steer(k *Kind, p P, r *rand.Rand, n int) *Series {
	s := genUnits(r, 3+r.Intn(6), []string{"walk", "trend", "zigzag", "ties"}[r.Intn(4)])
	s.Class = "touching"
	for _, c := range [][]float64{s.O, s.H, s.L, s.C} {
		for i := range c {
			c[i] = onGrid(c[i]) + 64
		}
	}
	step := s.T[1] - s.T[0]
	last := func() (c float64, t int64) { return s.C[s.Len()-1], s.T[s.Len()-1] + step }
	push := func(q *Series, o, h, l, c, v float64) {
		_, t := last()
		q.add(o, math.Max(h, math.Max(o, c)), math.Min(l, math.Min(o, c)), c, v, t)
	}
	u := math.Max(1, math.Round(s.C[0]/30))
	random := func() (o, h, l, c, v float64) {
		o, _ = last()
		if o > 40*u || o < 4*u+8 {
			c = 20 * u
		} else {
			c = o + float64(r.Intn(9)-4)*u/4
		}
		c = math.Max(onGrid(c), 2)
		return o, math.Max(o, c) + float64(r.Intn(3))*u/8, math.Max(1, math.Min(o, c)-float64(r.Intn(3))*u/8), c, float64(r.Intn(64))
	}
	// the numbers of the last bar
	cols := func(q *Series) (m map[string][]float64) {
		guarded(callLimit, func() {
			data := getData(k.New(q.Item(), p))
			if data.Len() == q.Len() {
				_, m, _ = records(data.Slice(q.Len()-1, q.Len()))
			}
		})
		return
	}
	var names []string
	for c := range cols(s) {
		names = append(names, c)
	}
	sort.Strings(names)
	// what should meet: a number with another, with the close or with a threshold
	type aim struct {
		a, b string
		th   float64
	}
	gap := func(m map[string][]float64, q *Series, t aim) float64 {
		x := math.NaN()
		if len(m[t.a]) == 1 {
			x = m[t.a][0]
		}
		switch {
		case t.b == "close":
			return x - q.C[q.Len()-1]
		case t.b != "" && len(m[t.b]) != 1:
			return math.NaN()
		case t.b != "":
			return x - m[t.b][0]
		}
		return x - t.th
	}
	th := thresholds[r.Intn(len(thresholds))]
	levels := []float64{0, th, -th}
	if th > 0 {
		levels[2] = 100 - th
	}
	var aims []aim
	for i, a := range names {
		for _, b := range append([]string{"close"}, names[i+1:]...) {
			aims = append(aims, aim{a, b, 0})
		}
		for _, th := range levels {
			aims = append(aims, aim{a, "", th}, aim{a, "", th + 0.25 + 0.5*float64(r.Intn(2))}, aim{a, "", th - 0.25 - 0.5*float64(r.Intn(2))})
		}
	}
	keep := r.Intn(2) == 0 // the same two again where they can
	var target aim
	for s.Len() < n {
		o, h, l, c, v := random()
		if len(names) == 0 || r.Intn(3) == 0 {
			push(s, o, h, l, c, v)
			continue
		}
		what := []int{0, 0, 0, 1, 2, 3}[r.Intn(6)]
		look := func(x float64) (m map[string][]float64, q *Series) {
			q = &Series{Class: s.Class, Ex: s.Ex}
			q.O, q.H, q.L, q.C, q.V, q.B, q.T = cp(s.O), cp(s.H), cp(s.L), cp(s.C), cp(s.V), append([]bool{}, s.B...), append([]int64{}, s.T...)
			switch what {
			case 0:
				push(q, o, x+h-math.Max(o, c), math.Max(1, x-(math.Min(o, c)-l)), x, v)
			case 1:
				push(q, o, math.Max(x, c), l, c, v)
			case 2:
				push(q, o, h, math.Max(1, math.Min(x, c)), c, v)
			case 3:
				push(q, o, h, l, c, x)
			}
			return cols(q), q
		}
		try := func(x float64) (float64, *Series) {
			m, q := look(x)
			return gap(m, q, target), q
		}
		// which of them can meet, and between which points
		type meeting struct {
			t              aim
			x0, g0, x1, g1 float64
		}
		const steps = 9
		var xs, before []float64
		var can []meeting
		m0 := cols(s)
		for try := 0; try < 4 && len(can) == 0; try++ {
			if try > 0 {
				what = r.Intn(4)
			}
			lo, hi := math.Max(2, c-6*u), c+6*u
			if what == 3 {
				lo, hi = 0, 256
			}
			for j := 0; j <= steps; j++ {
				x := onGrid(lo + (hi-lo)*float64(j)/steps)
				m, q := look(x)
				now := make([]float64, len(aims))
				for i, t := range aims {
					now[i] = gap(m, q, t)
					if j > 0 && ((now[i] < 0) != (before[i] < 0) || (now[i] == 0) != (before[i] == 0)) && !math.IsNaN(now[i]+before[i]) {
						can = append(can, meeting{t, xs[j-1], before[i], x, now[i]})
					}
				}
				xs, before = append(xs[:j], x), now
			}
		}
		// best where they were apart before
		sort.SliceStable(can, func(i, j int) bool { return (gap(m0, s, can[i].t) != 0) && gap(m0, s, can[j].t) == 0 })
		apart := sort.Search(len(can), func(i int) bool { return gap(m0, s, can[i].t) == 0 })
		if apart > 0 && r.Intn(4) > 0 {
			can = can[:apart]
		}
		var x0, g0, x1, g1 float64
		found := len(can) > 0
		if found {
			m := can[r.Intn(len(can))]
			for _, o := range can {
				if keep && o.t == target {
					m = o
				}
			}
			target, x0, g0, x1, g1 = m.t, m.x0, m.g0, m.x1, m.g1
		}
		if !found {
			push(s, o, h, l, c, v)
			continue
		}
		best := x1
		if g0 == 0 && g1 != 0 {
			best = x0
		}
		for j := 0; j < 24 && g0 != 0 && g1 != 0 && math.Abs(x1-x0) > 1.0/grid; j++ {
			x := onGrid((x0 + x1) / 2)
			if j == 0 || j == 3 { // lines meet where they say they do
				x = onGrid(x0 + (x1-x0)*g0/(g0-g1))
			}
			g, _ := try(x)
			best = x
			if g == 0 || math.IsNaN(g) {
				break
			}
			if (g < 0) == (g0 < 0) {
				x0, g0 = x, g
			} else {
				x1, g1 = x, g
			}
		}
		// between the points of the grid: only to meet exactly
		if r.Intn(2) == 0 {
			a0, b0 := x0, x1
			for j := 0; j < 44 && g0 != 0 && g1 != 0; j++ {
				x := (a0 + b0) / 2
				if j%4 == 0 {
					x = a0 + (b0-a0)*g0/(g0-g1)
				}
				if x <= math.Min(a0, b0) || x >= math.Max(a0, b0) {
					x = (a0 + b0) / 2
				}
				if x == a0 || x == b0 {
					// rounding may let them meet nearby
					for d, y, z := 0, a0, b0; d < 24; d++ {
						y, z = math.Nextafter(y, 0), math.Nextafter(z, math.Inf(1))
						if g, _ := try(y); g == 0 {
							best = y
							break
						}
						if g, _ := try(z); g == 0 {
							best = z
							break
						}
					}
					break
				}
				g, _ := try(x)
				if g == 0 {
					best = x
				}
				if g == 0 || math.IsNaN(g) {
					break
				}
				if (g < 0) == (g0 < 0) {
					a0, g0 = x, g
				} else {
					b0, g1 = x, g
				}
			}
		}
		_, q := try(best)
		*s = *q
		// and on, or back
		if r.Intn(2) == 0 {
			o, _ = last()
			d := u * float64(r.Intn(5)-2) / 2
			push(s, o, o, o, math.Max(2, onGrid(o+d)), float64(r.Intn(64)))
		}
	}
	for i := range s.B {
		if s.V[i] < 0 {
			s.V[i] = 0
		}
	}
	return s
}

// touchParams prefers periods whose smoothing factors are binary fractions.
func touchParams(k *Kind, r *rand.Rand) P {
	p := k.Params(r)
	if r.Intn(4) == 0 {
		return p
	}
	var names []string
	for n := range p {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if i, ok := p[n].(int); ok && i > 0 && i <= 40 {
			p[n] = pick(r, 3, 3, 7, 1, 15, 2)
			if i >= 2 && p[n] == 1 {
				p[n] = 3
			}
		}
	}
	return p
}

// steerable reports whether the kind publishes signals with its numbers.
func steerable(k *Kind) bool {
	if k.New == nil || k.Name == "SMC" {
		return false
	}
	ok := k.DataSide || k.Side != nil
	guarded(callLimit, func() {
		_, isStrategy := k.New((&Series{}).Item(), k.Params(rand.New(rand.NewSource(1)))).(utils.IStrategy)
		ok = ok || isStrategy
	})
	return ok
}
