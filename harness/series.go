package main

import (
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/idoall/stockindicator/utils/klines"
)

// Series is a market: the columns of a list of candles.
type Series struct {
	Class      string
	O, H, L, C []float64
	V          []float64
	B          []bool
	T          []int64
	Ex         bool // sums and differences of the columns are exact in float64
}

func (s *Series) Len() int { return len(s.C) }

func (s *Series) Head(n int) *Series {
	if n > s.Len() {
		n = s.Len()
	}
	return &Series{Class: s.Class, O: s.O[:n], H: s.H[:n], L: s.L[:n], C: s.C[:n], V: s.V[:n], B: s.B[:n], T: s.T[:n], Ex: s.Ex}
}

func (s *Series) add(o, h, l, c, v float64, t int64) {
	s.O = append(s.O, o)
	s.H = append(s.H, h)
	s.L = append(s.L, l)
	s.C = append(s.C, c)
	s.V = append(s.V, v)
	s.B = append(s.B, c > o)
	s.T = append(s.T, t)
}

// disorder sometimes lists the candles out of order or twice, with flags of
// their own: nobody may sort, drop or correct them.
func (s *Series) disorder(r *rand.Rand) {
	n := s.Len()
	if n < 2 {
		return
	}
	switch r.Intn(6) {
	case 0:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			s.T[i], s.T[j] = s.T[j], s.T[i]
		}
	case 1:
		i, j := r.Intn(n), r.Intn(n)
		s.T[i], s.T[j] = s.T[j], s.T[i]
	case 2:
		s.T[1+r.Intn(n-1)] = s.T[0]
	case 3:
		s.flags(r)
	}
}

// flags turns some of the directions around, as when they are relative to
// the previous close.
func (s *Series) flags(r *rand.Rand) {
	for i := range s.B {
		if r.Intn(4) == 0 {
			s.B[i] = !s.B[i]
		}
	}
}

// Item builds a fresh candle list.
func (s *Series) Item() *klines.Item {
	it := &klines.Item{Exchange: "x", Symbol: "s", Code: "c", Interval: klines.OneMin}
	it.Candles = make([]*klines.Candle, s.Len())
	for i := range it.Candles {
		it.Candles[i] = &klines.Candle{Open: s.O[i], High: s.H[i], Low: s.L[i], Close: s.C[i], Volume: s.V[i],
			IsBullMarket: s.B[i], TimeUnix: s.T[i], ChangePercent: (s.C[i] - s.O[i]) / s.O[i], Amount: s.V[i] * s.C[i], Count: int64(i)}
	}
	return it
}

func maxAbs(cols ...[]float64) float64 {
	m := 0.0
	for _, c := range cols {
		for _, x := range c {
			m = math.Max(m, math.Abs(x))
		}
	}
	return m
}

// magnitude is the largest absolute value, 1 if all are zero.
func magnitude(cols ...[]float64) float64 {
	if m := maxAbs(cols...); m > 0 {
		return m
	}
	return 1
}

var seriesClasses = []string{"walk", "ties", "flat", "gaps", "trend", "doji", "zigzag", "jump", "spiky", "inside", "decimal", "decflat"}
var degenerateClasses = []string{"const", "flat", "zerovol", "flatwalk", "doji", "ties", "recover", "highclose", "decflat", "alternate"}

// genSeries makes n valid candles of the given class, at one of several
// magnitudes of price and volume.
func genSeries(r *rand.Rand, n int, class string) *Series {
	s := genUnits(r, n, class)
	if s.Ex && r.Intn(4) == 0 {
		f := math.Ldexp(1, []int{-40, -27, -18, -14, -11, -9, -6, 8, 15, 26, 38}[r.Intn(11)])
		for _, c := range [][]float64{s.O, s.H, s.L, s.C} {
			for i := range c {
				c[i] *= f
			}
		}
	}
	if s.Ex && r.Intn(8) == 0 {
		f := math.Ldexp(1, []int{-8, 12, 22, 30}[r.Intn(4)])
		for i := range s.V {
			s.V[i] *= f
		}
	}
	return s
}

func genUnits(r *rand.Rand, n int, class string) *Series {
	s := &Series{Class: class, Ex: true}
	dec := class == "decimal" || class == "decflat"
	k := r.Intn(6)
	unit := 3.0 / float64(int(1)<<k)
	if dec {
		s.Ex = false
		unit = math.Pow(10, -float64(1+r.Intn(4)))
	}
	px := func(u int) float64 {
		if dec {
			x, _ := strconv.ParseFloat(strconv.FormatFloat(float64(u)*unit, 'f', 5, 64), 64)
			return x
		}
		return float64(u) * unit
	}
	base := 40 + r.Intn(400)
	if dec {
		base = 1000 + r.Intn(9000)
	}
	t := int64(1600000000) + int64(r.Intn(30000000))
	step := []int64{60, 300, 900, 3600, 21600, 86400}[r.Intn(6)]
	cur := base
	flatLeft, dir, runLeft := 0, 1, 0
	mode := r.Intn(3)
	irregular := r.Intn(4) == 0
	lastVol := float64(r.Intn(1000))
	zeroVolLeft := 0
	up, legs := r.Intn(2) == 0, 0 // class swings: a rise, and the legs of it that are left
	if class == "swings" {
		base += 600
		cur = base
	}
	rangeOf := 1 + r.Intn(12)
	if dec {
		rangeOf = 1 + r.Intn(300)
	}
	for i := 0; i < n; i++ {
		o, h, l, c := cur, cur, cur, cur
		rnd := func(m int) int { return r.Intn(m + 1) }
		wick := func() {
			h = max(o, c) + rnd(rangeOf)
			l = min(o, c) - rnd(rangeOf)
			if r.Intn(4) == 0 {
				h = max(o, c)
			}
			if r.Intn(4) == 0 {
				l = min(o, c)
			}
		}
		vol := float64(r.Intn(1000))
		switch class {
		case "walk", "decimal", "zerovol":
			c = o + rnd(2*rangeOf) - rangeOf
			wick()
		case "ties":
			lo := base
			o, c = lo+r.Intn(3), lo+r.Intn(3)
			h = max(o, c) + r.Intn(2)
			l = min(o, c) - r.Intn(2)
			vol = float64(r.Intn(3))
		case "flat", "decflat", "recover", "flatwalk":
			if flatLeft > 0 {
				flatLeft--
				if mode > 0 || class == "recover" {
					vol = 0
				}
			} else {
				c = o + rnd(2*rangeOf) - rangeOf
				wick()
				if r.Intn(6) == 0 {
					flatLeft = 1 + r.Intn(12)
				}
			}
			if i == 0 && class == "recover" {
				flatLeft = n/2 + 2
				o, h, l, c = cur, cur, cur, cur
				vol = 0
			}
		case "const":
			if mode == 0 {
				vol = 0
			}
		case "gaps":
			o = cur + rnd(8*rangeOf) - 4*rangeOf
			c = o + rnd(2*rangeOf) - rangeOf
			wick()
		case "trend":
			if runLeft == 0 {
				runLeft = 3 + r.Intn(18)
				dir = -dir
			}
			runLeft--
			c = o + dir*rnd(2*rangeOf)
			wick()
		case "zigzag":
			if runLeft == 0 {
				runLeft = 1 + r.Intn(6)
				dir = -dir
			}
			runLeft--
			c = o + dir*(1+rnd(2*rangeOf))
			wick()
		case "swings":
			// rises and falls of several legs, each with a retreat, and then a turn
			// that crosses the levels of many legs at once
			if runLeft == 0 {
				if legs == 0 {
					up, legs = !up, 2*(1+r.Intn(6))
				}
				legs--
				dir = 1
				if (legs%2 == 1) != up {
					dir = -1
				}
				runLeft = 5 + r.Intn(9)
			}
			runLeft--
			c = o + dir*rnd(rangeOf+2)
			if (dir > 0) == up { // with the rise, or with the fall
				c += dir * (1 + rnd(rangeOf))
			}
			if r.Intn(15) == 0 {
				c = o - dir*rnd(8*rangeOf)
			}
			h = max(o, c) + rnd(rangeOf)
			l = min(o, c) - rnd(rangeOf)
		case "doji":
			o = cur + rnd(2*rangeOf) - rangeOf
			c, h, l = o, o, o
			if r.Intn(5) == 0 {
				c = o + rnd(4) - 2
				wick()
			}
		case "jump":
			if r.Intn(12) == 0 {
				o = base * (1 + r.Intn(40)) / (1 + r.Intn(4))
			}
			c = o + rnd(2*rangeOf) - rangeOf
			wick()
		case "spiky":
			c = o + rnd(2) - 1
			h = max(o, c) + rnd(1)
			l = min(o, c) - rnd(1)
			if r.Intn(5) == 0 {
				h += rnd(10 * rangeOf)
			}
			if r.Intn(5) == 0 {
				l -= rnd(5 * rangeOf)
			}
			if r.Intn(8) == 0 {
				vol *= 1000
			}
		case "inside":
			// ranges shrink and widen around one level
			w := 1 + (i*7)%13
			o = base + rnd(w) - w/2
			c = base + rnd(w) - w/2
			h = max(o, c) + w
			l = min(o, c) - w
		case "highclose":
			c = o + rnd(2*rangeOf) - rangeOf
			h, l = max(o, c), min(o, c)
			if mode == 0 {
				c = h
			} else if mode == 1 {
				c = l
			}
		case "alternate":
			if i%2 == 0 {
				o, c = base, base+1
			} else {
				o, c = base+1, base
			}
			h, l = max(o, c), min(o, c)
		}
		if zeroVolLeft > 0 {
			zeroVolLeft--
			vol = 0
		} else if r.Intn(25) == 0 {
			zeroVolLeft = r.Intn(14)
		}
		if class == "zerovol" {
			vol = 0
			if mode == 1 && i > n/2 {
				vol = float64(r.Intn(50))
			}
		}
		if r.Intn(6) == 0 {
			vol = lastVol
		}
		lastVol = vol // in whole units
		// keep prices positive
		if l < 4 {
			up := 4 - l + r.Intn(base)
			o, h, l, c = o+up, h+up, l+up, c+up
		}
		cur = c
		if r.Intn(10) == 0 && (class == "walk" || class == "trend") {
			cur += r.Intn(2*rangeOf+1) - rangeOf
		}
		if dec { // volumes come with decimals too
			vol, _ = strconv.ParseFloat(strconv.FormatFloat(vol/1000, 'f', 3, 64), 64)
		}
		s.add(px(o), px(h), px(l), px(c), vol, t)
		t += step
		if irregular {
			t += int64(r.Intn(7)) * 30
		}
	}
	return s
}

// fs is a decimal that parses back to x: all of its digits when x is a short
// binary fraction, the shortest one otherwise.
func fs(x float64) string {
	switch {
	case math.IsNaN(x):
		return "NaN"
	case math.IsInf(x, 1):
		return "Inf"
	case math.IsInf(x, -1):
		return "-Inf"
	}
	if y := x * (1 << 40); math.Abs(x) < 1<<40 && y == math.Trunc(y) && x != math.Trunc(x) {
		return strings.TrimRight(strconv.FormatFloat(x, 'f', 40, 64), "0")
	}
	if m, e := math.Frexp(x); e < 0 && e > -60 && m*(1<<20) == math.Trunc(m*(1<<20)) {
		digits, exp, _ := strings.Cut(strconv.FormatFloat(x, 'e', 60, 64), "e")
		return strings.TrimRight(digits, "0") + "0e" + exp
	}
	return strconv.FormatFloat(x, 'g', -1, 64)
}
func fss(xs []float64) []string {
	r := make([]string, len(xs))
	for i, x := range xs {
		r[i] = fs(x)
	}
	return r
}
func is(x int64) string { return strconv.FormatInt(x, 10) }
func iss(xs []int64) []string {
	r := make([]string, len(xs))
	for i, x := range xs {
		r[i] = is(x)
	}
	return r
}
