package main

import (
	"math/rand"
	"reflect"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/ta"
)

// The list functions.  Their inputs are columns of a series; args are checked
// for being left alone.

type fn func(p P, s *Series) map[string][]float64

// list registers a function whose results are columns aligned with the input.
func list(group, name string, params func(r *rand.Rand) P, f fn) *Kind {
	k := &Kind{Name: name, Group: group, Params: params}
	switch group {
	case "C05", "C06", "C07":
		k.Gen = genAny
	}
	k.Run = func(t *Trace, p P, s *Series) {
		a := &Series{O: cp(s.O), H: cp(s.H), L: cp(s.L), C: cp(s.C), V: cp(s.V)}
		b := &Series{O: cp(s.O), H: cp(s.H), L: cp(s.L), C: cp(s.C), V: cp(s.V)}
		for name, c := range f(p, a) {
			t.set(name, c)
		}
		t.Rt = t.T
		t.Pure = reflect.DeepEqual(a, b)
	}
	reg(k)
	return k
}
func cp(x []float64) []float64 { return append(make([]float64, 0, len(x)), x...) }

// prefixes registers a function of a whole list, called on every prefix.
func prefixes(group, name string, params func(r *rand.Rand) P, from int, f func(p P, s *Series) map[string]float64) *Kind {
	return list(group, name, params, func(p P, s *Series) map[string][]float64 {
		out := map[string][]float64{}
		for i := 1; i <= s.Len(); i++ {
			if i < from {
				continue
			}
			for n, v := range f(p, &Series{O: s.O[:i], H: s.H[:i], L: s.L[:i], C: s.C[:i], V: s.V[:i]}) {
				for len(out[n]) < i-1 {
					out[n] = append(out[n], 0)
				}
				out[n] = append(out[n], v)
			}
		}
		return out
	})
}

func val(v []float64) map[string][]float64 { return map[string][]float64{"Value": v} }

func bool01(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// genLists makes free-form number lists in the columns: o, c any sign, with
// repeats and zeros; all on a dyadic grid.
func genLists(r *rand.Rand, n int, class string) *Series {
	s := &Series{Class: "lists", Ex: true}
	m := []int{2, 5, 40, 2000}[r.Intn(4)]
	d := []float64{1, 2, 4, 8}[r.Intn(4)]
	for i := 0; i < n; i++ {
		f := func() float64 { return float64(r.Intn(2*m+1)-m) / d }
		s.add(f(), f(), f(), f(), float64(r.Intn(2*m+1)-m)/d, int64(i))
	}
	return s
}

// genAny: prices or any numbers, for functions that are defined on both.
func genAny(r *rand.Rand, n int, class string) *Series {
	if r.Intn(2) == 0 {
		return genLists(r, n, class)
	}
	return genSeries(r, n, class)
}

// genXY: strictly increasing x in o, y in c (sometimes exactly on a line).
func genXY(r *rand.Rand, n int, class string) *Series {
	s := genLists(r, n, class)
	s.Class = "xy"
	x := float64(r.Intn(9) - 4)
	line := r.Intn(3) == 0
	a, b := float64(r.Intn(17)-8)/4, float64(r.Intn(33)-16)
	for i := range s.O {
		s.O[i] = x
		if line {
			s.C[i] = a*x + b
		}
		x += float64(1 + r.Intn(3))
	}
	return s
}

// genLine: closes exactly on a line.
func genLine(r *rand.Rand, n int, class string) *Series {
	if r.Intn(4) > 0 {
		return genSeries(r, n, class)
	}
	s := genSeries(r, n, "walk")
	a, b := float64(r.Intn(17)-8)/4, float64(r.Intn(100)+200)
	for i := range s.C {
		s.C[i] = a*float64(i) + b
	}
	s.Class = "line"
	return s
}

func init() {
	p1 := period
	// C05
	list("C05", "ta.Sma", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Sma(p.I("Period"), s.C)) })
	list("C05", "ta.MA", p1, func(p P, s *Series) map[string][]float64 { return val(ta.MA(s.C, p.I("Period"))) })
	list("C05", "ta.Ema", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Ema(p.I("Period"), s.C)) })
	list("C05", "ta.Dema", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Dema(p.I("Period"), s.C)) })
	list("C05", "ta.Rma", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Rma(p.I("Period"), s.C)) })
	list("C05", "ta.Wma", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Wma(p.I("Period"), s.C)) })
	// C06
	list("C06", "ta.Max", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Max(p.I("Period"), s.C)) })
	list("C06", "ta.Min", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Min(p.I("Period"), s.C)) })
	prefixes("C06", "ta.Highest", p1, 1, func(p P, s *Series) map[string]float64 {
		return map[string]float64{"Value": ta.Highest(s.C, p.I("Period"))}
	})
	prefixes("C06", "ta.Lowest", p1, 1, func(p P, s *Series) map[string]float64 {
		return map[string]float64{"Value": ta.Lowest(s.C, p.I("Period"))}
	})
	lr := func(r *rand.Rand) P { return P{"Left": r.Intn(5), "Right": r.Intn(5)} }
	list("C06", "ta.PivotHigh", lr, func(p P, s *Series) map[string][]float64 {
		return val(ta.PivotHigh(s.C, p.I("Left"), p.I("Right")))
	})
	list("C06", "ta.PivotLow", lr, func(p P, s *Series) map[string][]float64 {
		return val(ta.PivotLow(s.C, p.I("Left"), p.I("Right")))
	})
	far := func(f func(values []float64, index, left, right int) (float64, int)) fn {
		return func(p P, s *Series) map[string][]float64 {
			v, at := make([]float64, s.Len()), make([]float64, s.Len())
			for i := range v {
				x, k := f(s.C, i, p.I("Left"), p.I("Right"))
				v[i], at[i] = x, float64(k)
			}
			return map[string][]float64{"Value": v, "Position": at}
		}
	}
	list("C06", "ta.PivotMax", lr, far(ta.PivotMax))
	list("C06", "ta.PivotMin", lr, far(ta.PivotMin))
	// C07
	list("C07", "ta.TRange", none, func(p P, s *Series) map[string][]float64 { return val(ta.TRange(s.H, s.L, s.C)) })
	list("C07", "ta.TrueRange", none, func(p P, s *Series) map[string][]float64 { return val(ta.TrueRange(s.H, s.L, s.C)) })
	list("C07", "ta.Atr", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Atr(s.H, s.L, s.C, p.I("Period"))) })
	list("C07", "ta.Natr", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Natr(s.H, s.L, s.C, p.I("Period"))) })
	prefixes("C07", "ta.SD", none, 1, func(p P, s *Series) map[string]float64 { return map[string]float64{"Value": ta.SD(s.C)} })
	list("C07", "ta.Variance", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Variance(s.C, p.I("Period"))) })
	list("C07", "ta.StdDev", func(r *rand.Rand) P {
		return P{"Period": per(r), "Dev": []string{"1", "2", "0.5", "3"}[r.Intn(4)]}
	}, func(p P, s *Series) map[string][]float64 { return val(ta.StdDev(s.C, p.I("Period"), p.F("Dev"))) })
	list("C07", "ta.Dev", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Dev(s.C, p.I("Period"))) })
	list("C07", "ta.MeanDeviation", p1, func(p P, s *Series) map[string][]float64 {
		return val(ta.MeanDeviation(s.C, p.I("Period"), s.O))
	})
	// C08
	list("C08", "ta.CCI", func(r *rand.Rand) P { return P{"Period": per2(r), "SmaPeriod": per2(r)} },
		func(p P, s *Series) map[string][]float64 { return val(ta.CCI(s.C, p.I("Period"), p.I("SmaPeriod"))) })
	list("C08", "ta.AiCoinCCI", func(r *rand.Rand) P {
		return P{"Period": per2(r), "Factor": []string{"0.015", "0.5", "0.03", "2"}[r.Intn(4)]}
	},
		func(p P, s *Series) map[string][]float64 { return val(ta.AiCoinCCI(s.C, p.I("Period"), p.F("Factor"))) })
	list("C08", "ta.Stochastic", p1, func(p P, s *Series) map[string][]float64 {
		k, d := ta.Stochastic(s.C, s.H, s.L, p.I("Period"))
		return map[string][]float64{"K": k, "D": d}
	})
	list("C08", "ComputeCCI", none, func(p P, s *Series) map[string][]float64 { return val(trend.ComputeCCI(s.C, s.O, s.V)) }).Gen = genLists
	// C25
	list("C25", "ta.LinearReg", func(r *rand.Rand) P { return P{"Period": per2(r)} },
		func(p P, s *Series) map[string][]float64 { return val(ta.LinearReg(s.C, p.I("Period"))) }).Gen = genLine
	list("C25", "ta.LinearRegSlope", func(r *rand.Rand) P { return P{"Period": per2(r)} },
		func(p P, s *Series) map[string][]float64 { return val(ta.LinearRegSlope(s.C, p.I("Period"))) }).Gen = genLine
	list("C25", "ta.LinearRegIntercept", func(r *rand.Rand) P { return P{"Period": per2(r)} },
		func(p P, s *Series) map[string][]float64 { return val(ta.LinearRegIntercept(s.C, p.I("Period"))) }).Gen = genLine
	list("C25", "ta.LinearRegAngle", func(r *rand.Rand) P { return P{"Period": per2(r)} },
		func(p P, s *Series) map[string][]float64 { return val(ta.LinearRegAngle(s.C, p.I("Period"))) }).Gen = genLine
	sc := func(r *rand.Rand) P { return P{"Scale": "1000"} }
	scp := func(r *rand.Rand) P { return P{"Scale": "1000", "Period": per(r)} }
	prefixes("C25", "LeastSquare", sc, 2, func(p P, s *Series) map[string]float64 {
		m, b := utils.LeastSquare(s.O, s.C)
		return map[string]float64{"M": m, "B": b}
	}).Gen = genXY
	list("C25", "MovingLeastSquare", scp, func(p P, s *Series) map[string][]float64 {
		m, b := utils.MovingLeastSquare(p.I("Period"), s.O, s.C)
		return map[string][]float64{"M": m, "B": b}
	}).Gen = genXY
	prefixes("C25", "LinearRegressionUsingLeastSquare", sc, 2, func(p P, s *Series) map[string]float64 {
		r := utils.LinearRegressionUsingLeastSquare(s.O, s.C)
		return map[string]float64{"Value": r[len(r)-1], "First": r[0], "Len": float64(len(r))}
	}).Gen = genXY
	list("C25", "MovingLinearRegressionUsingLeastSquare", scp, func(p P, s *Series) map[string][]float64 {
		return val(utils.MovingLinearRegressionUsingLeastSquare(p.I("Period"), s.O, s.C))
	}).Gen = genXY

	// C27
	by := func(r *rand.Rand) P {
		return P{"By": []string{"2", "-3", "0.5", "0", "10", "-1"}[r.Intn(6)]}
	}
	byNZ := func(r *rand.Rand) P { return P{"By": []string{"2", "-3", "0.5", "10", "-8"}[r.Intn(5)]} }
	sh := func(r *rand.Rand) P { return P{"Period": r.Intn(9), "Fill": []string{"0", "7", "-2.5"}[r.Intn(3)]} }
	l := func(name string, params func(r *rand.Rand) P, f fn) *Kind {
		k := list("C27", name, params, f)
		k.Gen = genLists
		return k
	}
	l("Add", none, func(p P, s *Series) map[string][]float64 { return val(ta.Add(s.C, s.O)) })
	l("AddBy", by, func(p P, s *Series) map[string][]float64 { return val(ta.AddBy(s.C, p.F("By"))) })
	l("Subtract", none, func(p P, s *Series) map[string][]float64 { return val(ta.Subtract(s.C, s.O)) })
	l("Multiply", none, func(p P, s *Series) map[string][]float64 { return val(ta.Multiply(s.C, s.O)) })
	l("MultiplyBy", by, func(p P, s *Series) map[string][]float64 { return val(ta.MultiplyBy(s.C, p.F("By"))) })
	l("Divide", none, func(p P, s *Series) map[string][]float64 { return val(ta.Divide(s.C, s.O)) })
	l("DivideBy", byNZ, func(p P, s *Series) map[string][]float64 { return val(ta.DivideBy(s.C, p.F("By"))) })
	l("Diff", sh, func(p P, s *Series) map[string][]float64 { return val(ta.Diff(s.C, p.I("Period"))) })
	list("C27", "PercentDiff", sh, func(p P, s *Series) map[string][]float64 { return val(ta.PercentDiff(s.C, p.I("Period"))) })
	l("ShiftRight", sh, func(p P, s *Series) map[string][]float64 { return val(ta.ShiftRight(p.I("Period"), s.C)) })
	l("ShiftRightAndFillBy", sh, func(p P, s *Series) map[string][]float64 {
		return val(ta.ShiftRightAndFillBy(p.I("Period"), p.F("Fill"), s.C))
	})
	dig := func(r *rand.Rand) P { return P{"Digits": r.Intn(4)} }
	l("RoundDigits", dig, func(p P, s *Series) map[string][]float64 {
		r := make([]float64, s.Len())
		for i := range r {
			r[i] = ta.RoundDigits(s.C[i], p.I("Digits"))
		}
		return val(r)
	})
	l("RoundDigitsAll", dig, func(p P, s *Series) map[string][]float64 { return val(ta.RoundDigitsAll(s.C, p.I("Digits"))) })
	// GenerateNumbers(begin, end, step): the series only gives the length
	reg(&Kind{Name: "GenerateNumbers", Group: "C27", Gen: genLists, Params: func(r *rand.Rand) P {
		return P{"Begin": fs(float64(r.Intn(41)-20) / 4), "Step": []string{"1", "0.5", "0.25", "2", "-1", "3"}[r.Intn(6)]}
	}, Run: func(t *Trace, p P, s *Series) {
		n := s.Len()
		b, st := p.F("Begin"), p.F("Step")
		t.set("Value", ta.GenerateNumbers(b, b+st*float64(n), st))
		t.Rt = t.T
	}})
	l("Pow", func(r *rand.Rand) P { return P{"Exp": r.Intn(4)} }, func(p P, s *Series) map[string][]float64 {
		return val(ta.Pow(s.C, float64(p.I("Exp"))))
	})
	l("ExtractSign", none, func(p P, s *Series) map[string][]float64 { return val(ta.ExtractSign(s.C)) })
	l("KeepPositives", none, func(p P, s *Series) map[string][]float64 { return val(ta.KeepPositives(s.C)) })
	l("KeepNegatives", none, func(p P, s *Series) map[string][]float64 { return val(ta.KeepNegatives(s.C)) })
	l("Sum", p1, func(p P, s *Series) map[string][]float64 { return val(ta.Sum(p.I("Period"), s.C)) })
	list("C27", "Sqrt", none, func(p P, s *Series) map[string][]float64 { return val(ta.Sqrt(s.C)) })
	l("Abs", none, func(p P, s *Series) map[string][]float64 { return val(ta.Abs(s.C)) })
	pf := func(name string, from int, f func(p P, s *Series) map[string]float64) {
		prefixes("C27", name, none, from, f).Gen = genLists
	}
	pf("Cum", 1, func(p P, s *Series) map[string]float64 { return map[string]float64{"Value": ta.Cum(s.C)} })
	pf("Mean", 1, func(p P, s *Series) map[string]float64 { return map[string]float64{"Value": ta.Mean(s.C)} })
	prefixes("C27", "Cross", func(r *rand.Rand) P { return P{"At": []string{"0", "1", "-0.5"}[r.Intn(3)]} }, 2,
		func(p P, s *Series) map[string]float64 {
			return map[string]float64{"Over": bool01(ta.CrossOver(s.C, p.F("At"))), "Under": bool01(ta.CrossUnder(s.C, p.F("At")))}
		}).Gen = genLists
}
