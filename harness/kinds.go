package main

import (
	"math/rand"
	"strconv"
	"time"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

// Kind is one indicator or library function, as the specification names it.
type Kind struct {
	Name     string
	Group    string // property that defines its values
	Params   func(r *rand.Rand) P
	Default  P // what NewDefault is documented to configure, nil if there is none
	New      func(it *klines.Item, p P) any
	NewDef   func(it *klines.Item) any
	Get      func(obj any, p P) map[string][]float64
	Side     func(t *Trace, obj any, s *Series) []utils.Side
	After    func(t *Trace, obj any, p P, s *Series)
	DataSide bool // the signals are a field of the records
	Run      func(t *Trace, p P, s *Series)
	Gen      func(r *rand.Rand, n int, class string) *Series // own input shape
	MinLen   int                                             // lengths below this are not meaningful for a free function
	Periods  func(p P) int                                   // the largest look-back, to aim the lengths
	Heavy    int                                             // divide the number of series by this
}

// ohlcOf is the column view an OHLC constructor is given: a private one, or
// the one several indicators of a session share.
func ohlcOf(it *klines.Item, p P) *klines.OHLC {
	if o, ok := p["_shared"]; ok {
		return o.(*klines.OHLC)
	}
	return it.GetOHLC()
}

func parseF(s string) float64 { f, _ := strconv.ParseFloat(s, 64); return f }

func pick(r *rand.Rand, xs ...int) int { return xs[r.Intn(len(xs))] }

// per picks a period: mostly small, so that short series cover every phase.
func per(r *rand.Rand) int {
	if r.Intn(15) == 0 {
		return 20 + r.Intn(50)*pick(r, 1, 1, 1, 5)
	}
	return pick(r, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11, 13, 14, 16, 20)
}
func per2(r *rand.Rand) int {
	if r.Intn(15) == 0 {
		return 20 + r.Intn(50)*pick(r, 1, 1, 1, 5)
	}
	return pick(r, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11, 13, 14, 16, 20)
}

func one(name string) func(r *rand.Rand) P { return func(r *rand.Rand) P { return P{name: per(r)} } }

var period = one("Period")

func none(r *rand.Rand) P { return P{} }

var kinds []*Kind
var kindByName = map[string]*Kind{}

func reg(k *Kind) {
	kinds = append(kinds, k)
	kindByName[k.Name] = k
}

func maxPeriod(p P) int {
	m := 1
	for _, v := range p {
		if i, ok := v.(int); ok && i > m {
			m = i
		}
	}
	return m
}

func col[D any](ds []D, f func(D) float64) []float64 {
	r := make([]float64, len(ds))
	for i := range ds {
		r[i] = f(ds[i])
	}
	return r
}

var maNames = map[string]types.MATypes{"SMA": types.SMA, "EMA": types.EMA, "WMA": types.WMA, "NONE": types.DEMA}

func init() {
	// ---- C05 averages
	reg(&Kind{Name: "Sma", Group: "C05", Params: period, Default: P{"Period": 9},
		New:    func(it *klines.Item, p P) any { return trend.NewSma(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return trend.NewDefaultSma(it) },
		Get: func(o any, p P) map[string][]float64 {
			return map[string][]float64{"Value": o.(*trend.Sma).GetValues()}
		}})
	reg(&Kind{Name: "Ma", Group: "C05", Params: period, Default: P{"Period": 20},
		New:    func(it *klines.Item, p P) any { return trend.NewMa(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return trend.NewDefaultMa(it) }})
	reg(&Kind{Name: "Ema", Group: "C05", Params: period, Default: P{"Period": 5},
		New:    func(it *klines.Item, p P) any { return trend.NewEma(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return trend.NewDefaultEma(it) },
		Get: func(o any, p P) map[string][]float64 {
			return map[string][]float64{"Value": o.(*trend.Ema).GetValues()}
		}})
	reg(&Kind{Name: "Dema", Group: "C05", Params: func(r *rand.Rand) P { return P{"Period": per(r), "ohlc": r.Intn(3) == 0} }, Default: P{"Period": 20},
		New: func(it *klines.Item, p P) any {
			if p.B("ohlc") {
				return trend.NewDemaOHLC(ohlcOf(it, p), p.I("Period"))
			}
			return trend.NewDema(it, p.I("Period"))
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultDema(it) },
		Get: func(o any, p P) map[string][]float64 {
			return map[string][]float64{"Value": o.(*trend.Dema).GetValues()}
		}})
	reg(&Kind{Name: "Rma", Group: "C05", Params: period, Default: P{"Period": 13},
		New:    func(it *klines.Item, p P) any { return trend.NewRma(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return trend.NewDefaultRma(it) }})

	// ---- C06
	reg(&Kind{Name: "Donchian", Group: "C06", Params: period, Default: P{"Period": 20},
		New:    func(it *klines.Item, p P) any { return channel.NewDonchianChannel(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return channel.NewDefaultDonchianChannel(it) }})

	// ---- C07
	reg(&Kind{Name: "Atr", Group: "C07", Params: period, Default: P{"Period": 14},
		New:    func(it *klines.Item, p P) any { return trend.NewAtr(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return trend.NewDefaultAtr(it) },
		Get: func(o any, p P) map[string][]float64 {
			tr, a := o.(*trend.Atr).GetValues()
			return map[string][]float64{"TR": tr, "Atr": a}
		}})
	reg(&Kind{Name: "Chandelier", Group: "C07", Params: func(r *rand.Rand) P { return P{"Period": per(r), "Exit": per(r)} },
		Run: func(t *Trace, p P, s *Series) {
			it := s.Item()
			b := copyItem(it)
			l, sh := trend.NewAtr(it, p.I("Period")).ChandelierExit(p.I("Exit"))
			t.Rt = t.T
			t.set("Long", l)
			t.set("Short", sh)
			t.Pure = sameItem(it, b)
		}})
	reg(&Kind{Name: "Boll", Group: "C07", Params: func(r *rand.Rand) P { return P{"N": per(r), "K": 1 + r.Intn(4)} }, Default: P{"N": 20, "K": 2},
		New:    func(it *klines.Item, p P) any { return channel.NewBoll(it, p.I("N"), p.I("K")) },
		NewDef: func(it *klines.Item) any { return channel.NewDefaultBoll(it) }})
	reg(&Kind{Name: "Keltner", Group: "C07", Params: period, Default: P{"Period": 20},
		New:    func(it *klines.Item, p P) any { return channel.NewKeltnerChannel(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return channel.NewDefaultKeltnerChannel(it) }})
	reg(&Kind{Name: "Ulcer", Group: "C07", Params: period, Default: P{"Period": 14},
		New:    func(it *klines.Item, p P) any { return channel.NewUlcerIndex(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return channel.NewDefaultUlcerIndex(it) }})

	// ---- C08
	reg(&Kind{Name: "Rsi", Group: "C08", Params: period, Default: P{"Period": 14},
		New:    func(it *klines.Item, p P) any { return trend.NewRsi(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return trend.NewDefaultRsi(it) },
		Get:    func(o any, p P) map[string][]float64 { return map[string][]float64{"Value": o.(*trend.Rsi).GetValue()} }})
	reg(&Kind{Name: "StochRsi", Group: "C08", Params: func(r *rand.Rand) P {
		return P{"RsiLength": per2(r), "StochLength": per(r), "SmoothK": pick(r, 1, 2, 3, 5), "SmoothD": pick(r, 1, 2, 3, 4)}
	}, Default: P{"RsiLength": 14, "StochLength": 14, "SmoothK": 3, "SmoothD": 3},
		New: func(it *klines.Item, p P) any {
			return trend.NewStochRsi(it, p.I("SmoothK"), p.I("SmoothD"), p.I("RsiLength"), p.I("StochLength"))
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultStochRsi(it) }})
	reg(&Kind{Name: "Stochastic", Group: "C08", Params: period, Default: P{"Period": 14},
		New:    func(it *klines.Item, p P) any { return oscillator.NewStochasticOscillator(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return oscillator.NewDefaultStochasticOscillator(it) },
		Get: func(o any, p P) map[string][]float64 {
			k, d := o.(*oscillator.StochasticOscillator).GetValues()
			return map[string][]float64{"K": k, "D": d}
		}})
	reg(&Kind{Name: "Kdj", Group: "C08", Params: period, Default: P{"Period": 9},
		New:    func(it *klines.Item, p P) any { return trend.NewKdj(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return trend.NewDefaultKdj(it) },
		Get: func(o any, p P) map[string][]float64 {
			e := o.(*trend.Kdj)
			return map[string][]float64{"K": e.GetListK(), "D": e.GetListD(), "J": e.GetListJ()}
		}})
	reg(&Kind{Name: "WilliamsR", Group: "C08", Params: period, Default: P{"Period": 14},
		New:    func(it *klines.Item, p P) any { return oscillator.NewWilliamsR(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return oscillator.NewDefaultWilliamsR(it) }})
	reg(&Kind{Name: "Cci", Group: "C08", Params: func(r *rand.Rand) P {
		n := per2(r)
		m := n
		if r.Intn(2) == 0 {
			m = per2(r)
		}
		return P{"Period": n, "SmaPeriod": m}
	}, Default: P{"Period": 20, "SmaPeriod": 20},
		New:    func(it *klines.Item, p P) any { return trend.NewCci(it, p.I("Period"), p.I("SmaPeriod")) },
		NewDef: func(it *klines.Item) any { return trend.NewDefaultCci(it) },
		Get:    func(o any, p P) map[string][]float64 { return map[string][]float64{"Value": o.(*trend.Cci).GetValue()} }})
	reg(&Kind{Name: "AiCoinCCI", Group: "C08", Params: func(r *rand.Rand) P { return P{"Period": per2(r)} }, Default: P{"Period": 20},
		New:    func(it *klines.Item, p P) any { return trend.NewAiCoinCCI(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return trend.NewDefaultAiCoinCCI(it) },
		Get: func(o any, p P) map[string][]float64 {
			return map[string][]float64{"Value": o.(*trend.AiCoinCCI).GetValue()}
		}})
	reg(&Kind{Name: "MoneyFlowIndex", Group: "C08", Params: period, Default: P{"Period": 14},
		New:    func(it *klines.Item, p P) any { return volume.NewMoneyFlowIndex(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return volume.NewDefaultMoneyFlowIndex(it) }})

	// ---- C09
	reg(&Kind{Name: "Macd", Group: "C09", Params: func(r *rand.Rand) P { return P{"Short": per(r), "Signal": per(r), "Long": per(r)} },
		Default: P{"Short": 12, "Signal": 9, "Long": 26},
		New:     func(it *klines.Item, p P) any { return trend.NewMacd(it, p.I("Short"), p.I("Signal"), p.I("Long")) },
		NewDef:  func(it *klines.Item) any { return trend.NewDefaultMacd(it) },
		Get: func(o any, p P) map[string][]float64 {
			e := o.(*trend.Macd)
			return map[string][]float64{"DIF": e.GetDifs(), "Macd": e.GetMACDs()}
		}})
	reg(&Kind{Name: "APO", Group: "C09", Params: func(r *rand.Rand) P { return P{"Fast": per(r), "Slow": per(r)} }, Default: P{"Fast": 14, "Slow": 30},
		New: func(it *klines.Item, p P) any {
			o := oscillator.NewAbsolutePriceOscillator(it)
			o.FastPeriod, o.SlowPeriod = p.I("Fast"), p.I("Slow")
			return o
		},
		NewDef: func(it *klines.Item) any { return oscillator.NewAbsolutePriceOscillator(it) }})
	reg(&Kind{Name: "AO", Group: "C09", Params: none,
		New: func(it *klines.Item, p P) any { return oscillator.NewAwesomeOscillator(it) }})
	reg(&Kind{Name: "PPO", Group: "C09", Params: func(r *rand.Rand) P { return P{"Fast": per(r), "Slow": per(r), "Signal": per(r)} },
		Default: P{"Fast": 12, "Slow": 26, "Signal": 9},
		New: func(it *klines.Item, p P) any {
			return oscillator.NewPercentagePriceOscillator(it, p.I("Fast"), p.I("Slow"), p.I("Signal"))
		},
		NewDef: func(it *klines.Item) any { return oscillator.NewDefaultPercentagePriceOscillator(it) }})
	reg(&Kind{Name: "ChaikinOscillator", Group: "C09", Params: func(r *rand.Rand) P { return P{"Fast": per(r), "Slow": per(r)} },
		Default: P{"Fast": 3, "Slow": 10},
		New:     func(it *klines.Item, p P) any { return oscillator.NewChaikinOscillator(it, p.I("Fast"), p.I("Slow")) },
		NewDef:  func(it *klines.Item) any { return oscillator.NewDefaultChaikinOscillator(it) }})
	reg(&Kind{Name: "VolumeOscillator", Group: "C09", Params: func(r *rand.Rand) P { return P{"Short": per(r), "Long": per(r)} },
		Default: P{"Short": 5, "Long": 10},
		New:     func(it *klines.Item, p P) any { return oscillator.NewVolumeOscillator(it, p.I("Short"), p.I("Long")) },
		NewDef:  func(it *klines.Item) any { return oscillator.NewDefaultVolumeOscillator(it) },
		Get: func(o any, p P) map[string][]float64 {
			return map[string][]float64{"Value": o.(*oscillator.VolumeOscillator).GetValues()}
		}})
	reg(&Kind{Name: "Ichimoku", Group: "C09", Params: func(r *rand.Rand) P { return P{"Conversion": per(r), "SpanB": per(r), "Lagging": per(r)} },
		Default: P{"Conversion": 20, "SpanB": 60, "Lagging": 120},
		New: func(it *klines.Item, p P) any {
			return oscillator.NewIchimokuCloud(it, p.I("Conversion"), p.I("SpanB"), p.I("Lagging"))
		},
		NewDef: func(it *klines.Item) any { return oscillator.NewDefaultIchimokuCloud(it) }})

	// ---- C10
	reg(&Kind{Name: "Obv", Group: "C10", Params: none, New: func(it *klines.Item, p P) any { return volume.NewObv(it) }})
	reg(&Kind{Name: "AD", Group: "C10", Params: none, New: func(it *klines.Item, p P) any { return volume.NewAccumulationDistribution(it) },
		Default: P{}, NewDef: func(it *klines.Item) any { return volume.NewDefaultAccumulationDistribution(it) },
		Get: func(o any, p P) map[string][]float64 {
			return map[string][]float64{"Value": o.(*volume.AccumulationDistribution).GetValues()}
		}})
	reg(&Kind{Name: "NVI", Group: "C10", Params: none, New: func(it *klines.Item, p P) any { return volume.NewNegativeVolumeIndex(it) },
		Default: P{}, NewDef: func(it *klines.Item) any { return volume.NewDefaultNegativeVolumeIndex(it) }})
	reg(&Kind{Name: "VPT", Group: "C10", Params: period, Default: P{"Period": 14},
		New:    func(it *klines.Item, p P) any { return volume.NewVolumePriceTrend(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return volume.NewDefaultVolumePriceTrend(it) }})
	reg(&Kind{Name: "ForceIndex", Group: "C10", Params: period, Default: P{"Period": 13},
		New:    func(it *klines.Item, p P) any { return volume.NewForceIndex(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return volume.NewDefaultForceIndex(it) }})
	reg(&Kind{Name: "EOM", Group: "C10", Params: period, Default: P{"Period": 14},
		New:    func(it *klines.Item, p P) any { return volume.NewEaseOfMovement(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return volume.NewDefaultEaseOfMovement(it) }})
	reg(&Kind{Name: "CMF", Group: "C10", Params: period, Default: P{"Period": 20},
		New:    func(it *klines.Item, p P) any { return volume.NewChaikinMoneyFlow(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return volume.NewDefaultChaikinMoneyFlow(it) }})
	reg(&Kind{Name: "Vwma", Group: "C10", Params: period, Default: P{"Period": 5},
		New:    func(it *klines.Item, p P) any { return volume.NewVwma(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return volume.NewDefaultVwma(it) }})

	// ---- C12
	pow2 := func(r *rand.Rand) int { return pick(r, 1, 2, 2, 4, 8, 3, 5, 10) }
	reg(&Kind{Name: "SuperTrend", Group: "C12", Params: func(r *rand.Rand) P {
		return P{"AtrPeriod": pow2(r), "Multiplier": pick(r, 1, 1, 2, 3), "ChangeAtr": r.Intn(4) > 0, "ohlc": r.Intn(4) == 0}
	}, Default: P{"AtrPeriod": 10, "Multiplier": 3, "ChangeAtr": true},
		New: func(it *klines.Item, p P) any {
			if p.B("ohlc") {
				return trend.NewSuperTrendOHLC(ohlcOf(it, p), it.HL2(), p.I("AtrPeriod"), p.I("Multiplier"), p.B("ChangeAtr"))
			}
			return trend.NewSuperTrend(it, p.I("AtrPeriod"), p.I("Multiplier"), p.B("ChangeAtr"))
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultSuperTrend(it) }})
	reg(&Kind{Name: "PivotPointSuperTrend", Group: "C12", Params: func(r *rand.Rand) P {
		return P{"Period": 1 + r.Intn(4), "AtrPeriod": pow2(r), "Factor": []string{"1", "0.5", "2", "2.8", "1.5"}[r.Intn(5)], "ohlc": r.Intn(4) == 0}
	}, Default: P{"Period": 3, "AtrPeriod": 8, "Factor": "2.8"},
		New: func(it *klines.Item, p P) any {
			if p.B("ohlc") {
				return trend.NewPivotPointSuperTrendOHLC(ohlcOf(it, p), p.I("Period"), p.I("AtrPeriod"), p.F("Factor"))
			}
			return trend.NewPivotPointSuperTrend(it, p.I("Period"), p.I("AtrPeriod"), p.F("Factor"))
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultPivotPointSuperTrend(it) }})
	reg(&Kind{Name: "UTBot", Group: "C12", Params: func(r *rand.Rand) P {
		return P{"Period": 1 + r.Intn(3), "AtrPeriod": pow2(r), "ohlc": r.Intn(4) == 0}
	}, Default: P{"Period": 2, "AtrPeriod": 1},
		New: func(it *klines.Item, p P) any {
			if p.B("ohlc") {
				return trend.NewUTBotOHLC(ohlcOf(it, p), p.I("Period"), p.I("AtrPeriod"))
			}
			return trend.NewUTBot(it, p.I("Period"), p.I("AtrPeriod"))
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultUTBot(it) },
		Get: func(o any, p P) map[string][]float64 {
			return map[string][]float64{"Value": o.(*trend.UTBot).GetValues()}
		}})

	// ---- C13
	reg(&Kind{Name: "TraderXO", Group: "C13", Params: func(r *rand.Rand) P { return P{"Fast": per(r), "Slow": per(r), "ohlc": r.Intn(4) == 0} },
		Default: P{"Fast": 12, "Slow": 25},
		New: func(it *klines.Item, p P) any {
			if p.B("ohlc") {
				return trend.NewTraderXOOHLC(ohlcOf(it, p), p.I("Fast"), p.I("Slow"))
			}
			return trend.NewTraderXO(it, p.I("Fast"), p.I("Slow"))
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultTraderXO(it) },
		Get: func(o any, p P) map[string][]float64 {
			f, s := o.(*trend.TraderXO).GetValues()
			return map[string][]float64{"Fast": f, "Slow": s}
		}})
	reg(&Kind{Name: "EMAVegas", Group: "C13", Params: func(r *rand.Rand) P {
		return P{"Period": pick(r, 1, 2, 3), "Short1": pick(r, 2, 3, 4, 5), "Short2": pick(r, 3, 4, 5, 6), "Long1": pick(r, 6, 8, 10), "Long2": pick(r, 7, 9, 12), "ohlc": r.Intn(4) == 0}
	}, Default: P{"Period": 12, "Short1": 144, "Short2": 169, "Long1": 575, "Long2": 676},
		New: func(it *klines.Item, p P) any {
			if p.B("ohlc") {
				return trend.NewEMAVegasOHLC(ohlcOf(it, p), p.I("Period"), p.I("Short1"), p.I("Short2"), p.I("Long1"), p.I("Long2"))
			}
			return trend.NewEMAVegas(it, p.I("Period"), p.I("Short1"), p.I("Short2"), p.I("Long1"), p.I("Long2"))
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultEMAVegas(it) }})
	reg(&Kind{Name: "ReversalSignals", Group: "C13", Params: none, DataSide: true,
		New: func(it *klines.Item, p P) any { return trend.NewReversalSignals(it) }})

	// ---- C14
	reg(&Kind{Name: "SMC", Group: "C14", Params: func(r *rand.Rand) P {
		return P{"Swing": pick(r, 3, 4, 6, 7, 8, 10, 12, 18, 30, 40), "Confirm": 1 + r.Intn(4), "Threshold": 1 + r.Intn(3), "Eq": r.Intn(5) > 0, "ohlc": r.Intn(3) == 0}
	}, Default: P{"Swing": 50, "Confirm": 3, "Threshold": 1, "Eq": true},
		New: func(it *klines.Item, p P) any {
			o := trend.NewSmartMoneyConcepts(it, p.I("Swing"), p.I("Confirm"), p.I("Threshold"))
			if p.Opt("ohlc") {
				c := ohlcOf(it, p)
				o = trend.NewSmartMoneyConceptsOHLC(c.Open, c.High, c.Low, c.Close, c.TimeUnix, p.I("Swing"), p.I("Confirm"), p.I("Threshold"))
			}
			o.EQHEQL_Enable = p.B("Eq")
			return o
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultSmartMoneyConcepts(it) },
		After:  smcAfter, Heavy: 4})

	// ---- C15
	reg(&Kind{Name: "BreakoutProbability", Group: "C15", Params: func(r *rand.Rand) P {
		return P{"Step": []string{"25", "12.5", "6.25", "3.125", "1.5625", "0.78125"}[r.Intn(6)], "Lines": pick(r, 1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 0, -2, 6, 9), "ohlc": r.Intn(4) == 0}
	}, Default: P{"Step": "1.2", "Lines": 5},
		New: func(it *klines.Item, p P) any {
			if p.B("ohlc") {
				return trend.NewBreakoutProbabilityOHLC(ohlcOf(it, p), p.F("Step"), p.I("Lines"))
			}
			return trend.NewBreakoutProbability(it, p.F("Step"), p.I("Lines"))
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultBreakoutProbability(it) },
		After:  breakoutAfter})

	// ---- C25
	reg(&Kind{Name: "LinearRegressionCandles", Group: "C25", Params: func(r *rand.Rand) P {
		return P{"Smooth": per(r), "Length": per2(r), "UseSma": r.Intn(2) == 0, "ohlc": r.Intn(4) == 0}
	}, Default: P{"Smooth": 7, "Length": 11, "UseSma": true},
		New: func(it *klines.Item, p P) any {
			if p.B("ohlc") {
				return trend.NewLinearRegressionCandlesOHLC(ohlcOf(it, p), p.I("Smooth"), p.I("Length"), p.B("UseSma"))
			}
			return trend.NewLinearRegressionCandles(it, p.I("Smooth"), p.I("Length"), p.B("UseSma"))
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultLinearRegressionCandles(it) },
		Get: func(o any, p P) map[string][]float64 {
			return map[string][]float64{"Signal": o.(*trend.LinearRegressionCandles).GetValues()}
		}})

	// ---- C26
	reg(&Kind{Name: "Vortex", Group: "C26", Params: period, Default: P{"Period": 9},
		New:    func(it *klines.Item, p P) any { return trend.NewVortex(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return trend.NewDefaultVortex(it) }})
	reg(&Kind{Name: "ADX", Group: "C26", Params: func(r *rand.Rand) P { return P{"Period": per(r), "Len": per(r), "ohlc": r.Intn(4) == 0} },
		Default: P{"Period": 30, "Len": 14},
		New: func(it *klines.Item, p P) any {
			if p.B("ohlc") {
				return trend.NewAverageDirectionalIndexOHLC(ohlcOf(it, p), p.I("Period"), p.I("Len"))
			}
			return trend.NewAverageDirectionalIndex(it, p.I("Period"), p.I("Len"))
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultAverageDirectionalIndex(it) }})
	reg(&Kind{Name: "Camarilla", Group: "C26", Params: period, Default: P{"Period": 8},
		New:    func(it *klines.Item, p P) any { return oscillator.NewCamarilla(it, p.I("Period")) },
		NewDef: func(it *klines.Item) any { return oscillator.NewDefaultCamarilla(it) },
		Side:   camarillaSide})
	reg(&Kind{Name: "ProjectionOscillator", Group: "C26", Params: func(r *rand.Rand) P { return P{"Period": per2(r), "Smooth": pick(r, 1, 2, 3, 4, 5)} },
		Default: P{"Period": 13, "Smooth": 3},
		New: func(it *klines.Item, p P) any {
			return oscillator.NewProjectionOscillator(it, p.I("Period"), p.I("Smooth"))
		},
		NewDef: func(it *klines.Item) any { return oscillator.NewDefaultProjectionOscillator(it) }})
	reg(&Kind{Name: "StochasticHeat", Group: "C26", Params: func(r *rand.Rand) P {
		return P{"Increment": pick(r, 1, 1, 2, 3, 5, 8), "Fast": pick(r, 1, 2, 3, 5, 7), "Slow": pick(r, 1, 2, 4, 8, 13, 26), "PlotNum": pick(r, 25, 28, 10, 1),
			"Ma": []string{"SMA", "EMA", "WMA", "NONE"}[r.Intn(4)]}
	}, Default: P{"Increment": 8, "Fast": 7, "Slow": 26, "PlotNum": 25, "Ma": "WMA"},
		New: func(it *klines.Item, p P) any {
			return trend.NewStochasticHeat(it, p.I("Increment"), p.I("Fast"), p.I("Slow"), p.I("PlotNum"), maNames[p.S("Ma")])
		},
		NewDef: func(it *klines.Item) any { return trend.NewDefaultStochasticHeat(it) }, Heavy: 2})
}

func breakoutAfter(t *Trace, obj any, p P, s *Series) {
	ds := obj.(*trend.BreakoutProbability).GetData()
	list := make([][]map[string]any, len(ds))
	for i, d := range ds {
		list[i] = []map[string]any{}
		for _, x := range d.List {
			list[i] = append(list[i], map[string]any{"price": fs(x.Price), "per": fs(x.Per), "up": x.Up})
		}
	}
	t.Aux["list"] = list
}

func smcBlocks(l trend.SmartMoneyConceptsDataOrderBlockList) []map[string]any {
	r := []map[string]any{}
	for _, b := range l {
		r = append(r, map[string]any{"top": b.IsTop, "t": is(seconds(b.Time)), "o": fs(b.Open), "h": fs(b.High), "l": fs(b.Low), "c": fs(b.Close)})
	}
	return r
}

// smcAfter logs, for most prefixes, the order blocks and the strong/weak levels:
// they are published for the newest bar only.
func smcAfter(t *Trace, obj any, p P, s *Series) {
	n := s.Len()
	bull, bear := make([]any, n), make([]any, n)
	sw := make([]any, n)
	f := func(x trend.SmartMoneyConceptsDataStrongWeak) []string {
		tt := "none"
		if !x.Time.IsZero() {
			tt = is(seconds(x.Time))
		}
		return []string{tt, fs(x.Value)}
	}
	seen, every := make([]bool, n), 3
	if n > 450 {
		every = 37
	}
	for i := 1; i <= n; i++ {
		// every short prefix, a third of the longer ones (fewer of very long ones)
		if seen[i-1] = i <= 40 || i == n || (i*7+n)%every == 0; !seen[i-1] {
			bull[i-1], bear[i-1], sw[i-1] = 0, 0, 0
			continue
		}
		q := s.Head(i)
		var o *trend.SmartMoneyConcepts
		if i == n {
			o = obj.(*trend.SmartMoneyConcepts)
		} else {
			o = kindByName["SMC"].New(q.Item(), p).(*trend.SmartMoneyConcepts)
			o.GetData()
		}
		bull[i-1], bear[i-1] = smcBlocks(o.OrderBlockBullish), smcBlocks(o.OrderBlockBearish)
		sw[i-1] = map[string]any{"sh": f(o.StrongHigh), "wh": f(o.WeakHigh), "sl": f(o.StrongLow), "wl": f(o.WeakLow)}
	}
	t.Aux["bull"], t.Aux["bear"], t.Aux["sw"] = bull, bear, sw
	t.Aux["seen"] = seen
}

// camarillaSide asks for the signals against candles of another time scale:
// the daily candles of the same market.
func camarillaSide(t *Trace, obj any, s *Series) []utils.Side {
	other := dailyOf(s)
	t.Aux["day"] = days(s.T)
	t.Aux["oday"] = days(other.T)
	t.Aux["oh"], t.Aux["ol"], t.Aux["oc"] = fss(other.H), fss(other.L), fss(other.C)
	return camarillaSignals(obj, other)
}

func camarillaSignals(obj any, other *Series) []utils.Side {
	return obj.(*oscillator.Camarilla).AnalysisSide(other.Item()).Data
}

func days(ts []int64) []string {
	r := make([]string, len(ts))
	for i, x := range ts {
		r[i] = time.Unix(x, 0).Format("20060102")
	}
	return r
}

// dailyOf is a second market whose days partly match those of s.
func dailyOf(s *Series) *Series {
	d := &Series{Class: s.Class, Ex: s.Ex}
	last := ""
	for i := range s.C {
		day := time.Unix(s.T[i], 0).Format("20060102")
		if day == last {
			continue
		}
		last = day
		if i%5 == 4 {
			continue // a day the other scale does not have
		}
		w := (s.H[i] - s.L[i]) * 0.5
		d.add(s.O[i], s.H[i]+w, s.L[i], s.C[i], s.V[i], s.T[i]+1)
	}
	return d
}
