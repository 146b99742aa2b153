package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/idoall/stockindicator/helpertools"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/ta"
)

// HelperCall is one call of a helper with the argument of its trace.
type HelperCall struct {
	F   string `json:"f"`
	D   int    `json:"d"`
	Got string `json:"got"`
	Err string `json:"err"`
}
type HelperTrace struct {
	Id    int          `json:"id"`
	Kind  string       `json:"kind"`
	P     string       `json:"p"`
	X     string       `json:"x"`
	Text  []string     `json:"text"`
	Back  []string     `json:"back"`
	Nums  []int        `json:"nums"`
	Calls []HelperCall `json:"calls"`
}

func newHelper(kind string) *HelperTrace {
	return &HelperTrace{Kind: kind, X: "0", Text: []string{}, Back: []string{}, Nums: []int{}, Calls: []HelperCall{}}
}

// digits writes a double with all the digits that matter.
func digits(x float64) string {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return fs(x)
	}
	if x == 0 {
		return "0"
	}
	return strconv.FormatFloat(x, 'e', 60, 64)
}

func (t *HelperTrace) call(f string, d int, g func() (string, error)) {
	c := HelperCall{F: f, D: d, Got: "NaN"}
	var err error
	if c.Err = guarded(callLimit, func() { c.Got, err = g() }); c.Err == "" && err != nil {
		c.Err = "refused"
	}
	t.Calls = append(t.Calls, c)
}

// parse: a text is read as a number.
func parseText(text []string) *HelperTrace {
	t := newHelper("FloatFromString")
	t.Text = text
	s := strings.Join(text, "")
	t.P = strconv.Quote(s)
	refusable := func(f string, raw any) {
		t.call(f, 0, func() (string, error) {
			v, err := commonutils.FloatFromString(raw)
			return digits(v), err
		})
	}
	refusable("parse", s)
	for _, raw := range []any{nil, len(s), 2.5, []string{s}, []byte(s), &s}[len(s)%6:][:1] {
		refusable("parse a value", raw)
	}
	return t
}

// roundAll: a number is rounded, formatted, printed and read again.
func roundAll(x float64, ds []int, r *rand.Rand) *HelperTrace {
	t := newHelper("rounding")
	t.X = digits(x)
	t.P = fs(x)
	for _, d := range ds {
		if d >= 0 {
			t.call("round", d, func() (string, error) { return digits(helpertools.RoundDigit(x, d)), nil })
			t.call("round", d, func() (string, error) {
				return digits(helpertools.Chan2Slice(helpertools.RoundDigits(helpertools.Slice2Chan([]float64{x}), d))[0]), nil
			})
			if y := float32(x); float64(y) == x {
				t.call("round float32", d, func() (string, error) { return digits(float64(helpertools.RoundDigit(y, d))), nil })
			}
		}
		t.call("ta.round", d, func() (string, error) { return digits(ta.RoundDigits(x, d)), nil })
		t.call("ta.round", d, func() (string, error) { return digits(ta.RoundDigitsAll([]float64{1, x}, d)[1]), nil })
		t.call("decimal", -d, func() (string, error) { return digits(commonutils.FormatDecimalFloat64(x, int32(-d))), nil })
	}
	for _, verb := range []byte("gefE") {
		t.call("parse printed", 0, func() (string, error) {
			v, err := commonutils.FloatFromString(strconv.FormatFloat(x, verb, -1, 64))
			return digits(v), err
		})
	}
	other := r.NormFloat64()
	t.call("number or", 0, func() (string, error) { return digits(ta.Nz(x, other)), nil })
	t.call("nan or", 0, func() (string, error) { return digits(ta.Nz(math.NaN(), x)), nil })
	t.call("nan or", 0, func() (string, error) { return digits(ta.Nzs([]float64{other, math.NaN(), 1}, x)[1]), nil })
	t.call("number or", 0, func() (string, error) { return digits(ta.Nzs([]float64{math.NaN(), x}, other)[1]), nil })
	for _, inf := range []float64{math.Inf(1), math.Inf(-1)} { // infinite is not undefined
		t.call("number or", 0, func() (string, error) {
			if ta.Nz(inf, other) != inf || ta.Nzs([]float64{math.NaN(), inf}, other)[1] != inf {
				return "replaced", nil
			}
			return digits(x), nil
		})
	}
	t.call("number or", 0, func() (string, error) { return digits(commonutils.If(true, x, other).(float64)), nil })
	t.call("number or", 0, func() (string, error) { return digits(commonutils.If(false, other, x).(float64)), nil })
	return t
}

// whole: rounding a whole number to decimals changes nothing.
func whole(n int64, ds []int) *HelperTrace {
	t := newHelper("rounding whole numbers")
	t.X = is(n)
	t.P = is(n)
	for _, d := range ds {
		t.call("round whole", d, func() (string, error) { return is(helpertools.RoundDigit(n, d)), nil })
		t.call("round whole", d, func() (string, error) { return is(int64(helpertools.RoundDigit(int(n), d))), nil })
		if int64(int32(n)) == n {
			t.call("round whole", d, func() (string, error) { return is(int64(helpertools.RoundDigit(int32(n), d))), nil })
		}
		if int64(int8(n)) == n {
			t.call("round whole", d, func() (string, error) { return is(int64(helpertools.RoundDigit(int8(n), d))), nil })
		}
	}
	return t
}

func fields(c *klines.Candle) []string {
	return []string{digits(c.Amount), is(c.Count), digits(c.Open), digits(c.Close), digits(c.Low), digits(c.High), digits(c.Volume),
		digits(c.ChangePercent), fmt.Sprint(c.IsBullMarket), is(c.TimeUnix)}
}

func candlesText(cs []*klines.Candle) []string {
	r := []string{is(int64(len(cs)))}
	for _, c := range cs {
		if c == nil {
			r = append(r, "nil")
			continue
		}
		r = append(r, fields(c)...)
	}
	return r
}

// store: candles go out as JSON and come in again.
func store(masks []int, r *rand.Rand) *HelperTrace {
	t := newHelper("JSONDecode")
	t.Nums = masks
	if t.P = fmt.Sprint(masks); len(masks) > 50 {
		t.P = fmt.Sprint(len(masks), " candles")
	}
	num := func(on bool) float64 {
		switch {
		case !on:
			return 0
		case r.Intn(4) == 0:
			return math.Ldexp(r.Float64(), r.Intn(200)-100)
		}
		return float64(1+r.Intn(1000000)) / 100
	}
	var cs []*klines.Candle
	for _, m := range masks {
		b := func(i int) bool { return m>>i&1 == 1 }
		c := &klines.Candle{Amount: num(b(0)), Open: num(b(2)), Close: num(b(3)), Low: num(b(4)), High: num(b(5)),
			Volume: num(b(6)), ChangePercent: -num(b(7)), IsBullMarket: b(8)}
		if b(1) {
			c.Count = 1 + r.Int63n(1<<53)
		}
		if b(9) {
			c.TimeUnix = r.Int63n(4e9) - 1e9
		}
		cs = append(cs, c)
	}
	item := &klines.Item{Exchange: "x", Interval: klines.OneHour, Symbol: "s", Code: "c", Candles: cs}
	head := func(it *klines.Item) []string {
		return append([]string{it.Exchange, it.Symbol, it.Code, is(int64(it.Interval))}, candlesText(it.Candles)...)
	}
	t.Text = head(item)
	data, err := json.Marshal(item)
	if err != nil {
		panic(err)
	}
	t.call("candles", 0, func() (string, error) {
		var back klines.Item
		err := commonutils.JSONDecode(data, &back)
		t.Back = head(&back)
		return "0", err
	})
	t.call("by value", 0, func() (string, error) {
		var back klines.Item
		return "0", commonutils.JSONDecode(data, back)
	})
	t.call("broken", 0, func() (string, error) {
		var back klines.Item
		return "0", commonutils.JSONDecode(data[:r.Intn(len(data))], &back)
	})
	// a file of candles is read as it was written
	dir, err := os.MkdirTemp("", "verif-store")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "candles.json")
	t.call("missing", 0, func() (string, error) {
		_, err := commonutils.ReadFile(name)
		return "0", err
	})
	for _, content := range [][]byte{data, anyBytes(r)} {
		if os.WriteFile(name, content, 0o600) != nil {
			panic("cannot write " + name)
		}
		t.call("file", 0, func() (string, error) {
			read, err := commonutils.ReadFile(name)
			same := "0"
			if !bytes.Equal(read, content) {
				same = "1"
			}
			return same, err
		})
	}
	return t
}

// anyBytes is what a file may hold: nothing, text with line ends of any kind,
// marks of an encoding, zeros, or more than fits a buffer.
func anyBytes(r *rand.Rand) []byte {
	b := []byte{}
	for n := r.Intn(6); n > 0; n-- {
		b = append(b, []string{"\r", "\n", "\r\n", "\x00", "\xef\xbb\xbf", "\xff", "\x1a", " ", "\t", "2.5", "{}", "\u200b"}[r.Intn(12)]...)
	}
	if r.Intn(10) == 0 {
		more := make([]byte, 1<<uint(9+r.Intn(9))+r.Intn(3))
		r.Read(more)
		b = append(more, b...)
	}
	return b
}

func names(ns []int) *HelperTrace {
	t := newHelper("names of signals")
	t.Nums = ns
	t.P = fmt.Sprint(ns)
	var s utils.Sides
	for _, n := range ns {
		s = append(s, utils.Side(n))
	}
	t.call("names", 0, func() (string, error) { t.Back = append([]string{}, s.Strings()...); return "0", nil })
	t.call("names", 0, func() (string, error) {
		t.Back = []string{}
		for _, x := range s {
			t.Back = append(t.Back, x.String())
		}
		return "0", nil
	})
	return t
}

var intervals = map[string]klines.Interval{
	"ThousandMilliseconds": klines.ThousandMilliseconds, "TenSecond": klines.TenSecond, "FifteenSecond": klines.FifteenSecond,
	"ThirtySecond": klines.ThirtySecond, "OneMin": klines.OneMin, "ThreeMin": klines.ThreeMin, "FiveMin": klines.FiveMin,
	"TenMin": klines.TenMin, "FifteenMin": klines.FifteenMin, "ThirtyMin": klines.ThirtyMin, "OneHour": klines.OneHour,
	"TwoHour": klines.TwoHour, "ThreeHour": klines.ThreeHour, "FourHour": klines.FourHour, "SixHour": klines.SixHour,
	"SevenHour": klines.SevenHour, "EightHour": klines.EightHour, "TwelveHour": klines.TwelveHour, "OneDay": klines.OneDay,
	"TwoDay": klines.TwoDay, "ThreeDay": klines.ThreeDay, "FiveDay": klines.FiveDay, "SevenDay": klines.SevenDay,
	"FifteenDay": klines.FifteenDay, "OneWeek": klines.OneWeek, "TwoWeek": klines.TwoWeek, "ThreeWeek": klines.ThreeWeek,
	"OneMonth": klines.OneMonth, "ThreeMonth": klines.ThreeMonth, "SixMonth": klines.SixMonth, "NineMonth": klines.NineMonth,
	"OneYear": klines.OneYear,
}

func lasts(name string) *HelperTrace {
	t := newHelper("intervals")
	t.X, t.P = name, name
	iv := intervals[name]
	seconds := func(d time.Duration) string {
		if d%time.Second != 0 {
			return d.String()
		}
		return is(int64(d / time.Second))
	}
	t.call("lasts", 0, func() (string, error) { return seconds(iv.Duration()), nil })
	t.call("lasts", 0, func() (string, error) {
		d, err := time.ParseDuration(iv.String())
		return seconds(d), err
	})
	return t
}

// randNumber: the magnitudes, ties and edges rounding has to cope with.
func randNumber(r *rand.Rand) float64 {
	x := 0.0
	switch r.Intn(8) {
	case 0:
		x = float64(r.Intn(2000001)-1000000) / 16
	case 1:
		x = (float64(r.Intn(20001)) + 0.5) / math.Pow(10, float64(r.Intn(6)))
	case 2:
		x = math.Ldexp(r.Float64(), r.Intn(120)-60)
	case 3:
		x = math.Ldexp(r.Float64(), r.Intn(2000)-1000)
	case 4:
		x = math.Nextafter(float64(r.Intn(1000))+0.5, float64(r.Intn(2)*2000-500))
	case 5:
		x = float64(r.Int63())
	case 6:
		x = float64(r.Intn(1000000)) / 100
	default:
		x = r.NormFloat64() * 100
	}
	if r.Intn(2) == 0 {
		x = -x
	}
	return x
}

func randText(r *rand.Rand) []string {
	s := ""
	switch r.Intn(4) {
	case 0:
		s = strconv.FormatFloat(randNumber(r), "gefE"[r.Intn(4)], r.Intn(25)-1, 64)
	case 1:
		s = strconv.FormatFloat(randNumber(r), 'g', -1, 64)
		b := []byte(s)
		b[r.Intn(len(b))] = ".-+e ,x0"[r.Intn(8)]
		s = string(b)
	case 2:
		for n := r.Intn(12); n >= 0; n-- {
			s += string("0123456789.-+eE"[r.Intn(15)])
		}
	default:
		s = strings.Repeat("0", r.Intn(4)) + is(r.Int63()) + "." + is(r.Int63())
	}
	t := []string{}
	for _, c := range s {
		t = append(t, string(c))
	}
	if i := strings.IndexAny(s, "eE"); i >= 0 && len(s)-i > 5 { // exponents stay small numbers
		t = t[:i+5]
	}
	return t
}

func init() {
	modes["helpers"] = func(args []string) {
		fl := flag.NewFlagSet("helpers", flag.ExitOnError)
		scripts := fl.String("scripts", "", "")
		seed := fl.Int64("seed", 1, "")
		count := fl.Int("count", 0, "random calls")
		out := fl.String("out", "", "")
		fl.Parse(args)
		s := newSink(*out)
		put := func(t *HelperTrace) { t.Id = s.n; s.put(t) }
		r := rng(*seed, "helpers")
		alphabet := []string{"2", "5", ".", "-", "+", "e", " ", "x"}
		if *scripts != "" {
			for _, sc := range readLines[[]int](*scripts) {
				a := sc[1:]
				switch sc[0] {
				case 1:
					text := []string{}
					for _, i := range a {
						text = append(text, alphabet[i-1])
					}
					put(parseText(text))
				case 2:
					put(roundAll(float64(a[0])/8, a[1:], r))
				case 3:
					put(store(a, r))
				case 4:
					put(names(a))
				}
			}
		}
		var intervalNames []string
		for name := range intervals {
			intervalNames = append(intervalNames, name)
		}
		sort.Strings(intervalNames)
		for _, name := range intervalNames {
			put(lasts(name))
		}
		for i := 0; i < *count; i++ {
			put(parseText(randText(r)))
			put(roundAll(randNumber(r), []int{r.Intn(4), r.Intn(13), -r.Intn(4)}, r))
			n := r.Int63() >> uint(r.Intn(63))
			if r.Intn(2) == 0 {
				n = -n
			}
			put(whole(n, []int{r.Intn(4), r.Intn(19)}))
			masks := []int{}
			k := r.Intn(6)
			if i%1000 == 0 { // more candles than fit a buffer
				k = 1500
			}
			for ; k > 0; k-- {
				masks = append(masks, r.Intn(1024))
			}
			put(store(masks, r))
		}
		s.close()
		fmt.Println(s.n)
	}
}
