package main

import (
	"errors"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
)

type Request struct {
	S   int64      `json:"s"`
	E   int64      `json:"e"`
	Ivs [][2]int64 `json:"ivs"`
}

// RangeTrace is what the code says about one range of time.
type RangeTrace struct {
	Id      int        `json:"id"`
	Kind    string     `json:"kind"`
	P       string     `json:"p"`
	I       int64      `json:"i"`
	S       int64      `json:"s"`
	E       int64      `json:"e"`
	Limit   int64      `json:"limit"`
	Future  bool       `json:"future"`
	Check   string     `json:"check"`
	Count   int64      `json:"count"`
	Fine    int64      `json:"fine"` // the count with intervals of milliseconds
	Refused bool       `json:"refused"`
	From    int64      `json:"from"`
	To      int64      `json:"to"`
	Twins   bool       `json:"twins"` // Ticks and Time agree everywhere
	Reqs    []Request  `json:"reqs"`
	Marks   []int64    `json:"marks"`
	Asked   [][2]int64 `json:"asked"`
	Err     string     `json:"err"`
}

const unset = -1000

// zeroSeconds is the distance of Go's zero time, from which times are
// rounded, to the epoch.
const zeroSeconds = 62135596800

func runRange(w []int, r *rand.Rand) *RangeTrace {
	t := &RangeTrace{Kind: "CalculateCandleDateRanges", I: int64(w[0]), S: int64(w[1]), E: int64(w[2]), Limit: int64(w[3]),
		Reqs: []Request{}, Marks: []int64{}, Asked: [][2]int64{}, Twins: true}
	k := randClock(r)
	if r.Intn(12) == 0 {
		k.base = 4000000000
	}
	if q := max(t.I, 1) * k.unit; true { // an interval begins at the base
		k.base -= (k.base + zeroSeconds) % q
	}
	if k.base <= 0 { // the epoch itself counts as unset
		k.base += 400 * max(t.I, 1) * k.unit
	}
	t.Future = t.S != unset && k.abs(t.S) > time.Now().Unix()
	t.P = fmt.Sprintf("unit %d s, base %d", k.unit, k.base)
	jitter := int64(0)
	if r.Intn(2) == 0 {
		jitter = int64(r.Intn(300000000))
	}
	at := func(x int64) time.Time {
		if x == unset {
			if r.Intn(2) == 0 {
				return time.Unix(0, 0)
			}
			return time.Time{}
		}
		y := time.Unix(k.abs(x), jitter)
		switch r.Intn(3) {
		case 0:
			y = y.UTC()
		case 1:
			y = y.In(time.FixedZone("there", 8*3600))
		}
		return y
	}
	rel := func(x klines.IntervalTime) int64 {
		t.Twins = t.Twins && x.Time.Unix() == x.Ticks && x.Time.Nanosecond() == 0 && x.Equal(x.Time) && !x.Equal(x.Time.Add(time.Second))
		return k.rel(x.Ticks)
	}
	t.Err = guarded(callLimit, func() {
		err := commonutils.StartEndTimeCheck(at(t.S), at(t.E))
		switch {
		case err == nil:
		case errors.Is(err, commonutils.ErrDateUnset):
			t.Check = "unset"
		case errors.Is(err, commonutils.ErrStartAfterEnd):
			t.Check = "after"
		case errors.Is(err, commonutils.ErrStartEqualsEnd):
			t.Check = "equal"
		case errors.Is(err, commonutils.ErrStartAfterTimeNow):
			t.Check = "future"
		default:
			t.Check = "other"
		}
		if t.S != unset && t.E != unset {
			t.Count = klines.TotalCandlesPerInterval(at(t.S), at(t.E), k.interval(t.I))
			ms, origin := time.Millisecond, at(t.S).Add(time.Duration(r.Intn(1000))*time.Millisecond)
			t.Fine = klines.TotalCandlesPerInterval(origin, origin.Add(time.Duration(t.E-t.S)*ms), klines.Interval(time.Duration(t.I)*ms))
		}
		limit := uint32(t.Limit)
		if t.Limit < 0 {
			limit = math.MaxUint32
		}
		h, err := klines.CalculateCandleDateRanges(at(t.S), at(t.E), k.interval(t.I), limit)
		t.Refused = err != nil
		if err != nil {
			return
		}
		t.From, t.To = rel(h.Start), rel(h.End)
		no := int64(0)
		every := 2 + int(t.E-t.S)/80
		for x := range h.Ranges {
			q := Request{S: rel(h.Ranges[x].Start), E: rel(h.Ranges[x].End), Ivs: [][2]int64{}}
			for y := range h.Ranges[x].Intervals {
				iv := &h.Ranges[x].Intervals[y]
				q.Ivs = append(q.Ivs, [2]int64{rel(iv.Start), rel(iv.End)})
				no++
				if iv.HasData {
					t.Twins = false // nothing has data yet
				}
				if r.Intn(every) == 0 {
					iv.HasData = true
					t.Marks = append(t.Marks, no)
				}
			}
			t.Reqs = append(t.Reqs, q)
		}
		for x := t.From - 2; x <= t.To+2; x++ {
			b := int64(0)
			if h.HasDataAtDate(at(x)) {
				b = 1
			}
			t.Asked = append(t.Asked, [2]int64{x, b})
		}
	})
	return t
}

func init() {
	modes["ranges"] = func(args []string) {
		fl := flag.NewFlagSet("ranges", flag.ExitOnError)
		scripts := fl.String("scripts", "", "")
		seed := fl.Int64("seed", 1, "")
		out := fl.String("out", "", "")
		fl.Parse(args)
		var jobs []func() *RangeTrace
		for j, w := range readScripts(*scripts) {
			r := rng(*seed, fmt.Sprint("ranges", j))
			jobs = append(jobs, func() *RangeTrace { return runRange(w, r) })
		}
		s := newSink(*out)
		for i, t := range parallel(jobs) {
			t.Id = i
			s.put(t)
		}
		s.close()
		fmt.Println(s.n)
	}
}
