package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	histogram "github.com/HdrHistogram/hdrhistogram-go"
	"github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ C10

type RecC10 struct {
	V    int64 `json:"v"`
	N    int64 `json:"n"` // 0: Record, otherwise RecordN
	Must bool  `json:"must,omitempty"`
	Zero bool  `json:"zero,omitempty"` // RecordN, zero times
	Read bool  `json:"read,omitempty"` // percentiles and buckets are read afterwards
}

type CaseC10 struct {
	Lo    int64     `json:"lo"`
	Hi    int64     `json:"hi"`
	Sig   int       `json:"sig"`
	Recs  []RecC10  `json:"recs"`
	Ps    []float64 `json:"ps"`
	Start int       `json:"start"`
	Stop  int       `json:"stop"`
}

const histMax = 3600000000

func clampI(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func genC10(t *rapid.T) CaseC10 {
	var x CaseC10
	edge := func(label string) int64 {
		return pick(t, label, int64(0), 1, 2, -1, 7, 10, 100, 1000, 65535, 1000000, histMax-1, histMax, histMax+1, 1<<40, math.MaxInt64, math.MinInt64)
	}
	switch pick(t, "bounds", 0, 0, 0, 1, 2) {
	case 0:
		x.Lo = rapid.Int64Range(0, 50).Draw(t, "lo")
		x.Hi = x.Lo + rapid.Int64Range(0, 5000).Draw(t, "width")
	case 1:
		x.Lo, x.Hi = edge("loe"), edge("hie")
	case 2:
		x.Lo = rapid.Int64Range(-5, histMax+5).Draw(t, "low")
		x.Hi = rapid.Int64Range(-5, histMax+5).Draw(t, "high")
		if x.Lo > x.Hi && !chance(t, "swapped", 5) {
			x.Lo, x.Hi = x.Hi, x.Lo
		}
	}
	x.Sig = pick(t, "sig", 1, 1, 2, 2, 3, 3, 4, 5, 0, -3, 6, 100)
	lo, hi := clampI(x.Lo, 0, histMax), clampI(x.Hi, 0, histMax)
	max := 20
	if x.Sig > 3 && hi > 1<<20 {
		max = 4
	}
	n := rapid.IntRange(0, max).Draw(t, "nrecs")
	if x.Sig <= 2 && hi <= 1<<20 && chance(t, "longrun", 60) {
		n = pick(t, "nlong", 70, 150, 300)
	}
	for i := 0; i < n; i++ {
		var r RecC10
		switch pick(t, "where", 0, 0, 0, 0, 1, 2, 3) {
		case 0:
			if lo <= hi {
				r.V = rapid.Int64Range(lo, hi).Draw(t, "v")
			}
		case 1:
			r.V = pick(t, "edge", lo, hi, lo+1, hi-1, 0, 1)
		case 2:
			r.V = pick(t, "out", hi+1, 2*hi+2, 4*hi+1000000, math.MaxInt64, -1, math.MinInt64, histMax, lo-1, 1<<45)
		case 3:
			if len(x.Recs) > 0 {
				r.V = x.Recs[rapid.IntRange(0, len(x.Recs)-1).Draw(t, "again")].V + rapid.Int64Range(-1, 1).Draw(t, "delta")
			}
		}
		if chance(t, "many", 3) {
			r.N = rapid.Int64Range(1, 50).Draw(t, "n")
			if chance(t, "neg", 8) {
				r.N = -r.N
			}
			if chance(t, "lots", 6) {
				r.N = rapid.Int64Range(1, 100000).Draw(t, "nn")
			}
			if chance(t, "huge", 8) {
				r.N = pick(t, "nh", rapid.Int64Range(1, 1<<40).Draw(t, "n40"), 1<<31, 1<<32, 3000000000, 1<<53+1, 1<<51, 1<<52-50, 1<<52, 1<<62, math.MaxInt64-1, math.MaxInt64)
			}
		}
		r.Must = chance(t, "must", 5)
		r.Zero = chance(t, "zero", 25)
		r.Read = chance(t, "read", 6)
		x.Recs = append(x.Recs, r)
	}
	for i := 0; i < 4; i++ {
		x.Ps = append(x.Ps, pick(t, "p", 0, 1, 10, 25, 50, 75, 90, 99, 99.9, 99.99, 99.999, 0.01, 100, float64(rapid.IntRange(0, 1000).Draw(t, "pm"))/10, rapid.Float64Range(0, 100).Draw(t, "pf")))
	}
	x.Start, x.Stop = -1, -1
	if rapid.Bool().Draw(t, "active") {
		x.Start = rapid.IntRange(0, n).Draw(t, "start")
		if chance(t, "stops", 3) {
			x.Stop = rapid.IntRange(x.Start, n).Draw(t, "stop")
		}
	}
	return x
}

func init() {
	register(Prop{ID: "C10", Fuzz: true,
		Rule:   "case: bounds and precision (inside, at and beyond the limits), a series of Record/RecordN calls with values inside and outside the bounds and any counts, percentiles to read, and when the client is started and stopped; non-trivial when at least two different values were accepted",
		Assume: []string{"what makes more than 2^52 recordings may be refused", "values between the upper bound and the end of its bucket may be accepted or refused"},
		Quick:  Budget{Cases: 1500},
	}, genC10, runC10)

	register(Prop{ID: "C11",
		Rule:   "case: a unit and a series of Start, Stop, Reset (also when not allowed), waits of up to a few milliseconds and client restarts; non-trivial when at least one interval with a wait inside was accumulated",
		Assume: []string{"elapsed time is bracketed by the monotonic clock read around the calls"},
		Quick:  Budget{Cases: 4000, Shards: 16},
	}, genC11, runC11)

	register(Prop{ID: "C12", Fuzz: true,
		Rule:  "case: a starting unit and a series of compositions with any exponents, some dimensions given again later; non-trivial when at least two dimensions with non-zero exponents are composed",
		Quick: Budget{Cases: 350000},
	}, genC12, runC12)
}

func closeTo(a, b, tol float64) bool {
	return a == b || math.Abs(a-b) <= tol
}

// moments are the mean and the standard deviation of a histogram; its own Mean adds up in an int64, which can overflow.
func moments(h *histogram.Histogram) (mean, sd float64) {
	n := float64(h.TotalCount())
	if n == 0 {
		return 0, 0
	}
	if n*float64(h.Max()) < 1<<61 {
		return h.Mean(), h.StdDev()
	}
	bars := h.Distribution()
	mid := func(b histogram.Bar) float64 { return float64(b.From + (b.To-b.From+1)/2) }
	for _, b := range bars {
		mean += mid(b) * float64(b.Count) / n
	}
	for _, b := range bars {
		sd += (mid(b) - mean) * (mid(b) - mean) * (float64(b.Count) / n)
	}
	return mean, math.Sqrt(sd)
}

func runC10(c *Ctx, x CaseC10) {
	h, err := speed.NewPCPHistogram("hist", x.Lo, x.Hi, x.Sig, speed.OneUnit)
	if x.Lo > x.Hi {
		if err == nil {
			c.Failf("histogram with bounds %d..%d was constructed", x.Lo, x.Hi)
		}
		return
	}
	if err != nil {
		c.Failf("histogram with bounds %d..%d, precision %d: %v", x.Lo, x.Hi, x.Sig, err)
	}
	lo, hi, sig := clampI(x.Lo, 0, histMax), clampI(x.Hi, 0, histMax), int(clampI(int64(x.Sig), 1, 5))
	low := h.Low()
	if h.High() != hi || low != lo && !(lo == 0 && low == 1) {
		c.Failf("bounds %d..%d: High()=%d Low()=%d, expected %d and %d", x.Lo, x.Hi, h.High(), low, hi, lo)
	}
	// hdrhistogram cannot hold hi itself when hi starts a bucket; its statistics do not depend on the upper bound
	ref := histogram.New(lo, hi+1, sig)
	s := newSession(c, "hist")
	m := &LMetric{Spec: MetricSpec{Kind: "hist"}, Obj: h, Name: "hist", Type: tDouble, Sem: 3, Unit: uint32(speed.OneUnit), Vals: map[string]interface{}{}, Insts: []string{"max", "mean", "min", "standard_deviation", "variance"}}
	m.Indom = &LIndom{Obj: h.Indom(), Name: h.Indom().Name(), Insts: m.Insts}
	if err := s.Client.Register(h); err != nil {
		c.Failf("Register: %v", err)
	}
	s.noteRegistered(m)
	type vn struct{ v, n int64 }
	var ms []vn
	total := int64(0)
	var empty *[5]float64
	different := map[int64]bool{}
	check := func(at string) {
		if total == 0 {
			// nothing recorded: nothing to report, but it stays as it was
			got := [5]float64{float64(h.Min()), float64(h.Max()), h.Mean(), h.StandardDeviation(), h.Variance()}
			if empty == nil {
				empty = &got
			}
			if got != *empty {
				c.Failf("%s: an empty histogram reports %v, at first it reported %v", at, got, *empty)
			}
		} else if h.Min() != ref.Min() || h.Max() != ref.Max() {
			c.Failf("%s: Min()=%d Max()=%d, expected %d and %d", at, h.Min(), h.Max(), ref.Min(), ref.Max())
		}
		mn, sd := moments(ref)
		off := 1e-7*sd + 1e-12*mn
		if total == 0 {
		} else if !closeTo(h.Mean(), mn, 1e-9*mn) || !closeTo(h.StandardDeviation(), sd, off) || !closeTo(h.Variance(), sd*sd, 2*sd*off+off*off) {
			c.Failf("%s: mean %v, standard deviation %v, variance %v; expected %v, %v, %v", at, h.Mean(), h.StandardDeviation(), h.Variance(), mn, sd, sd*sd)
		}
		for _, n := range m.Insts {
			m.Vals[n], _, _ = m.reported(n)
		}
		if s.Active {
			if err := s.allFileVals(s.read()); err != nil {
				c.Failf("%s: %v", at, err)
			}
		}
		if total == 0 {
			return
		}
		// against the values themselves, within the precision
		unit := 1.0
		for int64(unit)*2 <= lo {
			unit *= 2
		}
		tol := func(v float64) float64 { return math.Max(unit, v/math.Pow10(sig)) + 1e-9*v }
		min, max, sum := int64(math.MaxInt64), int64(-1), 0.0
		for _, e := range ms {
			if e.v < min {
				min = e.v
			}
			if e.v > max {
				max = e.v
			}
			sum += float64(e.v) * float64(e.n)
		}
		mean := sum / float64(total)
		if !closeTo(float64(h.Min()), float64(min), tol(float64(min))) || !closeTo(float64(h.Max()), float64(max), tol(float64(max))) || !closeTo(h.Mean(), mean, tol(float64(max))) {
			c.Failf("%s: Min()=%d Max()=%d Mean()=%v; the values recorded have %d, %d, %v", at, h.Min(), h.Max(), h.Mean(), min, max, mean)
		}
		dev := 0.0
		for _, e := range ms {
			dev += (float64(e.v) - mean) * (float64(e.v) - mean) * float64(e.n)
		}
		dev = math.Sqrt(dev / float64(total))
		if !closeTo(h.StandardDeviation(), dev, 2*tol(float64(max))) {
			c.Failf("%s: StandardDeviation()=%v; the values recorded have %v", at, h.StandardDeviation(), dev)
		}
	}
	var held []*speed.HistogramBucket
	reads := func(at string) {
		ps := append([]float64{}, x.Ps...)
		if total > 0 {
			// either side of where one recorded value ends and the next begins
			es := append([]vn{}, ms...)
			sort.Slice(es, func(i, j int) bool { return es[i].v < es[j].v })
			n := int64(0)
			for _, e := range es {
				n += e.n
				for _, d := range []float64{-1.4, -0.6, 0.4} {
					if p := (float64(n) + d) / float64(total) * 100; p >= 0 && p <= 100 {
						ps = append(ps, p)
					}
				}
			}
		}
		for _, p := range ps {
			got, want := h.Percentile(p), ref.ValueAtQuantile(p)
			if got != want {
				c.Failf("%s: Percentile(%v)=%d, expected %d", at, p, got, want)
			}
			if total > 0 {
				es := append([]vn{}, ms...)
				sort.Slice(es, func(i, j int) bool { return es[i].v < es[j].v })
				// the smallest value with at least that share at or below it, one recording either way
				rank := p/100*float64(total) + 0.5
				below := int64(0)
				lowV, highV := es[0].v, es[len(es)-1].v
				for _, e := range es {
					slack := 1.01 + rank*1e-15
					if float64(below+e.n) < rank-slack {
						lowV = e.v
					}
					if float64(below) > rank+slack {
						highV = e.v
						break
					}
					below += e.n
				}
				if rank < 1 { // less than half a recording: hdrhistogram answers 0
					lowV = 0
				}
				unit := math.Max(1, float64(lo))
				if float64(got) < float64(lowV)*(1-math.Pow10(-sig))-unit || float64(got) > float64(highV)*(1+math.Pow10(-sig))+unit {
					c.Failf("%s: Percentile(%v)=%d is not between the neighbouring recorded values %d and %d", at, p, got, lowV, highV)
				}
			}
		}
		want := ref.Distribution()
		got := h.Buckets()
		for i, b := range held {
			if b == nil || *b != (speed.HistogramBucket{From: -7, To: -7, Count: 7}) {
				c.Failf("%s: bucket %d of a list returned earlier, which its owner had set, is now %+v", at, i, b)
			}
		}
		for len(want) > 0 && want[len(want)-1].Count == 0 {
			want = want[:len(want)-1]
		}
		for len(got) > 0 && got[len(got)-1].Count == 0 {
			got = got[:len(got)-1]
		}
		if len(got) != len(want) {
			c.Failf("%s: %d buckets, expected %d", at, len(got), len(want))
		}
		n := int64(0)
		for i, b := range got {
			if b.From != want[i].From || b.To != want[i].To || b.Count != want[i].Count {
				c.Failf("%s: bucket %d is %+v, expected %+v", at, i, *b, want[i])
			}
			n += b.Count
			// the list is the caller's, who can do with it what he likes
			b.From, b.To, b.Count = -7, -7, 7
		}
		held = got
		if n != total {
			c.Failf("%s: buckets hold %d recordings, %d were accepted", at, n, total)
		}
	}
	check("new histogram")
	for i := 0; i <= len(x.Recs); i++ {
		if i == x.Start {
			s.start()
			s.syncSlots()
			check("after Start")
		}
		if i == x.Stop && s.Active {
			if err := s.Client.Stop(); err != nil {
				c.Failf("Stop: %v", err)
			}
			s.Active = false
			check("after Stop")
		}
		if i == len(x.Recs) {
			break
		}
		r := x.Recs[i]
		at := fmt.Sprintf("recording %d (%d times %d) in %d..%d", i, r.N, r.V, lo, hi)
		n := r.N
		var err error
		call := func(f func(), g func() error) {
			if r.Must {
				if p := panics(f); p != nil {
					if _, rt := p.(interface{ RuntimeError() }); rt {
						panic(p)
					}
					err = fmt.Errorf("%v", p)
				}
				return
			}
			err = g()
		}
		if r.Zero {
			n = 0
			call(func() { h.MustRecordN(r.V, 0) }, func() error { return h.RecordN(r.V, 0) })
			err = nil // nothing to refuse, nothing to record
			c.Label("zero times")
			if total == 0 {
				empty = nil // an empty histogram has no minimum or maximum, hdrhistogram reports the bounds of the lowest bucket
			}
			check(at)
			continue
		}
		if n == 0 {
			n = 1
			call(func() { h.MustRecord(r.V) }, func() error { return h.Record(r.V) })
		} else {
			call(func() { h.MustRecordN(r.V, n) }, func() error { return h.RecordN(r.V, n) })
		}
		if n < 0 {
			if err == nil {
				c.Failf("%s: a negative count was accepted", at)
			}
			c.Label("negative count")
		} else {
			// probe what the reference accepts
			refErr := histogram.Import(&histogram.Snapshot{LowestTrackableValue: lo, HighestTrackableValue: hi + 1, SignificantFigures: int64(sig), Counts: make([]int64, len(ref.Export().Counts))}).RecordValues(r.V, 1)
			switch {
			case n > math.MaxInt64-total: // cannot be counted
				if err == nil {
					c.Failf("%s: accepted, after %d recordings", at, total)
				}
				c.Label("too many")
			case n > 1<<52-total && err != nil:
				c.Label("too many")
			case r.V >= lo && r.V <= hi && err != nil:
				c.Failf("%s: refused: %v", at, err)
			case refErr != nil && err == nil:
				c.Failf("%s: accepted", at)
			}
		}
		if err == nil {
			if e := ref.RecordValues(r.V, n); e != nil {
				c.Infraf("reference refuses %d: %v", r.V, e)
			}
			ms = append(ms, vn{r.V, n})
			total += n
			different[r.V] = true
		} else {
			c.Label("refused")
		}
		check(at)
		if r.Read {
			reads(at)
			check(at + ", after reading percentiles and buckets")
		}
	}
	reads("at the end")
	if len(different) >= 2 {
		c.Nontrivial()
	}
	c.Label(fmt.Sprintf("precision %d", sig))
}

// ------------------------------------------------------------------ C11

type StepC11 struct {
	A string `json:"a"` // start stop reset wait restart
	N int    `json:"n,omitempty"`
}

type CaseC11 struct {
	Unit  int       `json:"unit"`
	Steps []StepC11 `json:"steps"`
}

func genC11(t *rapid.T) CaseC11 {
	x := CaseC11{Unit: rapid.IntRange(0, 5).Draw(t, "unit")}
	n := rapid.IntRange(2, 14).Draw(t, "n")
	for i := 0; i < n; i++ {
		s := StepC11{A: pick(t, "a", "start", "start", "stop", "stop", "reset", "wait", "wait", "restart")}
		if s.A == "wait" {
			s.N = rapid.IntRange(0, 3000).Draw(t, "us")
			if chance(t, "longwait", 2000) {
				s.N = 1200000
			}
		}
		x.Steps = append(x.Steps, s)
	}
	return x
}

func runC11(c *Ctx, x CaseC11) {
	unit := timeUnit(x.Unit)
	per := []float64{1, 1e3, 1e6, 1e9, 60e9, 3600e9}[x.Unit]
	tm, err := speed.NewPCPTimer("timer", unit, "a timer")
	if err != nil {
		c.Failf("NewPCPTimer: %v", err)
	}
	s := newSession(c, "timer")
	m := &LMetric{Spec: MetricSpec{Kind: "timer"}, Obj: tm, Name: "timer", Type: tDouble, Sem: 4, Unit: uint32(unit), Short: "a timer", Vals: map[string]interface{}{"": float64(0)}}
	if err := s.Client.Register(tm); err != nil {
		c.Failf("Register: %v", err)
	}
	s.noteRegistered(m)
	s.start()
	s.syncSlots()
	total, running := 0.0, false
	var t0, t1 time.Time
	waited, accumulated := false, false
	published := func(at string) {
		got, err := s.fileVal(s.read(), m, "")
		if err != nil || got != total {
			c.Failf("%s: the file holds %v (%v), expected the total %v", at, got, err, total)
		}
	}
	for i, st := range x.Steps {
		at := fmt.Sprintf("step %d (%s), unit %v", i, st.A, unit)
		switch st.A {
		case "wait":
			time.Sleep(time.Duration(st.N) * time.Microsecond)
			waited = waited || running && st.N > 0
		case "start":
			before := time.Now()
			err := tm.Start()
			after := time.Now()
			if (err != nil) != running {
				c.Failf("%s: error %v with running=%v", at, err, running)
			}
			if err == nil {
				running, t0, t1 = true, before, after
			}
		case "stop":
			before := time.Now()
			got, err := tm.Stop()
			after := time.Now()
			if (err == nil) != running {
				c.Failf("%s: error %v with running=%v", at, err, running)
			}
			if err != nil {
				break
			}
			running = false
			min, max := float64(before.Sub(t1))/per, float64(after.Sub(t0))/per
			tol := 1e-12*math.Abs(got) + 1.5/per
			if got-total < min-tol || got-total > max+tol {
				c.Failf("%s: total went from %v to %v; the interval took between %v and %v", at, total, got, min, max)
			}
			total = got
			accumulated = accumulated || waited
			waited = false
		case "reset":
			err := tm.Reset()
			if (err != nil) != running {
				c.Failf("%s: error %v with running=%v", at, err, running)
			}
			if err == nil {
				total = 0
			}
		case "restart":
			if err := s.Client.Stop(); err != nil {
				c.Failf("Stop: %v", err)
			}
			s.Active = false
			s.start()
			s.syncSlots()
		}
		published(at)
	}
	if accumulated {
		c.Nontrivial()
	}
	c.Label(unit.String())
}

// ------------------------------------------------------------------ C12

type CaseC12 struct {
	Base int      `json:"base"`
	Ops  []UnitOp `json:"ops"`
	Perm []int    `json:"perm"`
	// dimensions composed once more: the last one given counts
	Again []UnitOp `json:"again,omitempty"`
	Bad   *UnitOp  `json:"bad,omitempty"` // a composition with this exponent must panic
}

func genC12(t *rapid.T) CaseC12 {
	x := CaseC12{Base: rapid.IntRange(0, 14).Draw(t, "base")}
	dims := rapid.Permutation([]int{0, 1, 2}).Draw(t, "dims")
	n := rapid.IntRange(0, 3).Draw(t, "n")
	bd := UnitSpec{Base: x.Base}.baseDim()
	for _, d := range dims[:n] {
		if d == bd {
			continue
		}
		hi := maxScale(d)
		if chance(t, "unnamed", 3) {
			hi = 15 // a scale without a name of its own, as PCP allows for counts
		}
		x.Ops = append(x.Ops, UnitOp{D: d, S: rapid.IntRange(0, hi).Draw(t, "s"), E: int8(rapid.IntRange(-8, 7).Draw(t, "e"))})
	}
	idx := []int{}
	for i := range x.Ops {
		idx = append(idx, i)
	}
	if len(idx) > 0 {
		idx = rapid.Permutation(idx).Draw(t, "perm")
	}
	x.Perm = idx
	if len(x.Ops) > 0 && chance(t, "again", 4) {
		for i := rapid.IntRange(1, 2).Draw(t, "nagain"); i > 0; i-- {
			d := x.Ops[rapid.IntRange(0, len(x.Ops)-1).Draw(t, "which")].D
			x.Again = append(x.Again, UnitOp{D: d, S: rapid.IntRange(0, maxScale(d)).Draw(t, "as"), E: int8(rapid.IntRange(-8, 7).Draw(t, "ae"))})
		}
	}
	if chance(t, "bad", 4) {
		d := rapid.IntRange(0, 2).Draw(t, "bd")
		e := pick(t, "be", 8, 9, 15, 16, 127, -9, -10, -16, -128)
		x.Bad = &UnitOp{D: d, S: rapid.IntRange(0, maxScale(d)).Draw(t, "bs"), E: int8(e)}
	}
	return x
}

var baseUnits = []speed.MetricUnit{speed.ByteUnit, speed.KilobyteUnit, speed.MegabyteUnit, speed.GigabyteUnit, speed.TerabyteUnit, speed.PetabyteUnit, speed.ExabyteUnit,
	speed.NanosecondUnit, speed.MicrosecondUnit, speed.MillisecondUnit, speed.SecondUnit, speed.MinuteUnit, speed.HourUnit, speed.OneUnit}

func namedUnit(d, s int) string {
	switch d {
	case 0:
		return []string{"ByteUnit", "KilobyteUnit", "MegabyteUnit", "GigabyteUnit", "TerabyteUnit", "PetabyteUnit", "ExabyteUnit"}[s]
	case 1:
		return []string{"NanosecondUnit", "MicrosecondUnit", "MillisecondUnit", "SecondUnit", "MinuteUnit", "HourUnit"}[s]
	}
	return "OneUnit"
}

func runC12(c *Ctx, x CaseC12) {
	// the constants of the dump package are the same units
	for i, u := range []mmvdump.Unit{mmvdump.ByteUnit, mmvdump.KilobyteUnit, mmvdump.MegabyteUnit, mmvdump.GigabyteUnit, mmvdump.TerabyteUnit, mmvdump.PetabyteUnit, mmvdump.ExabyteUnit,
		mmvdump.NanosecondUnit, mmvdump.MicrosecondUnit, mmvdump.MillisecondUnit, mmvdump.SecondUnit, mmvdump.MinuteUnit, mmvdump.HourUnit, mmvdump.OneUnit} {
		if uint32(u) != baseUnits[i].PMAPI() {
			c.Failf("mmvdump's unit %d is %#x, the library's is %#x", i, uint32(u), baseUnits[i].PMAPI())
		}
	}
	mk := func() speed.MetricUnit {
		if x.Base == 0 {
			return speed.NewMetricUnit()
		}
		return baseUnits[x.Base-1]
	}
	// units composed onto, and what they were before: they stay as they are
	type onto struct {
		u     speed.MetricUnit
		repr  uint32
		o     UnitOp
		times int
	}
	var bases []onto
	apply := func(u speed.MetricUnit, o UnitOp) speed.MetricUnit {
		bases = append(bases, onto{u, u.PMAPI(), o, len(bases)})
		switch o.D {
		case 0:
			return u.Space(speed.ByteUnit+speed.SpaceUnit(o.S)<<16, o.E)
		case 1:
			return u.Time(speed.NanosecondUnit+speed.TimeUnit(o.S)<<12, o.E)
		}
		return u.Count(speed.OneUnit+speed.CountUnit(o.S)<<8, o.E)
	}
	// what each dimension should be
	var exp [3]int
	var scale [3]int
	given := [3]bool{}
	switch (UnitSpec{Base: x.Base}).baseDim() {
	case 0:
		exp[0], scale[0], given[0] = 1, x.Base-1, true
	case 1:
		exp[1], scale[1], given[1] = 1, x.Base-8, true
	case 2:
		exp[2], given[2] = 1, true
	}
	for _, o := range x.Ops {
		exp[o.D], scale[o.D], given[o.D] = int(o.E), o.S, true
	}
	decode := func(at string, r uint32) {
		sx := func(v uint32) int { return int(int32(v<<28) >> 28) }
		gotE := [3]int{sx(r >> 28), sx(r >> 24), sx(r >> 20)}
		gotS := [3]int{int(r >> 16 & 15), int(r >> 12 & 15), int(r >> 8 & 15)}
		for d, name := range []string{"space", "time", "count"} {
			if gotE[d] != exp[d] {
				c.Failf("%s: %#x has %s exponent %d, expected %d", at, r, name, gotE[d], exp[d])
			}
			if gotS[d] != scale[d] && !(exp[d] == 0 && gotS[d] == 0) {
				c.Failf("%s: %#x has %s scale %d, expected %d", at, r, name, gotS[d], scale[d])
			}
		}
		// and the dump package takes it apart in the same way
		mu := mmvdump.Unit(r)
		for d, got := range [][2]int{{int(mu.SpaceDim()), int(mu.SpaceScale())}, {int(mu.TimeDim()), int(mu.TimeScale())}, {int(mu.CountDim()), int(mu.CountScale())}} {
			if got != [2]int{gotE[d], gotS[d]} {
				c.Failf("%s: mmvdump finds exponent and scale %v in dimension %d of %#x, expected %d and %d", at, got, d, r, gotE[d], gotS[d])
			}
		}
		if r&0xff != 0 {
			c.Failf("%s: %#x has bits outside the six fields", at, r)
		}
	}
	text := func(at string, u speed.MetricUnit) {
		n := 0
		for d := range exp {
			if exp[d] == 0 {
				continue
			}
			n++
			if scale[d] > maxScale(d) {
				continue
			}
			if want := fmt.Sprintf("%s^%d", namedUnit(d, scale[d]), exp[d]); !strings.Contains(u.String(), want) {
				c.Failf("%s: text %q does not name %s", at, u.String(), want)
			}
		}
		if strings.Count(u.String(), "^") != n {
			c.Failf("%s: text %q names something else than the %d components %v", at, u.String(), n, exp)
		}
	}
	// the composed unit's own account of its parts
	own := func(at string, u speed.MetricUnit) {
		if s, ok := u.(interface {
			SpaceDim() int8
			TimeDim() int8
			CountDim() int8
		}); ok {
			for d, got := range []int8{s.SpaceDim(), s.TimeDim(), s.CountDim()} {
				if int(got) != exp[d] {
					c.Failf("%s: the unit gives exponent %d of dimension %d, expected %d", at, got, d, exp[d])
				}
			}
		}
		if s, ok := u.(interface{ SpaceScale() speed.SpaceUnit }); ok && exp[0] != 0 {
			if got, want := s.SpaceScale(), speed.ByteUnit+speed.SpaceUnit(scale[0])<<16; got != want {
				c.Failf("%s: the unit gives space scale %#x, expected %#x", at, uint32(got), uint32(want))
			}
		}
		if s, ok := u.(interface{ TimeScale() speed.TimeUnit }); ok && exp[1] != 0 {
			if got, want := s.TimeScale(), speed.NanosecondUnit+speed.TimeUnit(scale[1])<<12; got != want {
				c.Failf("%s: the unit gives time scale %#x, expected %#x", at, uint32(got), uint32(want))
			}
		}
		if s, ok := u.(interface{ CountScale() speed.CountUnit }); ok && exp[2] != 0 {
			if got, want := s.CountScale(), speed.OneUnit+speed.CountUnit(scale[2])<<8; got != want {
				c.Failf("%s: the unit gives count scale %#x, expected %#x", at, uint32(got), uint32(want))
			}
		}
	}
	u := mk()
	for _, o := range x.Ops {
		u = apply(u, o)
	}
	decode("in order", u.PMAPI())
	own("in order", u)
	v := mk()
	for _, i := range x.Perm {
		v = apply(v, x.Ops[i])
	}
	decode("reordered", v.PMAPI())
	own("reordered", v)
	if u.PMAPI() != v.PMAPI() {
		c.Failf("composition order matters: %#x and %#x", u.PMAPI(), v.PMAPI())
	}
	if len(x.Ops) > 0 || x.Base == 0 {
		text("in order", u)
		text("reordered", v)
	} else if u.String() != namedUnit((UnitSpec{Base: x.Base}).baseDim(), scale[0]+scale[1]) {
		c.Failf("base unit has text %q", u.String())
	}
	if x.Base > 0 {
		for d := 0; d < 3; d++ {
			if d == (UnitSpec{Base: x.Base}).baseDim() {
				if p := panics(func() { apply(mk(), UnitOp{D: d, E: 1}) }); p == nil {
					c.Failf("a base unit accepted another unit of its own dimension")
				}
			}
		}
	}
	if len(x.Again) > 0 {
		for _, o := range x.Again {
			u, v = apply(u, o), apply(v, o)
			exp[o.D], scale[o.D], given[o.D] = int(o.E), o.S, true
			at := fmt.Sprintf("after composing dimension %d again, with scale %d and exponent %d", o.D, o.S, o.E)
			decode(at, u.PMAPI())
			own(at, u)
			text(at, u)
			if u.PMAPI() != v.PMAPI() {
				c.Failf("composition order matters: %#x and %#x", u.PMAPI(), v.PMAPI())
			}
		}
		c.Label("dimension given again")
	}
	before := u.PMAPI()
	if x.Bad != nil {
		if p := panics(func() { apply(u, *x.Bad) }); p == nil {
			c.Failf("exponent %d was accepted", x.Bad.E)
		}
		if u.PMAPI() != before {
			c.Failf("the refused exponent %d changed the unit from %#x to %#x", x.Bad.E, before, u.PMAPI())
		}
		c.Label("exponent out of range")
	}
	nz := 0
	for d := range exp {
		if exp[d] != 0 && given[d] {
			nz++
		}
	}
	if nz >= 2 {
		c.Nontrivial()
	}
	for _, b := range bases {
		if b.u.PMAPI() != b.repr {
			c.Failf("composition %d, of dimension %d with exponent %d, changed the unit it started from, from %#x to %#x", b.times, b.o.D, b.o.E, b.repr, b.u.PMAPI())
		}
	}
	// units given to metrics are published as they are
	if m, err := speed.NewPCPSingletonMetric(1, "m", speed.Int32Type, speed.InstantSemantics, u); err != nil || m.Unit().PMAPI() != before {
		c.Failf("a metric constructed with unit %#x has %v (%v)", before, m, err)
	}
}
