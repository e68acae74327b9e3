package main

import (
	"fmt"
	"math"
	"strconv"

	"pgregory.net/rapid"
)

// Counters and gauges: every operation is decided exactly.

type CaseCount struct {
	M      MetricSpec `json:"m"`
	Ops    []Op       `json:"ops"`
	Start  int        `json:"start"`  // the client is started before this operation; -1 never
	Stop   int        `json:"stop"`   // and stopped before this one
	Beside int        `json:"beside"` // further metrics registered next to it
}

func genCount(t *rapid.T, kinds []string) CaseCount {
	var x CaseCount
	k := rapid.SampledFrom(kinds).Draw(t, "kind")
	x.M = MetricSpec{Kind: k, Name: genName(t, "metric", 10), Type: tInt64}
	isF := k == "gauge" || k == "gvec"
	if isF {
		x.M.Type = tDouble
	}
	nv := 1
	if k == "cvec" || k == "gvec" {
		x.M.Insts = genInsts(t, "inst", 5, 20)
		if chance(t, "wide", 50) {
			for i := pick(t, "width", 12, 35, 70, 260); i > 0; i-- {
				x.M.Insts = append(x.M.Insts, QStr(fmt.Sprintf("wide%d", i)))
			}
		}
		nv = rapid.IntRange(1, 4).Draw(t, "nv")
	}
	for i := 0; i < nv; i++ {
		if isF {
			x.M.Vals = append(x.M.Vals, Val{"float64", fmtF(genFloat(t, "init"))})
		} else {
			n := int64(rapid.IntRange(0, 50).Draw(t, "small"))
			if chance(t, "wild", 3) {
				n = genInt(t, "init", math.MinInt64, math.MaxInt64)
			}
			x.M.Vals = append(x.M.Vals, Val{"int64", QStr(strconv.FormatInt(n, 10))})
		}
	}
	n := rapid.IntRange(1, 25).Draw(t, "nops")
	for i := 0; i < n; i++ {
		o := Op{A: rapid.SampledFrom(opActions(k)).Draw(t, "a"), I: rapid.IntRange(0, 5).Draw(t, "i"), Must: chance(t, "must", 4)}
		if len(x.M.Insts) > 6 {
			o.I = rapid.IntRange(0, len(x.M.Insts)-1).Draw(t, "iany")
		}
		if chance(t, "unknown", 10) {
			o.I = -1
		}
		var v Val
		if isF {
			v = Val{"float64", fmtF(genFloat(t, "f"))}
		} else {
			d := int64(rapid.IntRange(-3, 60).Draw(t, "d"))
			if chance(t, "big", 4) {
				d = genInt(t, "n", math.MinInt64, math.MaxInt64)
			}
			v = Val{"int64", QStr(strconv.FormatInt(d, 10))}
		}
		o.V = &v
		x.Ops = append(x.Ops, o)
	}
	if chance(t, "long", 60) {
		// a long history, of the same operations again and again
		k := rapid.IntRange(1, len(x.Ops)).Draw(t, "tail")
		tail := x.Ops[len(x.Ops)-k:]
		for r := pick(t, "again", 70, 150, 300); len(x.Ops) < r; {
			x.Ops = append(x.Ops, tail...)
		}
		n = len(x.Ops)
	}
	x.Start, x.Stop = -1, -1
	if !chance(t, "inactive", 4) {
		x.Start = rapid.IntRange(0, n/2).Draw(t, "start")
		if chance(t, "stops", 3) {
			x.Stop = rapid.IntRange(x.Start+1, n+1).Draw(t, "stop")
		}
	}
	x.Beside = rapid.IntRange(0, 2).Draw(t, "beside")
	return x
}

func init() {
	register(Prop{ID: "C08", Fuzz: true,
		Rule:  "case: a counter or counter vector with any initial values and a series of sets, increments, ups and All forms (negative, zero, overflowing, unknown instances, Must forms), before, during and after the client's run; non-trivial when at least one operation was accepted and one refused",
		Quick: Budget{Cases: 18000},
	}, func(t *rapid.T) CaseCount { return genCount(t, []string{"counter", "cvec", "cvec"}) }, runCount)

	register(Prop{ID: "C09", Fuzz: true,
		Rule:  "case: a gauge or gauge vector with any initial values and a series of sets, increments, decrements and All forms with any float64 (infinities, NaN, extremes), unknown instances and Must forms, before, during and after the client's run; non-trivial when at least two operations changed a value",
		Quick: Budget{Cases: 18000},
	}, func(t *rapid.T) CaseCount { return genCount(t, []string{"gauge", "gvec", "gvec"}) }, runCount)
}

// expect decides an operation on a counter or gauge: the values of the named
// instances afterwards, for each whether the operation is to be accepted.
func expect(m *LMetric, op Op) (names []string, want map[string]interface{}, ok map[string]bool, all bool) {
	want, ok = map[string]interface{}{}, map[string]bool{}
	vec := m.Insts != nil
	switch op.A {
	case "setall", "incall", "decall", "upall":
		all = true
		names = m.Insts
	default:
		if vec {
			if op.I < 0 || len(m.Insts) == 0 {
				names = []string{noInst}
			} else {
				names = []string{m.Insts[op.I%len(m.Insts)]}
			}
		} else {
			names = []string{""}
		}
	}
	for _, n := range names {
		old, has := m.Vals[n]
		if !has {
			continue
		}
		switch v := old.(type) {
		case int64:
			d := op.V.Go().(int64)
			switch op.A {
			case "set", "setall":
				want[n], ok[n] = d, d >= v
			case "up", "upall":
				want[n], ok[n] = v+1, v < math.MaxInt64
			default:
				want[n], ok[n] = v+d, d >= 0 && (v < 0 || d <= math.MaxInt64-v)
			}
		case float64:
			d := op.V.Go().(float64)
			ok[n] = true
			switch op.A {
			case "set", "setall":
				want[n] = d
			case "dec", "decall":
				want[n] = v - d
			default:
				want[n] = v + d
			}
		}
	}
	return
}

func runCount(c *Ctx, x CaseCount) {
	m := makeMetric(x.M, nil)
	if m == nil {
		c.Failf("cannot construct %+v", x.M)
	}
	s := newSession(c, "count")
	if err := s.Client.Register(m.Obj); err != nil {
		c.Failf("Register: %v", err)
	}
	s.noteRegistered(m)
	for i := 0; i < x.Beside; i++ {
		s.addMetric(MetricSpec{Kind: []string{"cvec", "gauge"}[i], Name: QStr(fmt.Sprintf("beside.%d", i)), Insts: x.M.Insts, Vals: []Val{{[]string{"int64", "float64"}[i], "9"}}})
	}
	acc, ref, changed := 0, 0, 0
	for n, op := range x.Ops {
		if n == x.Start {
			s.start()
			s.syncSlots()
		}
		if n == x.Stop && s.Active {
			if err := s.Client.Stop(); err != nil {
				c.Failf("Stop: %v", err)
			}
			s.Active = false
		}
		at := fmt.Sprintf("step %d: %s(%s) of instance %d on %s", n, op.A, op.V.V, op.I, x.M.Kind)
		names, want, ok, all := expect(m, op)
		u := m.update(op)
		good := true
		for _, nm := range names {
			good = good && ok[nm]
		}
		if (u.Err == nil) != good {
			c.Failf("%s: error %v, expected acceptance=%v; values were %v", at, u.Err, good, m.Vals)
		}
		if good {
			acc++
		} else {
			ref++
		}
		for _, nm := range names {
			if !ok[nm] {
				continue
			}
			if !good {
				// an All form that fails may have been applied to some of the instances
				if !all {
					continue
				}
				got, err, _ := m.reported(nm)
				if err != nil {
					c.Failf("%s: reading %q: %v", at, nm, err)
				}
				if !sameVal(got, want[nm]) {
					continue
				}
			}
			if !sameVal(m.Vals[nm], want[nm]) {
				changed++
			}
			m.Vals[nm] = want[nm]
		}
		if err := s.checkReported(); err != nil {
			c.Failf("%s: %v", at, err)
		}
		if s.Active {
			if err := s.allFileVals(s.read()); err != nil {
				c.Failf("%s: %v", at, err)
			}
		}
	}
	if m.Insts != nil {
		if v, err, _ := m.reported(noInst); err == nil {
			c.Failf("reading an unknown instance gives %v and no error", v)
		}
	}
	if !s.Active {
		s.start()
		s.syncSlots()
		if err := s.allFileVals(s.Snap); err != nil {
			c.Failf("published after the last operation: %v", err)
		}
	}
	if x.M.Type == tInt64 && acc > 0 && ref > 0 || x.M.Type != tInt64 && changed >= 2 {
		c.Nontrivial()
	}
	if ref > 0 {
		c.Label("refused")
	}
	if changed > 0 {
		c.Label("changed")
	}
}
