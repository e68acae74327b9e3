package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/performancecopilot/speed/v4"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ C18

// A COp is one call made by one of several goroutines.
type COp struct {
	M int    `json:"m"`
	A string `json:"a"`
	I int    `json:"i,omitempty"`
	N int64  `json:"n,omitempty"`
}

type CaseC18 struct {
	Metrics []MetricSpec `json:"metrics"`
	Progs   [][]COp      `json:"progs"`
	Reps    int          `json:"reps"` // each program is repeated this often; 1: linearizability is decided
	Yield   bool         `json:"yield,omitempty"`
	Off     bool         `json:"off,omitempty"` // the client is not started before the end
}

// hop is a completed call on one cell (a metric, or one instance of it).
type hop struct {
	A         string
	Arg, Out  int64
	OK        bool
	Call, Ret int64
	G         int
}

func (h hop) String() string {
	r := fmt.Sprintf("%s(%d)", h.A, h.Arg)
	if h.A == "get" || strings.HasPrefix(h.A, "get") || h.A == "stop" && h.OK {
		r += fmt.Sprintf("=%d", h.Out)
	}
	if !h.OK {
		r += "=refused"
	}
	return fmt.Sprintf("g%d:%s[%d..%d]", h.G, r, h.Call, h.Ret)
}

type cellKey struct {
	M    int
	Inst string
}

// numVal is the n-th value of a type; distinct for 0 <= n < 2^24.
func numVal(ty int32, n int64) interface{} {
	switch ty {
	case tInt32:
		return int32(n)
	case tUint32:
		return uint32(n)
	case tInt64:
		return n
	case tUint64:
		return uint64(n)
	case tFloat:
		return float32(n)
	case tDouble:
		return float64(n)
	}
	return fmt.Sprintf("value %d", n)
}

func valNum(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case int32:
		return int64(x), true
	case uint32:
		return int64(x), true
	case int64:
		return x, true
	case uint64:
		return int64(x), x < 1<<63
	case float32:
		return int64(x), float32(int64(x)) == x
	case float64:
		return int64(x), float64(int64(x)) == x
	case string:
		var n int64
		k, err := fmt.Sscanf(x, "value %d", &n)
		return n, k == 1 && err == nil && fmt.Sprintf("value %d", n) == x
	}
	return 0, false
}

func genConcMetrics(t *rapid.T) (ms []MetricSpec) {
	n := pick(t, "n", 1, 1, 2, 3, 5)
	for i := 0; i < n; i++ {
		m := MetricSpec{Kind: pick(t, "kind", "counter", "gauge", "cvec", "gvec", "hist", "timer", "singleton", "inst"), Name: QStr(fmt.Sprintf("conc.m%d", i))}
		m.Type = tInt64
		switch m.Kind {
		case "counter", "cvec":
			m.Vals = []Val{{"int64", QStr(fmt.Sprint(rapid.IntRange(0, 1000).Draw(t, "v0")))}}
		case "gauge", "gvec":
			m.Type = tDouble
			m.Vals = []Val{{"float64", QStr(fmt.Sprint(rapid.IntRange(-1000, 1000).Draw(t, "v0")))}}
		case "singleton", "inst":
			m.Type = pick(t, "type", tInt32, tUint32, tInt64, tUint64, tFloat, tDouble, tString)
			m.Sem = 3
		case "hist":
			m.Lo, m.Hi, m.Sig = 1, 1500, 3
		}
		if m.Kind == "cvec" || m.Kind == "gvec" || m.Kind == "inst" {
			k := rapid.IntRange(1, 3).Draw(t, "ninst")
			for j := 0; j < k; j++ {
				m.Insts = append(m.Insts, QStr(fmt.Sprintf("i%d", j)))
			}
		}
		ms = append(ms, m)
	}
	return
}

func concActions(kind string, lin bool) []string {
	switch kind {
	case "counter":
		if lin {
			return []string{"inc", "inc", "up", "get", "set", "set", "bad"}
		}
		return []string{"inc", "inc", "up", "get", "touch", "bad"}
	case "gauge":
		if lin {
			return []string{"inc", "dec", "get", "set"}
		}
		return []string{"inc", "dec", "get"}
	case "cvec":
		if lin {
			return []string{"inc", "inc", "up", "get", "incall", "upall", "set", "bad"}
		}
		return []string{"inc", "inc", "up", "get", "incall", "upall", "touch", "bad"}
	case "gvec":
		if lin {
			return []string{"inc", "dec", "get", "incall", "decall", "set", "setall", "bad"}
		}
		return []string{"inc", "dec", "get", "incall", "decall", "bad"}
	case "hist":
		return []string{"rec", "rec", "recn", "getmax", "getmin", "getmean", "getcount", "getp100", "getdev", "bad"}
	case "timer":
		return []string{"start", "stop", "start", "stop", "reset"}
	case "singleton":
		return []string{"set", "set", "get", "text", "bad"}
	}
	return []string{"set", "set", "get", "bad"}
}

func genC18(t *rapid.T) CaseC18 {
	x := CaseC18{Metrics: genConcMetrics(t), Reps: pick(t, "reps", 1, 1, 20, 100, 300), Yield: chance(t, "yield", 3), Off: chance(t, "off", 6)}
	g := rapid.IntRange(2, 6).Draw(t, "g")
	maxOps := 6
	if x.Reps == 1 {
		maxOps = 5
		g = 2 + (g-2)/2
	}
	for i := 0; i < g; i++ {
		var prog []COp
		n := rapid.IntRange(1, maxOps).Draw(t, "nops")
		for j := 0; j < n; j++ {
			o := COp{M: rapid.IntRange(0, len(x.Metrics)-1).Draw(t, "m")}
			sp := x.Metrics[o.M]
			o.A = rapid.SampledFrom(concActions(sp.Kind, x.Reps == 1)).Draw(t, "a")
			if len(sp.Insts) > 0 {
				o.I = rapid.IntRange(0, len(sp.Insts)-1).Draw(t, "i")
			}
			switch o.A {
			case "inc", "dec", "incall", "decall", "rec":
				o.N = int64(rapid.IntRange(1, 1000).Draw(t, "v"))
			case "recn":
				o.N = int64(rapid.IntRange(1, 1000).Draw(t, "v"))*8 + int64(rapid.IntRange(0, 4).Draw(t, "k"))
			case "set", "setall":
				o.N = int64(rapid.IntRange(0, 2500).Draw(t, "v"))
			}
			prog = append(prog, o)
		}
		x.Progs = append(x.Progs, prog)
	}
	if chance(t, "quantum", 2) {
		// updates of several times one number only, so that half of one shows
		q := pick(t, "q", int64(3), 7, 1000, 1<<21+2)
		k := int64(rapid.IntRange(2, 7).Draw(t, "batch"))
		for _, prog := range x.Progs {
			for i := range prog {
				switch o := &prog[i]; o.A {
				case "inc", "dec", "incall", "decall":
					o.N *= q
				case "up":
					o.A, o.N = "inc", q
				case "upall":
					o.A, o.N = "incall", q
				case "rec":
					o.A, o.N = "recn", o.N*8+k
				case "recn":
					o.N = o.N/8*8 + k
				}
			}
		}
	}
	return x
}

func init() {
	register(Prop{ID: "C18", Race: true, Tries: 20,
		Rule:   "case: two to six goroutines running programs of updates and reads on shared metrics of an active client, built with the race detector. Repeated programs: totals, per-reader monotony and values, final state and file; programs run once: the recorded history must be linearizable against the sequential model of every metric or instance. Non-trivial: at least two goroutines made calls on the same metric whose time intervals overlap",
		Assume: []string{"the scheduler of eight cores and the race detector's own perturbation supply the interleavings; the All forms of vectors are taken to act on one instance at a time"},
		Quick:  Budget{Cases: 150, Shards: 6}, Deep: Budget{Cases: 6000, Shards: 6},
	}, genC18, runC18)
}

// makeConc builds the metrics of a case; every value is the 0-th of its type unless stated.
func makeConc(c *Ctx, sp MetricSpec) *LMetric {
	var ms []*LIndom
	if sp.Kind == "singleton" || sp.Kind == "inst" {
		z := numVal(int32(sp.Type), 0)
		sp.Vals = []Val{{fmt.Sprintf("%T", z), QStr(fmt.Sprint(z))}}
	}
	if sp.Kind == "inst" {
		ms = []*LIndom{makeIndom(IndomSpec{Name: sp.Name + ".dom", Insts: sp.Insts})}
	}
	m := makeMetric(sp, ms)
	if m == nil {
		c.Failf("cannot construct %s %q", sp.Kind, sp.Name)
	}
	return m
}

// perform makes one call and reports it as seen by each cell it concerns.
func (m *LMetric) perform(o COp, uniq int64, emit func(inst string, h hop)) {
	inst := ""
	if len(m.Spec.Insts) > 0 {
		inst = string(m.Spec.Insts[o.I%len(m.Spec.Insts)])
	}
	one := func(h hop) { emit(inst, h) }
	all := func(h hop) {
		for _, i := range m.Insts {
			emit(i, h)
		}
	}
	upd := func(a string, n int64, err error) { one(hop{A: a, Arg: n, OK: err == nil}) }
	num := func(v interface{}, err error) int64 {
		if err != nil {
			panic(failure{fmt.Sprintf("reading metric %q instance %q: %v", m.Name, inst, err)})
		}
		n, ok := valNum(v)
		if !ok {
			panic(failure{fmt.Sprintf("metric %q instance %q reads %s, which was never set", m.Name, inst, show(v))})
		}
		return n
	}
	mustFail := func(err error) {
		if err == nil {
			panic(failure{fmt.Sprintf("metric %q (%s): an invalid update was accepted", m.Name, m.Spec.Kind)})
		}
	}
	f := float64(o.N)
	switch x := m.Obj.(type) {
	case *speed.PCPCounter:
		switch o.A {
		case "inc":
			upd("inc", o.N, x.Inc(o.N))
		case "up":
			x.Up()
			upd("inc", 1, nil)
		case "set":
			upd("set", o.N, x.Set(o.N))
		case "touch":
			// setting a counter to what it was read as is refused or changes nothing
			v := x.Val()
			_ = x.Set(v)
			one(hop{A: "get", Out: v, OK: true})
		case "bad":
			mustFail(x.Inc(-1 - o.N))
		default:
			one(hop{A: "get", Out: x.Val(), OK: true})
		}
	case *speed.PCPGauge:
		switch o.A {
		case "inc":
			upd("inc", o.N, x.Inc(f))
		case "dec":
			upd("inc", -o.N, x.Dec(f))
		case "set":
			upd("set", o.N, x.Set(f))
		default:
			one(hop{A: "get", Out: num(x.Val(), nil), OK: true})
		}
	case *speed.PCPCounterVector:
		switch o.A {
		case "inc":
			upd("inc", o.N, x.Inc(o.N, inst))
		case "up":
			x.Up(inst)
			upd("inc", 1, nil)
		case "set":
			upd("set", o.N, x.Set(o.N, inst))
		case "incall":
			x.IncAll(o.N)
			all(hop{A: "inc", Arg: o.N, OK: true})
		case "upall":
			x.UpAll()
			all(hop{A: "inc", Arg: 1, OK: true})
		case "touch":
			v, err := x.Val(inst)
			_ = x.Set(v, inst)
			one(hop{A: "get", Out: num(v, err), OK: true})
		case "bad":
			mustFail(x.Inc(1, noInst))
			mustFail(x.Inc(-1, inst))
		default:
			v, err := x.Val(inst)
			one(hop{A: "get", Out: num(v, err), OK: true})
		}
	case *speed.PCPGaugeVector:
		switch o.A {
		case "inc":
			upd("inc", o.N, x.Inc(f, inst))
		case "dec":
			upd("inc", -o.N, x.Dec(f, inst))
		case "set":
			upd("set", o.N, x.Set(f, inst))
		case "setall":
			x.SetAll(f)
			all(hop{A: "set", Arg: o.N, OK: true})
		case "incall":
			x.IncAll(f)
			all(hop{A: "inc", Arg: o.N, OK: true})
		case "decall":
			x.DecAll(f)
			all(hop{A: "inc", Arg: -o.N, OK: true})
		case "bad":
			mustFail(x.Inc(1, noInst))
			mustFail(x.Set(1, noInst))
		default:
			v, err := x.Val(inst)
			one(hop{A: "get", Out: num(v, err), OK: true})
		}
	case *speed.PCPSingletonMetric:
		switch o.A {
		case "set":
			v := numVal(m.Type, uniq)
			upd("set", uniq, x.Set(v))
		case "text":
			s := x.String()
			var n int64
			if _, err := fmt.Sscanf(strings.Replace(s, "value ", "", 1), "Val: %d\n", &n); err != nil || m.Type == tFloat || m.Type == tDouble {
				return
			}
			one(hop{A: "get", Out: n, OK: true})
		case "bad":
			mustFail(x.Set([]int{1}))
		default:
			one(hop{A: "get", Out: num(x.Val(), nil), OK: true})
		}
	case *speed.PCPInstanceMetric:
		switch o.A {
		case "set":
			v := numVal(m.Type, uniq)
			upd("set", uniq, x.SetInstance(v, inst))
		case "bad":
			mustFail(x.SetInstance([]int{1}, inst))
			mustFail(x.SetInstance(numVal(m.Type, uniq), noInst))
		default:
			v, err := x.ValInstance(inst)
			one(hop{A: "get", Out: num(v, err), OK: true})
		}
	case *speed.PCPHistogram:
		switch o.A {
		case "rec":
			upd("rec", o.N*8+1, x.Record(o.N))
		case "recn":
			upd("rec", o.N, x.RecordN(o.N/8, o.N%8))
		case "getmax":
			one(hop{A: "getmax", Out: x.Max(), OK: true})
		case "getmin":
			one(hop{A: "getmin", Out: x.Min(), OK: true})
		case "getmean":
			one(hop{A: "getmean", Out: int64(x.Mean() * 1e6), OK: true})
		case "getcount":
			var n int64
			for _, b := range x.Buckets() {
				n += b.Count
			}
			one(hop{A: "getcount", Out: n, OK: true})
		case "getp100":
			one(hop{A: "getp100", Out: x.Percentile(100), OK: true})
		case "getdev":
			if d, v := x.StandardDeviation(), x.Variance(); d < 0 || v < 0 {
				panic(failure{fmt.Sprintf("deviation %v, variance %v", d, v)})
			}
		case "bad":
			mustFail(x.Record(x.High() * 1000))
			mustFail(x.RecordN(5, -1))
		}
	case *speed.PCPTimer:
		switch o.A {
		case "start":
			upd("start", 0, x.Start())
		case "stop":
			v, err := x.Stop()
			one(hop{A: "stop", Out: int64(v), OK: err == nil})
		case "reset":
			upd("reset", 0, x.Reset())
		}
	}
}

// cellState is the sequential model of a cell, comparable so that it can be memoised.
type cellState struct {
	V, Count, Min, Max int64
	On                 bool
}

// step says whether h is possible in state s, and the next state.
func (s cellState) step(kind string, h hop) (cellState, bool) {
	switch kind {
	case "counter", "cvec":
		switch h.A {
		case "inc":
			s.V += h.Arg
			return s, h.OK
		case "set":
			if h.Arg < s.V {
				return s, !h.OK
			}
			s.V = h.Arg
			return s, h.OK
		}
	case "gauge", "gvec", "singleton", "inst":
		switch h.A {
		case "inc":
			s.V += h.Arg
			return s, h.OK
		case "set":
			s.V = h.Arg
			return s, h.OK
		}
	case "timer":
		switch h.A {
		case "start":
			if s.On {
				return s, !h.OK
			}
			s.On = true
			return s, h.OK
		case "stop":
			if !s.On {
				return s, !h.OK
			}
			if h.Out < s.V {
				return s, false
			}
			s.On, s.V = false, h.Out
			return s, h.OK
		case "reset":
			if s.On {
				return s, !h.OK
			}
			s.V = 0
			return s, h.OK
		}
	case "hist":
		switch h.A {
		case "rec":
			v, n := h.Arg/8, h.Arg%8
			if n > 0 {
				if s.Count == 0 || v < s.Min {
					s.Min = v
				}
				if v > s.Max {
					s.Max = v
				}
				s.Count += n
				s.V += v * n
			}
			return s, h.OK
		case "getmax", "getp100":
			return s, h.Out == s.Max
		case "getmin":
			return s, h.Out == s.Min
		case "getcount":
			return s, h.Out == s.Count
		case "getmean":
			want := float64(0)
			if s.Count > 0 {
				want = float64(s.V) / float64(s.Count) * 1e6
			}
			return s, closeTo(float64(h.Out), want, 10)
		}
	}
	return s, h.A == "get" && h.Out == s.V
}

// linearizable decides whether some order of the calls respecting real time fits the model.
func linearizable(kind string, init cellState, hs []hop) bool {
	if len(hs) > 30 {
		panic(infraError{"history too long"})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Call < hs[j].Call })
	type key struct {
		done uint32
		s    cellState
	}
	dead := map[key]bool{}
	full := uint32(1)<<len(hs) - 1
	var try func(done uint32, s cellState) bool
	try = func(done uint32, s cellState) bool {
		if done == full {
			return true
		}
		if dead[key{done, s}] {
			return false
		}
		first := int64(1) << 62 // earliest return among the pending ones
		for i, h := range hs {
			if done&(1<<i) == 0 && h.Ret < first {
				first = h.Ret
			}
		}
		for i, h := range hs {
			if done&(1<<i) != 0 || h.Call > first {
				continue
			}
			if n, ok := s.step(kind, h); ok && try(done|1<<i, n) {
				return true
			}
		}
		dead[key{done, s}] = true
		return false
	}
	return try(0, init)
}

type ghop struct {
	cellKey
	hop
}

func runC18(c *Ctx, x CaseC18) {
	s := newSession(c, "concurrent")
	var ms []*LMetric
	for _, sp := range x.Metrics {
		m := makeConc(c, sp)
		if err := s.Client.Register(m.Obj); err != nil {
			c.Failf("Register: %v", err)
		}
		s.noteRegistered(m)
		ms = append(ms, m)
	}
	if !x.Off {
		s.start()
	}
	lin := x.Reps <= 1
	init := map[cellKey]int64{}
	for i, m := range ms {
		for inst, v := range m.Vals {
			n, _ := valNum(v)
			init[cellKey{i, inst}] = n
		}
	}
	start := make(chan struct{})
	hist := make([][]ghop, len(x.Progs))
	fails := make([]interface{}, len(x.Progs))
	spans := make([][2]int64, len(x.Progs))
	var wg sync.WaitGroup
	base := time.Now()
	for g := range x.Progs {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					if f, ok := p.(failure); ok {
						fails[g] = f
						return
					}
					panic(p)
				}
			}()
			var hs []ghop
			prog := x.Progs[g]
			<-start
			spans[g][0] = int64(time.Since(base))
			for r := 0; r < x.Reps; r++ {
				for k, o := range prog {
					m := ms[o.M%len(ms)]
					uniq := int64(g+1)<<20 + int64(r*len(prog)+k)
					from := len(hs)
					t0 := int64(time.Since(base))
					m.perform(o, uniq, func(inst string, h hop) {
						h.G = g
						hs = append(hs, ghop{cellKey{o.M % len(ms), inst}, h})
					})
					t1 := int64(time.Since(base))
					for i := from; i < len(hs); i++ {
						hs[i].Call, hs[i].Ret = t0, t1
					}
					if x.Yield {
						runtime.Gosched()
					}
				}
			}
			spans[g][1] = int64(time.Since(base))
			hist[g] = hs
		}(g)
	}
	close(start)
	wg.Wait()
	for _, f := range fails {
		if f != nil {
			panic(f)
		}
	}
	for g := range spans {
		for k := range spans[:g] {
			if spans[g][0] < spans[k][1] && spans[k][0] < spans[g][1] && shareMetric(x.Progs[g], x.Progs[k]) {
				c.Nontrivial()
				c.Label("overlap")
			}
		}
	}

	cells := map[cellKey][]hop{}
	for _, hs := range hist {
		for _, h := range hs {
			cells[h.cellKey] = append(cells[h.cellKey], h.hop)
		}
	}
	name := func(k cellKey) string {
		return fmt.Sprintf("%s %q instance %q", ms[k.M].Spec.Kind, ms[k.M].Name, k.Inst)
	}

	// what is reported at the end is one more read
	final := map[cellKey]int64{}
	for k := range init {
		if v, err, ok := ms[k.M].reported(k.Inst); ok {
			if err != nil {
				c.Failf("%s: %v", name(k), err)
			}
			ms[k.M].Vals[k.Inst] = v
			n, exact := valNum(v)
			if !exact && ms[k.M].Spec.Kind != "hist" {
				c.Failf("%s ends as %s, which was never set", name(k), show(v))
			}
			final[k] = n
		}
	}
	for i, m := range ms {
		switch m.Spec.Kind {
		case "hist":
			k := cellKey{i, ""}
			end := hop{Call: 1 << 61, Ret: 1 << 61, G: -1}
			for _, a := range []string{"getmax", "getmin", "getmean", "getcount", "getp100"} {
				m.perform(COp{A: a}, 0, func(_ string, h hop) {
					h.Call, h.Ret, h.G = end.Call, end.Ret, end.G
					cells[k] = append(cells[k], h)
				})
			}
		case "timer":
		default:
			for _, inst := range append([]string{}, instKeys(m)...) {
				k := cellKey{i, inst}
				cells[k] = append(cells[k], hop{A: "get", Out: final[k], OK: true, Call: 1 << 61, Ret: 1 << 61, G: -1})
			}
		}
	}
	if lin {
		for k, hs := range cells {
			if !linearizable(ms[k.M].Spec.Kind, cellState{V: init[k]}, hs) {
				c.Failf("%s, starting from %d: no order of these calls explains their results: %v", name(k), init[k], hs)
			}
		}
		c.Label("linearized")
	} else {
		for k, hs := range cells {
			if err := massCheck(ms[k.M].Spec.Kind, init[k], hs); err != nil {
				c.Failf("%s, starting from %d: %v", name(k), init[k], err)
			}
		}
	}
	for _, m := range ms {
		if m.Spec.Kind == "timer" {
			m.Vals[""] = nil
		}
	}
	if x.Off {
		s.start()
	}
	s.syncSlots()
	d := s.read()
	for i, m := range ms {
		for _, inst := range instKeys(m) {
			got, err := s.fileVal(d, m, inst)
			if err != nil {
				c.Failf("%s: %v", name(cellKey{i, inst}), err)
			}
			if m.Spec.Kind == "timer" {
				checkTimerEnd(c, got.(float64), cells[cellKey{i, ""}])
				continue
			}
			if !sameVal(got, m.Vals[inst]) {
				c.Failf("%s reports %s, the file holds %s", name(cellKey{i, inst}), show(m.Vals[inst]), show(got))
			}
		}
	}
	if _, err := parseImage(d); err != nil {
		c.Failf("the file is not a valid image after concurrent updates: %v", err)
	}
}

// checkTimerEnd: the total in the file is 0 or one a Stop returned (to the precision kept in the history).
func checkTimerEnd(c *Ctx, got float64, hs []hop) {
	resets, best := false, int64(0)
	possible := map[int64]bool{}
	for _, h := range hs {
		if h.A == "reset" && h.OK {
			resets = true
		}
		if h.A == "stop" && h.OK {
			possible[h.Out] = true
			if h.Out > best {
				best = h.Out
			}
		}
	}
	n := int64(got)
	if !resets && n != best || resets && n != 0 && !possible[n] {
		c.Failf("the timer's total in the file is %v; successful stops and resets: %v", got, hs)
	}
}

func instKeys(m *LMetric) []string {
	if m.Insts == nil {
		return []string{""}
	}
	return m.Insts
}

func shareMetric(a, b []COp) bool {
	for _, x := range a {
		for _, y := range b {
			if x.M == y.M {
				return true
			}
		}
	}
	return false
}

func gcd(a, b int64) int64 {
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// massCheck decides what can be decided of long histories of commuting updates.
func massCheck(kind string, init int64, hs []hop) error {
	var pos, neg, count, sum, min, max, starts, stops int64
	quantum, batch := int64(0), int64(0) // divide every increment, and the size of every recording
	for _, h := range hs {
		if !h.OK && kind != "timer" {
			return fmt.Errorf("a valid update was refused: %v", h)
		}
		switch h.A {
		case "inc":
			quantum = gcd(quantum, h.Arg)
			if h.Arg > 0 {
				pos += h.Arg
			} else {
				neg += h.Arg
			}
		case "rec":
			if n := h.Arg % 8; n > 0 {
				batch = gcd(batch, n)
				v := h.Arg / 8
				if count == 0 || v < min {
					min = v
				}
				if v > max {
					max = v
				}
				count += n
				sum += n * v
			}
		case "start":
			if h.OK {
				starts++
			}
		case "stop":
			if h.OK {
				stops++
			}
		}
	}
	if starts-stops != 0 && starts-stops != 1 {
		return fmt.Errorf("%d successful starts and %d successful stops", starts, stops)
	}
	if count == 0 {
		min = 0
	}
	setBy := map[int64]bool{init: true}
	lastSet := map[int]int64{}
	for _, h := range hs {
		if h.A == "set" {
			setBy[h.Arg] = true
			if h.Arg > lastSet[h.G] {
				lastSet[h.G] = h.Arg
			}
		}
	}
	// the reads of one goroutine, in its order
	byG := map[int][]hop{}
	resets := 0
	for _, h := range hs {
		byG[h.G] = append(byG[h.G], h)
		if h.A == "reset" && h.OK {
			resets++
		}
	}
	for g, ghs := range byG {
		own := init // increments this goroutine already made
		var last, lastMax, lastCount, lastStop int64
		last = -1 << 62
		seen := map[int64]int64{}
		for _, h := range ghs {
			switch h.A {
			case "inc":
				own += h.Arg
			case "stop":
				if h.OK {
					if h.Out < lastStop && resets == 0 {
						return fmt.Errorf("goroutine %d was told a total of %d after %d", g, h.Out, lastStop)
					}
					lastStop = h.Out
				}
			case "get":
				switch kind {
				case "counter", "cvec", "gauge", "gvec":
					if quantum > 0 && (h.Out-init)%quantum != 0 {
						return fmt.Errorf("goroutine %d read %d in the middle of an increment, all of them are multiples of %d", g, h.Out, quantum)
					}
				}
				switch kind {
				case "counter", "cvec":
					if h.Out < last || g >= 0 && h.Out < own || h.Out > init+pos {
						return fmt.Errorf("goroutine %d read %d after %d, having itself brought it to at least %d; all increments sum to %d", g, h.Out, last, own, init+pos)
					}
					last = h.Out
				case "gauge", "gvec":
					if h.Out < init+neg || h.Out > init+pos {
						return fmt.Errorf("goroutine %d read %d; the value is always between %d and %d", g, h.Out, init+neg, init+pos)
					}
				default:
					if !setBy[h.Out] {
						return fmt.Errorf("goroutine %d read %d, which was never set", g, h.Out)
					}
					w := h.Out >> 20
					if h.Out < seen[w] {
						return fmt.Errorf("goroutine %d read %d after %d, which the same goroutine set later", g, h.Out, seen[w])
					}
					seen[w] = h.Out
				}
			case "getmax", "getp100":
				if h.Out < lastMax || h.Out > max {
					return fmt.Errorf("goroutine %d read a maximum of %d after %d; the largest recorded value is %d", g, h.Out, lastMax, max)
				}
				lastMax = h.Out
			case "getmin":
				if h.Out != 0 && (h.Out < min || h.Out > max) {
					return fmt.Errorf("goroutine %d read a minimum of %d; recorded values are %d to %d", g, h.Out, min, max)
				}
			case "getcount":
				if h.Out < lastCount || h.Out > count {
					return fmt.Errorf("goroutine %d saw %d values after %d; %d were recorded in all", g, h.Out, lastCount, count)
				}
				if batch > 0 && h.Out%batch != 0 {
					return fmt.Errorf("goroutine %d saw %d values in the middle of a recording, all of them are of multiples of %d", g, h.Out, batch)
				}
				lastCount = h.Out
			case "getmean":
				if f := float64(h.Out) / 1e6; f != 0 && (f < float64(min)-0.001 || f > float64(max)+0.001) {
					return fmt.Errorf("goroutine %d read a mean of %v of values between %d and %d", g, f, min, max)
				}
			}
		}
	}
	// the end
	for _, h := range byG[-1] {
		bad := false
		switch h.A {
		case "get":
			switch kind {
			case "singleton", "inst":
				ok := len(lastSet) == 0 && h.Out == init
				for _, v := range lastSet {
					ok = ok || h.Out == v
				}
				if !ok {
					return fmt.Errorf("ends as %d, which is not the last value of any goroutine: %v", h.Out, lastSet)
				}
			default:
				bad = h.Out != init+pos+neg
			}
		case "getmax", "getp100":
			bad = h.Out != max
		case "getmin":
			bad = h.Out != min
		case "getcount":
			bad = h.Out != count
		case "getmean":
			bad = count > 0 && !closeTo(float64(h.Out)/1e6, float64(sum)/float64(count), 0.001)
		}
		if bad {
			return fmt.Errorf("ends with %v; increments sum to %d, recorded: count %d sum %d min %d max %d", h, init+pos+neg, count, sum, min, max)
		}
	}
	return nil
}

// ------------------------------------------------------------------ C25

type CaseC25 struct {
	Metrics []MetricSpec `json:"metrics"`
	Progs   [][]COp      `json:"progs"`
	Phases  []Phase      `json:"phases"`
	Erase   bool         `json:"erase,omitempty"`
}

// A Phase runs the programs until the client has been started and stopped some times.
type Phase struct {
	Turns  int   `json:"turns"`  // starts and stops
	Delays []int `json:"delays"` // microseconds between them
}

func genC25(t *rapid.T) CaseC25 {
	x := CaseC25{Metrics: genConcMetrics(t), Erase: chance(t, "erase", 4)}
	if chance(t, "long", 5) {
		x.Metrics[0].Name += QStr(strings.Repeat("n", 60))
	}
	g := rapid.IntRange(1, 4).Draw(t, "g")
	for i := 0; i < g; i++ {
		var prog []COp
		n := rapid.IntRange(1, 5).Draw(t, "nops")
		for j := 0; j < n; j++ {
			o := COp{M: rapid.IntRange(0, len(x.Metrics)-1).Draw(t, "m")}
			sp := x.Metrics[o.M]
			o.A = rapid.SampledFrom(concActions(sp.Kind, false)).Draw(t, "a")
			if len(sp.Insts) > 0 {
				o.I = rapid.IntRange(0, len(sp.Insts)-1).Draw(t, "i")
			}
			o.N = int64(rapid.IntRange(1, 1000).Draw(t, "v"))
			if o.A == "recn" {
				o.N = o.N*8 + int64(rapid.IntRange(0, 4).Draw(t, "k"))
			}
			prog = append(prog, o)
		}
		x.Progs = append(x.Progs, prog)
	}
	n := rapid.IntRange(1, 3).Draw(t, "phases")
	for i := 0; i < n; i++ {
		p := Phase{Turns: rapid.IntRange(1, 7).Draw(t, "turns")}
		k := rapid.IntRange(1, 3).Draw(t, "ndelays")
		for j := 0; j < k; j++ {
			p.Delays = append(p.Delays, pick(t, "delay", 0, 0, 10, 100, 500))
		}
		x.Phases = append(x.Phases, p)
	}
	return x
}

func init() {
	register(Prop{ID: "C25", Race: true, Tries: 20,
		Rule:   "case: goroutines updating and reading metrics for as long as a controller starts and stops their client several times, built with the race detector; after each phase totals, file and kept files are compared. Non-trivial: updates were made during at least two starts or stops",
		Assume: []string{"the scheduler of eight cores and the race detector's own perturbation supply the interleavings"},
		Quick:  Budget{Cases: 450, Shards: 6}, Deep: Budget{Cases: 20000, Shards: 6},
	}, genC25, runC25)
}

func runC25(c *Ctx, x CaseC25) {
	s := newSession(c, "cycling")
	speed.EraseFileOnStop = x.Erase
	defer func() { speed.EraseFileOnStop = false }()
	var ms []*LMetric
	for _, sp := range x.Metrics {
		m := makeConc(c, sp)
		if err := s.Client.Register(m.Obj); err != nil {
			c.Failf("Register: %v", err)
		}
		s.noteRegistered(m)
		ms = append(ms, m)
	}
	init := map[cellKey]int64{}
	for i, m := range ms {
		for inst, v := range m.Vals {
			n, _ := valNum(v)
			init[cellKey{i, inst}] = n
		}
	}
	name := func(k cellKey) string {
		return fmt.Sprintf("%s %q instance %q", ms[k.M].Spec.Kind, ms[k.M].Name, k.Inst)
	}
	hist := make([][]ghop, len(x.Progs))
	rounds := make([]int64, len(x.Progs))
	var kept [][]byte // files found after a Stop
	busy := 0
	for pi, ph := range x.Phases {
		var stop int32
		fails := make([]interface{}, len(x.Progs)+1)
		var wg sync.WaitGroup
		ready := make(chan struct{})
		for g := range x.Progs {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer catch(&fails[g])
				<-ready
				for n := 0; n < 3000; n++ {
					for _, o := range x.Progs[g] {
						rounds[g]++
						uniq := int64(g+1)<<20 + rounds[g]%(1<<20)
						ms[o.M%len(ms)].perform(o, uniq, func(inst string, h hop) {
							h.G = g
							hist[g] = append(hist[g], ghop{cellKey{o.M % len(ms), inst}, h})
						})
					}
					if atomic.LoadInt32(&stop) != 0 {
						return
					}
				}
			}(g)
		}
		ctl := func() {
			defer catch(&fails[len(x.Progs)])
			for i := 0; i < ph.Turns; i++ {
				spin(ph.Delays[i%len(ph.Delays)])
				if !s.Active {
					if err := s.Client.Start(); err != nil {
						c.Failf("Start during updates: %v", err)
					}
					s.Active = true
					continue
				}
				if err := s.Client.Stop(); err != nil {
					c.Failf("Stop during updates: %v", err)
				}
				s.Active = false
				if x.Erase {
					if _, err := os.Lstat(s.Path); err == nil {
						c.Failf("the file still exists after Stop with erasing on")
					}
					continue
				}
				a := s.read()
				spin(ph.Delays[(i+1)%len(ph.Delays)])
				if b := s.read(); string(a) != string(b) {
					c.Failf("updates made after Stop returned changed the kept file")
				}
				kept = append(kept, a)
			}
		}
		before := countHops(hist)
		close(ready)
		ctl()
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		for _, f := range fails {
			if f != nil {
				panic(f)
			}
		}
		if countHops(hist) > before {
			busy += ph.Turns
		}
		// quiet now
		for i, m := range ms {
			for _, inst := range instKeys(m) {
				if v, err, ok := m.reported(inst); ok {
					if err != nil {
						c.Failf("%s: %v", name(cellKey{i, inst}), err)
					}
					m.Vals[inst] = v
				}
			}
		}
		if s.Active {
			s.load()
			s.syncSlots()
			d := s.read()
			for i, m := range ms {
				for _, inst := range instKeys(m) {
					k := cellKey{i, inst}
					got, err := s.fileVal(d, m, inst)
					if err != nil {
						c.Failf("%s: %v", name(k), err)
					}
					if m.Spec.Kind == "timer" {
						var hs []hop
						for _, l := range hist {
							for _, h := range l {
								if h.M == i {
									hs = append(hs, h.hop)
								}
							}
						}
						checkTimerEnd(c, got.(float64), hs)
					} else if !sameVal(got, m.Vals[inst]) {
						c.Failf("phase %d, active and quiet: %s reports %s, the file holds %s", pi, name(k), show(m.Vals[inst]), show(got))
					}
				}
			}
		}
	}
	if busy >= 2 {
		c.Nontrivial()
	}
	cells := map[cellKey][]hop{}
	for _, hs := range hist {
		for _, h := range hs {
			cells[h.cellKey] = append(cells[h.cellKey], h.hop)
		}
	}
	for i, m := range ms {
		if m.Spec.Kind == "timer" {
			continue
		}
		for _, inst := range instKeys(m) {
			k := cellKey{i, inst}
			if m.Spec.Kind == "hist" {
				k.Inst = ""
				break
			}
			n, exact := valNum(m.Vals[inst])
			if !exact {
				c.Failf("%s ends as %s, which was never set", name(k), show(m.Vals[inst]))
			}
			cells[k] = append(cells[k], hop{A: "get", Out: n, OK: true, G: -1})
		}
		if m.Spec.Kind == "hist" {
			for _, a := range []string{"getmax", "getmin", "getmean", "getcount", "getp100"} {
				m.perform(COp{A: a}, 0, func(_ string, h hop) {
					h.G = -1
					cells[cellKey{i, ""}] = append(cells[cellKey{i, ""}], h)
				})
			}
		}
	}
	for k, hs := range cells {
		if len(rounds) > 0 && maxOf(rounds) >= 1<<20 {
			c.Infraf("values wrapped")
		}
		if err := massCheck(ms[k.M].Spec.Kind, init[k], hs); err != nil {
			c.Failf("%s, starting from %d: %v", name(k), init[k], err)
		}
	}
	// the kept files hold values the metrics had
	last := map[cellKey]int64{}
	for _, d := range kept {
		im, err := parseImage(d)
		if err != nil {
			c.Failf("a file kept after Stop is not a valid image: %v", err)
		}
		slots, err := s.decode(im)
		if err != nil {
			c.Failf("a file kept after Stop: %v", err)
		}
		for i, m := range ms {
			for _, inst := range instKeys(m) {
				k := cellKey{i, inst}
				v := im.goVal(m.Type, slots[m][inst])
				n, exact := valNum(v)
				switch m.Spec.Kind {
				case "hist", "timer":
					continue
				case "counter", "cvec":
					if n < init[k] || n < last[k] {
						c.Failf("%s is %d in a file kept after Stop, and was %d before", name(k), n, last[k])
					}
					last[k] = n
				case "singleton", "inst":
					ok := exact && n == init[k]
					for _, h := range cells[k] {
						ok = ok || exact && h.A == "set" && h.Arg == n
					}
					if !ok {
						c.Failf("%s is %s in a file kept after Stop, which was never set", name(k), show(v))
					}
				}
			}
		}
		c.Label("kept file checked")
	}
}

func maxOf(xs []int64) (m int64) {
	for _, x := range xs {
		if x > m {
			m = x
		}
	}
	return
}

func countHops(h [][]ghop) (n int) {
	for _, x := range h {
		n += len(x)
	}
	return
}

func catch(f *interface{}) {
	if p := recover(); p != nil {
		if x, ok := p.(failure); ok {
			*f = x
			return
		}
		panic(p)
	}
}

func spin(us int) {
	for t := time.Now(); time.Since(t) < time.Duration(us)*time.Microsecond; {
	}
}
