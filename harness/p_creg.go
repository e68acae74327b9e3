package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/performancecopilot/speed/v4"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ C19

// A ROp is one call on a registry made by one of several goroutines.
type ROp struct {
	A string `json:"a"` // metric string indom indomname hasm hasd nm nd ni nv ns flag start
	N int    `json:"n,omitempty"`
	V int    `json:"v,omitempty"` // which of the instance sets of the domain
}

type CaseC19 struct {
	Progs [][]ROp `json:"progs"`
	Mass  int     `json:"mass,omitempty"` // each goroutine also registers this many shared names, in its own order
	Start bool    `json:"start,omitempty"`
	Delay int     `json:"delay,omitempty"` // microseconds before Start
	Yield bool    `json:"yield,omitempty"`
}

var domSets = [][]string{{"a", "b"}, {"a", "b", "c"}, {"b", "a"}, {}}

func domSet(v int) []string { return domSets[v%len(domSets)] }

func setID(v int) int8 { // equal for equal sets
	return [...]int8{1, 2, 1, 3}[v%len(domSets)]
}

// metric n is on domain n%3, or has none when n%4 == 3
func regDom(n int) (string, bool) { return fmt.Sprintf("dom%d", n%3), n%4 != 3 }

func regName(n int) string {
	d, on := regDom(n)
	if !on {
		d = "plain"
	}
	s := fmt.Sprintf("%s.m%d", d, n)
	if n == 6 {
		s += strings.Repeat("x", 60)
	}
	return s
}

func genC19(t *rapid.T) CaseC19 {
	x := CaseC19{Start: chance(t, "start", 2), Delay: pick(t, "delay", 0, 0, 5, 50, 300), Yield: chance(t, "yield", 3)}
	g := rapid.IntRange(2, 4).Draw(t, "g")
	if chance(t, "massive", 3) {
		x.Mass = pick(t, "mass", 5, 20, 80)
		g = rapid.IntRange(2, 8).Draw(t, "g")
		x.Progs = make([][]ROp, g)
		return x
	}
	for i := 0; i < g; i++ {
		var p []ROp
		n := rapid.IntRange(1, 5).Draw(t, "nops")
		for j := 0; j < n; j++ {
			p = append(p, ROp{
				A: pick(t, "a", "metric", "metric", "metric", "string", "string", "indom", "indomname", "hasm", "hasd", "nm", "nd", "ni", "nv", "ns", "flag"),
				N: rapid.IntRange(0, 7).Draw(t, "n"),
				V: pick(t, "v", 0, 0, 0, 1, 2, 3)})
		}
		x.Progs = append(x.Progs, p)
	}
	return x
}

func init() {
	register(Prop{ID: "C19", Race: true, Tries: 20,
		Rule:   "case: two to eight goroutines registering metrics and domains, by object and by string, with shared and conflicting names, querying counts, and possibly one Start, built with the race detector; the recorded calls must be linearizable against a sequential registry model and the published image must hold exactly the accepted metrics. Non-trivial: two goroutines' registration intervals overlap",
		Assume: []string{"the scheduler of eight cores and the race detector's own perturbation supply the interleavings"},
		Quick:  Budget{Cases: 1500, Shards: 6}, Deep: Budget{Cases: 60000, Shards: 6},
	}, genC19, runC19)
}

type regState struct {
	M          uint32
	D          [3]int8
	NV, NI, NS int16
	V2, Mapped bool
}

type rcall struct {
	ROp
	OK        bool
	Out       int
	Call, Ret int64
	G         int
	lm        *LMetric
	in        *LIndom
	Err       string
}

func (r rcall) String() string {
	res := fmt.Sprint(r.OK)
	if r.Err != "" {
		res = "refused (" + r.Err + ")"
	} else if strings.HasPrefix(r.A, "n") {
		res = fmt.Sprint(r.Out)
	}
	return fmt.Sprintf("g%d:%s %d/%d = %s [%d..%d]", r.G, r.A, r.N, r.V, res, r.Call, r.Ret)
}

func bits(x uint32) (n int) {
	for ; x != 0; x &= x - 1 {
		n++
	}
	return
}

func (s regState) doms() (n int) {
	for _, d := range s.D {
		if d != 0 {
			n++
		}
	}
	return
}

func (s regState) step(r rcall) (regState, bool) {
	addDom := func() {
		s.D[r.N%3] = setID(r.V)
		s.NI += int16(len(domSet(r.V)))
	}
	switch r.A {
	case "metric", "string":
		_, on := regDom(r.N)
		can := !s.Mapped && s.M&(1<<r.N) == 0
		if on && s.D[r.N%3] != 0 && s.D[r.N%3] != setID(r.V) {
			can = false
		}
		if r.A == "string" && on && len(domSet(r.V)) == 0 {
			can = false // "dom[]" is not a valid string
		}
		if !can {
			return s, !r.OK
		}
		s.M |= 1 << r.N
		n := 1
		if on {
			n = len(domSet(r.V))
			if s.D[r.N%3] == 0 {
				addDom()
			}
		}
		s.NV += int16(n)
		if regType(r.N) == tString {
			s.NS += int16(n)
		}
		if r.A == "metric" && r.N%2 == 0 {
			s.NS++
		}
		if len(regName(r.N)) > 63 {
			s.V2 = true
		}
		return s, r.OK
	case "indom", "indomname":
		if s.Mapped || s.D[r.N%3] != 0 {
			return s, !r.OK
		}
		addDom()
		return s, r.OK
	case "hasm":
		return s, r.OK == (s.M&(1<<r.N) != 0)
	case "hasd":
		return s, r.OK == (s.D[r.N%3] != 0)
	case "nm":
		return s, r.Out == bits(s.M)
	case "nd":
		return s, r.Out == s.doms()
	case "ni":
		return s, r.Out == int(s.NI)
	case "nv":
		return s, r.Out == int(s.NV)
	case "ns":
		n := int(s.NS)
		if s.V2 {
			n += bits(s.M) + int(s.NI)
		}
		return s, r.Out == n
	case "flag":
		return s, r.OK == !s.Mapped
	case "start":
		s.Mapped = true
		return s, r.OK
	}
	panic("harness: " + r.A)
}

func regType(n int) int { return [...]int{tInt64, tString, tDouble}[n%3] }

func regLinearizable(hs []rcall) bool {
	if len(hs) > 30 {
		panic(infraError{"history too long"})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Call < hs[j].Call })
	type key struct {
		done uint32
		s    regState
	}
	dead := map[key]bool{}
	full := uint32(1)<<len(hs) - 1
	var try func(done uint32, s regState) bool
	try = func(done uint32, s regState) bool {
		if done == full {
			return true
		}
		if dead[key{done, s}] {
			return false
		}
		first := int64(1) << 62
		for i := range hs {
			if done&(1<<i) == 0 && hs[i].Ret < first {
				first = hs[i].Ret
			}
		}
		for i := range hs {
			if done&(1<<i) != 0 || hs[i].Call > first {
				continue
			}
			if n, ok := s.step(hs[i]); ok && try(done|1<<i, n) {
				return true
			}
		}
		dead[key{done, s}] = true
		return false
	}
	return try(0, regState{})
}

// prepare constructs what a registration needs, before the goroutines start.
func (r *rcall) prepare(c *Ctx) {
	dom, on := regDom(r.N)
	v := numVal(int32(regType(r.N)), int64(r.N))
	val := Val{fmt.Sprintf("%T", v), QStr(fmt.Sprint(v))}
	sp := MetricSpec{Name: QStr(regName(r.N)), Kind: "singleton", Type: regType(r.N), Sem: 3, Vals: []Val{val}}
	switch r.A {
	case "metric":
		if r.N%2 == 0 {
			sp.NDesc, sp.Short = 1, QStr(fmt.Sprintf("text of %d", r.N))
		}
		var ds []*LIndom
		if on {
			sp.Kind = "inst"
			ds = []*LIndom{makeIndom(IndomSpec{Name: QStr(dom), Insts: qstrs(domSet(r.V))})}
		}
		if r.lm = makeMetric(sp, ds); r.lm == nil {
			c.Failf("cannot construct metric %v", sp)
		}
	case "string":
		sp.Kind = "str"
		if on {
			sp.Kind = "strinst"
			sp.Name = QStr(fmt.Sprintf("%s[%s]%s", dom, strings.Join(domSet(r.V), ","), strings.TrimPrefix(regName(r.N), dom)))
		}
		r.lm = &LMetric{Spec: sp}
	case "indom":
		r.in = makeIndom(IndomSpec{Name: QStr(fmt.Sprintf("dom%d", r.N%3)), Insts: qstrs(domSet(r.V))})
		if r.in == nil {
			c.Failf("cannot construct domain")
		}
	case "indomname":
		r.in = &LIndom{Name: fmt.Sprintf("dom%d", r.N%3), Insts: distinct(domSet(r.V))}
	}
}

// run makes the call.
func (r *rcall) run(s *Session) {
	reg := s.Client.Registry()
	fin := func(err error) {
		r.OK = err == nil
		if err != nil {
			r.Err = err.Error()
		}
	}
	switch r.A {
	case "metric":
		fin(s.Client.Register(r.lm.Obj))
	case "string":
		if r.lm.Spec.Kind == "strinst" && len(domSet(r.V)) == 0 {
			_, err := s.Client.RegisterString(string(r.lm.Spec.Name), speed.Instances{}, speed.Int64Type, speed.InstantSemantics, speed.OneUnit)
			fin(err)
			return
		}
		m, err := s.registerString(r.lm.Spec)
		r.lm = m
		fin(err)
	case "indom":
		fin(s.Client.RegisterIndom(r.in.Obj))
	case "indomname":
		o, err := reg.AddInstanceDomainByName(r.in.Name, domSet(r.V))
		if err == nil {
			r.in.Obj = o.(*speed.PCPInstanceDomain)
		}
		fin(err)
	case "hasm":
		r.OK = reg.HasMetric(regName(r.N))
	case "hasd":
		r.OK = reg.HasInstanceDomain(fmt.Sprintf("dom%d", r.N%3))
	case "nm":
		r.Out = reg.MetricCount()
	case "nd":
		r.Out = reg.InstanceDomainCount()
	case "ni":
		r.Out = reg.InstanceCount()
	case "nv":
		r.Out = reg.ValuesCount()
	case "ns":
		r.Out = reg.StringCount()
	case "flag":
		fin(s.Client.SetFlag(speed.ProcessFlag))
	case "start":
		fin(s.Client.Start())
	default:
		panic("harness: " + r.A)
	}
}

func runC19(c *Ctx, x CaseC19) {
	s := newSession(c, "registering")
	calls := make([][]*rcall, len(x.Progs))
	for g, p := range x.Progs {
		add := func(o ROp) {
			r := &rcall{ROp: o, G: g}
			r.prepare(c)
			calls[g] = append(calls[g], r)
		}
		for _, o := range p {
			o.N %= 8
			add(o)
		}
		for i := 0; i < x.Mass; i++ {
			// each goroutine walks the names in its own direction; every name is tried by all
			n := i
			if g%2 == 1 {
				n = x.Mass - 1 - i
			}
			switch (n + g) % 4 {
			case 0:
				add(ROp{A: "string", N: n})
			case 1:
				add(ROp{A: "metric", N: n, V: 2})
			default:
				add(ROp{A: "metric", N: n})
			}
		}
	}
	if x.Start {
		r := &rcall{ROp: ROp{A: "start"}, G: len(calls)}
		calls = append(calls, []*rcall{r})
	}
	start := make(chan struct{})
	fails := make([]interface{}, len(calls))
	var wg sync.WaitGroup
	base := time.Now()
	for g := range calls {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					if f, ok := p.(failure); ok {
						fails[g] = f
						return
					}
					panic(p)
				}
			}()
			<-start
			for _, r := range calls[g] {
				if r.A == "start" && x.Delay > 0 {
					for t := time.Now(); time.Since(t) < time.Duration(x.Delay)*time.Microsecond; {
					}
				}
				r.Call = int64(time.Since(base))
				r.run(s)
				r.Ret = int64(time.Since(base))
				if x.Yield {
					runtime.Gosched()
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	s.Active = x.Start
	for _, f := range fails {
		if f != nil {
			panic(f)
		}
	}
	var all []rcall
	for g, rs := range calls {
		for _, r := range rs {
			all = append(all, *r)
		}
		for k := range calls[:g] {
			if len(rs) > 0 && len(calls[k]) > 0 {
				a, b := rs[0].Call, rs[len(rs)-1].Ret
				if calls[k][0].Call < b && a < calls[k][len(calls[k])-1].Ret {
					c.Nontrivial()
				}
			}
		}
	}
	// what was accepted
	var doms []rcall
	for _, r := range all {
		if !r.OK {
			continue
		}
		switch r.A {
		case "metric", "string":
			if s.metricNamed(regName(r.N)) != nil {
				c.Failf("two registrations of %q were accepted: %v", regName(r.N), all)
			}
			s.noteRegistered(r.lm)
		case "indom", "indomname":
			doms = append(doms, r)
		}
	}
	for _, r := range doms {
		if s.indomNamed(r.in.Name) == nil {
			s.Indoms = append(s.Indoms, r.in)
		}
	}
	if x.Mass > 0 {
		if !x.Start {
			for n := 0; n < x.Mass; n++ {
				if s.metricNamed(regName(n)) == nil {
					c.Failf("no registration of %q was accepted", regName(n))
				}
			}
		}
		c.Label("mass")
	} else {
		if !regLinearizable(all) {
			c.Failf("no order of these registry calls explains their results: %v", all)
		}
		c.Label("linearized")
	}
	reg := s.Client.Registry()
	var nv, ni, ns int
	for _, m := range s.Metrics {
		nv += len(m.Vals)
		if m.Type == tString {
			ns += len(m.Vals)
		}
		if m.Short != "" {
			ns++
		}
	}
	for _, i := range s.Indoms {
		ni += len(i.Insts)
	}
	if s.version() == 2 {
		ns += len(s.Metrics) + ni
	}
	got := [5]int{reg.MetricCount(), reg.ValuesCount(), reg.InstanceDomainCount(), reg.InstanceCount(), reg.StringCount()}
	want := [5]int{len(s.Metrics), nv, len(s.Indoms), ni, ns}
	if got != want {
		c.Failf("counts of metrics, values, domains, instances, strings are %v; the accepted registrations make %v: %v", got, want, all)
	}
	if x.Start {
		c.Label("start while registering")
		s.load()
	} else {
		s.start()
	}
	s.syncSlots()
	if err := s.checkValues(s.Img, s.Slots); err != nil {
		c.Failf("%v", err)
	}
	if len(s.Metrics) > 0 && x.Start {
		c.Label("some accepted before start")
	}
}
