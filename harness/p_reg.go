package main

import (
	"fmt"
	"math"
	"os"
	"slices"
	"strconv"
	"strings"
	"unicode"

	"github.com/performancecopilot/speed/v4"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ C06

type StepC06 struct {
	A   string `json:"a"` // indom byname metric str strval start stop
	I   int    `json:"i"`
	S   QStr   `json:"s,omitempty"`
	V   *Val   `json:"v,omitempty"`
	X   []QStr `json:"x,omitempty"`
	T   int    `json:"t,omitempty"`
	Via int    `json:"via,omitempty"` // 0 registry, 1 client, 2 client's panicking form
	N   bool   `json:"n,omitempty"`   // str, strval: no unit
	F   int    `json:"f,omitempty"`   // indom, metric: 1 a foreign implementation around it, 2 one that embeds it, 3 none at all
	B   int    `json:"b,omitempty"`   // strval: 0 matching instances, 1 one missing, 2 one extra, 3 not Instances, 4 one wrong value
}

type CaseC06 struct {
	Indoms  []IndomSpec  `json:"indoms,omitempty"`
	Metrics []MetricSpec `json:"metrics,omitempty"`
	Steps   []StepC06    `json:"steps"`
}

func smallInsts(t *rapid.T) []QStr {
	n := rapid.IntRange(0, 3).Draw(t, "ni")
	var r []QStr
	for i := 0; i < n; i++ {
		r = append(r, pick(t, "in", QStr("x"), "y", "z", "w"))
	}
	if chance(t, "longinst", 15) {
		r = append(r, QStr(strings.Repeat("i", pick(t, "il", 63, 64, 255, 256))))
	}
	return r
}

// descsC06 draws descriptions, sometimes ones no object may have.
func descsC06(t *rapid.T) (n int, short, long QStr) {
	n = rapid.IntRange(0, 2).Draw(t, "nd")
	if chance(t, "toomany", 30) {
		n = 3
	}
	text := func(l string) QStr {
		if chance(t, l+"long", 12) {
			return QStr(strings.Repeat("t", pick(t, l+"len", 254, 255, 256, 257, 300)))
		}
		return pick(t, l, QStr(""), "s")
	}
	if n > 0 {
		short = text("sh")
	}
	if n > 1 {
		long = text("lo")
	}
	return
}

func descsOK(n int, short, long QStr) bool { return n <= 2 && len(short) <= 255 && len(long) <= 255 }

func genC06(t *rapid.T) CaseC06 {
	var x CaseC06
	n := rapid.IntRange(1, 4).Draw(t, "nindoms")
	for i := 0; i < n; i++ {
		d := IndomSpec{Name: pick(t, "dn", QStr("d"), "e", "m.indom", "a", "histogram"), Insts: smallInsts(t)}
		if chance(t, "noname", 20) {
			d.Name = ""
		}
		d.NDesc, d.Short, d.Long = descsC06(t)
		x.Indoms = append(x.Indoms, d)
	}
	n = rapid.IntRange(1, 6).Draw(t, "nmetrics")
	for i := 0; i < n; i++ {
		m := genMetric(t, i, len(x.Indoms), 1000000, []string{"singleton", "inst", "inst", "inst", "counter", "cvec", "gvec", "hist", "timer", "gauge"})
		m.NDesc, m.Short, m.Long = descsC06(t)
		m.Name = pick(t, "mn", QStr("m"), "n", "a.x", "a.y", "q", "d")
		if chance(t, "longname", 12) {
			m.Name = QStr(strings.Repeat("n", pick(t, "nl", 0, 63, 64, 65, 255, 256, 257)))
		}
		if m.Kind == "cvec" || m.Kind == "gvec" {
			m.Insts = smallInsts(t)
		}
		m.NoUnit = chance(t, "nounit", 25)
		x.Metrics = append(x.Metrics, m)
	}
	n = rapid.IntRange(1, 14).Draw(t, "nsteps")
	for i := 0; i < n; i++ {
		s := StepC06{A: pick(t, "a", "indom", "byname", "metric", "metric", "metric", "str", "strval"), I: rapid.IntRange(0, 5).Draw(t, "i"), Via: pick(t, "via", 0, 0, 1, 2)}
		switch s.A {
		case "indom", "metric":
			if chance(t, "foreign", 30) {
				s.F = rapid.IntRange(1, 3).Draw(t, "f")
			}
		case "byname":
			s.S = pick(t, "name", QStr("d"), "e", "a", "m.indom", "")
			s.X = smallInsts(t)
		case "str":
			s.S = pick(t, "str", QStr("m"), "n", "a.x", "q", "a b", "", "[x]", "a.", QStr(strings.Repeat("n", 255)), QStr(strings.Repeat("n", 256)))
			s.T = pick(t, "t", tInt32, tString, tDouble)
			v := genVal(t, "v", pick(t, "vt", s.T, s.T, s.T, tFloat))
			s.V = &v
		case "strval":
			s.S = pick(t, "str", QStr("d[x].m"), "d[x,y].m", "d[y,x].n", "d[x,x].q", "e[x].m", "a[x,y].y", "a[x,y,z].y", "a[x]", "d[x].a.x")
			s.T = pick(t, "t", tInt32, tString, tDouble)
			s.B = pick(t, "b", 0, 0, 0, 0, 1, 2, 3, 4)
			v := genVal(t, "v", s.T)
			s.V = &v
		}
		if s.A == "str" || s.A == "strval" {
			s.N = chance(t, "nounit", 25)
		}
		x.Steps = append(x.Steps, s)
	}
	return x
}

// implementations of the library's interfaces by its users
type (
	aroundMetric struct{ speed.PCPMetric }
	aroundDomain struct{ speed.InstanceDomain }
	ownSingleton struct{ *speed.PCPSingletonMetric }
	ownInstance  struct{ *speed.PCPInstanceMetric }
	ownCounter   struct{ *speed.PCPCounter }
	ownVector    struct{ *speed.PCPCounterVector }
	ownDomain    struct{ *speed.PCPInstanceDomain }
)

func foreignMetric(m speed.PCPMetric, f int) speed.Metric {
	switch f {
	case 1:
		return aroundMetric{m}
	case 2:
		switch o := m.(type) {
		case *speed.PCPSingletonMetric:
			return ownSingleton{o}
		case *speed.PCPInstanceMetric:
			return &ownInstance{o}
		case *speed.PCPCounter:
			return &ownCounter{o}
		case *speed.PCPCounterVector:
			return ownVector{o}
		}
		return &aroundMetric{m}
	}
	return nil
}

// regModel is the set of accepted registrations.
type regModel struct {
	indoms  map[string]*LIndom
	metrics map[string]*LMetric
}

func (r *regModel) counts() [5]int {
	var n [5]int
	long := false
	str := 0
	has := func(s string) int {
		if s != "" {
			return 1
		}
		return 0
	}
	for _, i := range r.indoms {
		n[2]++
		n[3] += len(i.Insts)
		str += has(i.Short) + has(i.Long)
		for _, x := range i.Insts {
			long = long || len(x) > 63
		}
	}
	for _, m := range r.metrics {
		n[0]++
		nv := 1
		if m.Indom != nil {
			nv = len(m.Insts)
		}
		n[1] += nv
		if m.Type == tString {
			str += nv
		}
		str += has(m.Short) + has(m.Long)
		long = long || len(m.Name) > 63
	}
	if long {
		str += n[0] + n[3]
	}
	n[4] = str
	return n
}

func init() {
	register(Prop{ID: "C06", Fuzz: true,
		Rule:  "case: a sequence of registrations (domain objects, domains by name, metric objects, strings) over a small pool of names so that conflicts are common; non-trivial when at least two registrations were accepted and one was refused",
		Quick: Budget{Cases: 20000},
	}, genC06, runC06)
}

func runC06(c *Ctx, x CaseC06) {
	s := newSession(c, "c06")
	reg := s.Client.Registry()
	mod := &regModel{map[string]*LIndom{}, map[string]*LMetric{}}
	var objs []*LIndom
	for _, sp := range x.Indoms {
		valid := sp.Name != "" && descsOK(sp.NDesc, sp.Short, sp.Long)
		for _, i := range sp.Insts {
			valid = valid && len(i) <= 255
		}
		o := makeIndom(sp)
		if (o != nil) != valid {
			c.Failf("constructing domain %+v: accepted=%v", sp, o != nil)
		}
		objs = append(objs, o)
	}
	var ms []*LMetric
	for _, sp := range x.Metrics {
		m := makeMetric(sp, objs)
		valid := len(sp.Name) <= 255 && len(sp.Name) > 0 && descsOK(sp.NDesc, sp.Short, sp.Long)
		if sp.Kind == "inst" && objs[sp.Indom%len(objs)] == nil {
			valid = false
		}
		for _, i := range sp.Insts {
			valid = valid && len(i) <= 255
		}
		if sp.NoUnit && m == nil && valid && (sp.Kind == "singleton" || sp.Kind == "inst" || sp.Kind == "hist") {
			valid = false // no unit may be refused; what is not is published in the end
			c.Label("no unit")
		}
		if (m != nil) != valid {
			c.Failf("constructing metric %+v: accepted=%v", sp, m != nil)
		}
		ms = append(ms, m)
	}
	accepted, refused := 0, 0
	names := map[string]bool{"": true, "nosuch": true}
	check := func(at string) {
		got := [5]int{reg.MetricCount(), reg.ValuesCount(), reg.InstanceDomainCount(), reg.InstanceCount(), reg.StringCount()}
		if want := mod.counts(); got != want {
			c.Failf("%s: counts (metrics, values, domains, instances, strings) are %v, expected %v", at, got, want)
		}
		for n := range names {
			if _, has := mod.metrics[n]; reg.HasMetric(n) != has {
				c.Failf("%s: HasMetric(%q)=%v, expected %v", at, n, !has, has)
			}
			if _, has := mod.indoms[n]; reg.HasInstanceDomain(n) != has {
				c.Failf("%s: HasInstanceDomain(%q)=%v, expected %v", at, n, !has, has)
			}
		}
	}
	add := func(m *LMetric) {
		mod.metrics[m.Name] = m
		if m.Indom != nil && mod.indoms[m.Indom.Name] == nil {
			mod.indoms[m.Indom.Name] = m.Indom
		}
	}
	outcome := func(at string, err error, want bool, apply func()) {
		if (err == nil) != want {
			c.Failf("%s: error %v, expected acceptance=%v", at, err, want)
		}
		if want {
			accepted++
			apply()
		} else {
			refused++
		}
		check(at)
	}
	anyhow := func(how int, r, cl func() error, must func()) error {
		if how == 0 {
			return r()
		}
		return via(how == 2, cl, must)
	}
	domOK := func(name string, insts []string) bool {
		d := mod.indoms[name]
		return d == nil || sameSet(d.Insts, insts)
	}
	check("empty registry")
	for n, st := range x.Steps {
		at := fmt.Sprintf("step %d (%s)", n, st.A)
		switch st.A {
		case "indom":
			d := objs[st.I%len(objs)]
			if d == nil {
				continue
			}
			names[d.Name] = true
			if st.F > 0 {
				// what the library cannot publish it has to refuse; what it takes is published in the end
				var o speed.InstanceDomain
				switch st.F {
				case 1:
					o = aroundDomain{d.Obj}
				case 2:
					o = &ownDomain{d.Obj}
				}
				err := anyhow(st.Via, func() error { return reg.AddInstanceDomain(o) }, func() error { return s.Client.RegisterIndom(o) }, func() { s.Client.MustRegisterIndom(o) })
				outcome(at+" of a foreign type", err, err == nil && o != nil && mod.indoms[d.Name] == nil, func() { mod.indoms[d.Name] = d })
				c.Label("foreign domain")
				continue
			}
			outcome(at+" "+d.Name, anyhow(st.Via, func() error { return reg.AddInstanceDomain(d.Obj) }, func() error { return s.Client.RegisterIndom(d.Obj) }, func() { s.Client.MustRegisterIndom(d.Obj) }), mod.indoms[d.Name] == nil, func() { mod.indoms[d.Name] = d })
		case "byname":
			name, insts := string(st.S), strs(st.X)
			names[name] = true
			valid := name != ""
			for _, i := range insts {
				valid = valid && len(i) <= 255
			}
			o, err := reg.AddInstanceDomainByName(name, insts)
			outcome(at+" "+name, err, valid && mod.indoms[name] == nil, func() {
				if o == nil || o.Name() != name || !sameSet(o.Instances(), insts) {
					c.Failf("%s: returned %v for %q %q", at, o, name, insts)
				}
				mod.indoms[name] = &LIndom{Name: name, Insts: distinct(insts)}
			})
		case "metric":
			m := ms[st.I%len(ms)]
			if m == nil {
				continue
			}
			names[m.Name] = true
			want := mod.metrics[m.Name] == nil
			if m.Indom != nil {
				names[m.Indom.Name] = true
				want = want && domOK(m.Indom.Name, m.Insts)
			}
			if st.F > 0 {
				o := foreignMetric(m.Obj, st.F)
				err := anyhow(st.Via, func() error { return reg.AddMetric(o) }, func() error { return s.Client.Register(o) }, func() { s.Client.MustRegister(o) })
				outcome(fmt.Sprintf("%s %T around %s %q", at, o, m.Spec.Kind, m.Name), err, err == nil && o != nil && want, func() { add(m) })
				c.Label("foreign metric")
				continue
			}
			outcome(fmt.Sprintf("%s %s %q", at, m.Spec.Kind, m.Name), anyhow(st.Via, func() error { return reg.AddMetric(m.Obj) }, func() error { return s.Client.Register(m.Obj) }, func() { s.Client.MustRegister(m.Obj) }), want, func() { add(m) })
		case "str", "strval":
			name, dom, insts, ok := parseMetricString(string(st.S))
			names[name], names[dom] = true, true
			m := &LMetric{Name: name, Type: int32(st.T)}
			if dom != "" {
				m.Insts = distinct(insts)
				m.Indom = &LIndom{Name: dom, Insts: m.Insts}
			}
			want := ok && len(name) <= 255 && mod.metrics[name] == nil
			var v interface{} = st.V.Go()
			_, fit := fits(int32(st.T), v)
			if st.A == "strval" {
				vs := speed.Instances{}
				for _, i := range m.Insts {
					vs[i] = v
				}
				switch st.B {
				case 1:
					delete(vs, m.Insts[0])
					want = false
				case 2:
					vs["extra"] = v
					want = false
				case 4:
					vs[m.Insts[0]] = true
					want = false
				}
				if st.B != 3 {
					v = vs
				} else {
					want = false
				}
				want = want && domOK(dom, m.Insts)
			}
			want = want && fit
			var u speed.MetricUnit = speed.OneUnit
			if st.N {
				u = nil
			}
			var o speed.Metric
			err := anyhow(st.Via,
				func() (e error) {
					o, e = reg.AddMetricByString(string(st.S), v, speed.MetricType(st.T), speed.InstantSemantics, u)
					return
				}, func() (e error) {
					o, e = s.Client.RegisterString(string(st.S), v, speed.MetricType(st.T), speed.InstantSemantics, u)
					return
				}, func() {
					o = s.Client.MustRegisterString(string(st.S), v, speed.MetricType(st.T), speed.InstantSemantics, u)
				})
			if st.N {
				c.Label("no unit")
				want = want && err == nil // may be refused
			}
			outcome(fmt.Sprintf("%s %q variant %d", at, st.S, st.B), err, want, func() {
				if o == nil || o.Name() != name {
					c.Failf("%s: returned %v for %q", at, o, st.S)
				}
				add(m)
			})
		}
	}
	if accepted >= 2 && refused >= 1 {
		c.Nontrivial()
	}
	// what was accepted can be published
	if err := s.Client.Start(); err != nil {
		c.Failf("Start after the registrations: %v", err)
	}
	s.Active = true
	im, err := parseImage(s.read())
	if err != nil {
		c.Failf("after the registrations the client publishes an invalid image: %v", err)
	}
	n := mod.counts()
	if len(im.Metrics) != n[0] || len(im.Values) != n[1] || len(im.Indoms) != n[2] || len(im.Insts) != n[3] || len(im.Strings) != n[4] {
		c.Failf("the image holds %d metrics, %d values, %d domains, %d instances, %d strings; accepted %v", len(im.Metrics), len(im.Values), len(im.Indoms), len(im.Insts), len(im.Strings), n)
	}
	before := [5]int{reg.MetricCount(), reg.ValuesCount(), reg.InstanceDomainCount(), reg.InstanceCount(), reg.StringCount()}
	for _, m := range ms {
		if m != nil && reg.AddMetric(m.Obj) == nil {
			c.Failf("AddMetric(%q) succeeded while the client is active", m.Name)
		}
	}
	check(fmt.Sprintf("refused while active (before: %v)", before))
}

// ------------------------------------------------------------------ C07

type CaseC07 struct {
	Type   int   `json:"t"`
	Insts  int   `json:"insts"` // 0: single-valued
	Init   []Val `json:"init"`
	Sets   []Val `json:"sets"`
	Active bool  `json:"active"`
}

// genAnyVal draws any Go value, biased to boundaries of the numeric types.
func genAnyVal(t *rapid.T, ty int) Val {
	if !chance(t, "any", 3) && ty >= 0 && ty <= 6 {
		return genVal(t, "val", ty)
	}
	k := pick(t, "k", "int", "int", "int", "uint", "uint", "float64", "float64", "int32", "int64", "uint32", "uint64", "float32", "string", "string", "odd")
	near := []int64{0, 1, -1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MinInt64, 65536, 1 << 40}
	n := rapid.SampledFrom(near).Draw(t, "near")
	if chance(t, "off", 3) {
		n += int64(rapid.IntRange(-2, 2).Draw(t, "delta"))
	}
	switch k {
	case "int":
		return Val{"int", QStr(strconv.FormatInt(n, 10))}
	case "int64":
		return Val{"int64", QStr(strconv.FormatInt(n, 10))}
	case "int32":
		return Val{"int32", QStr(strconv.FormatInt(int64(int32(n)), 10))}
	case "uint", "uint64":
		return Val{k, QStr(strconv.FormatUint(uint64(n), 10))}
	case "uint32":
		return Val{k, QStr(strconv.FormatUint(uint64(uint32(n)), 10))}
	case "float64":
		f := genFloat(t, "f")
		if chance(t, "f32edge", 3) {
			f = pick(t, "edge", math.MaxFloat32, -math.MaxFloat32, math.Nextafter(math.MaxFloat32, math.Inf(1)), math.Nextafter(-math.MaxFloat32, math.Inf(-1)), 3.4028235e38, 3.5e38, math.MaxFloat32*(1-1e-9))
		}
		return Val{k, fmtF(f)}
	case "float32":
		return Val{k, fmtF32(float32(genFloat(t, "f")))}
	case "string":
		return Val{k, QStr(textOf(t, "s", pick(t, "sl", 0, 1, 20, 254, 255, 256, 257, 300, 600)))}
	}
	return pick(t, "odd", Val{"nil", ""}, Val{"bool", "false"}, Val{"int8", "1"}, Val{"int16", "1"}, Val{"uint8", "1"}, Val{"uint16", "1"}, Val{"uintptr", "1"}, Val{"bytes", "ab"}, Val{"struct", ""}, Val{"ptr", ""}, Val{"complex", ""}, Val{"namedint", "3"}, Val{"namedstring", "n"})
}

func init() {
	register(Prop{ID: "C07", Fuzz: true,
		Rule:  "case: a metric type, initial values and a series of sets with values of any Go type biased to the edges of each type, on a single-valued or instance metric of an active or inactive client; non-trivial when at least one value was accepted and one refused",
		Quick: Budget{Cases: 35000},
	}, func(t *rapid.T) CaseC07 {
		x := CaseC07{Type: pick(t, "type", 0, 1, 2, 3, 4, 5, 6, 0, 1, 2, 3, 4, 5, 6, -1, 7, 255), Insts: pick(t, "insts", 0, 0, 0, 1, 3, 3, rapid.IntRange(2, 14).Draw(t, "instsany")), Active: rapid.Bool().Draw(t, "active")}
		n := x.Insts
		if n == 0 {
			n = 1
		}
		wild := n + 2
		if wild < 6 {
			wild = 4
		}
		for i := 0; i < n; i++ {
			if chance(t, "wildinit", wild) {
				x.Init = append(x.Init, genAnyVal(t, x.Type))
			} else {
				x.Init = append(x.Init, genVal(t, "init", x.Type))
			}
		}
		n = rapid.IntRange(0, 12).Draw(t, "nsets")
		for i := 0; i < n; i++ {
			x.Sets = append(x.Sets, genAnyVal(t, x.Type))
		}
		return x
	}, runC07)
}

func runC07(c *Ctx, x CaseC07) {
	s := newSession(c, "c07")
	ty := int32(x.Type)
	ok := true
	for _, v := range x.Init {
		want, f := fits(ty, v.Go())
		_ = want
		ok = ok && f
		if got := speed.MetricType(x.Type).IsCompatible(v.Go()); got != f {
			c.Failf("type %d: IsCompatible(%s)=%v, expected %v", x.Type, show(v.Go()), got, f)
		}
	}
	sp := MetricSpec{Kind: "singleton", Name: "m", Type: x.Type, Vals: x.Init}
	var dom []*LIndom
	if x.Insts > 0 {
		sp.Kind = "inst"
		d := IndomSpec{Name: "d"}
		for i := 0; i < x.Insts; i++ {
			d.Insts = append(d.Insts, QStr(fmt.Sprintf("i%d", i)))
		}
		dom = append(dom, makeIndom(d))
	}
	m := makeMetric(sp, dom)
	if (m != nil) != ok {
		c.Failf("type %d: constructing a metric with %v: accepted=%v, expected %v", x.Type, x.Init, m != nil, ok)
	}
	// the string forms decide the same way
	strName := "viastring"
	var v interface{} = x.Init[0].Go()
	if x.Insts > 0 {
		vs := speed.Instances{}
		strName = "strdom[i0"
		for i := 0; i < x.Insts; i++ {
			vs[fmt.Sprintf("i%d", i)] = x.Init[i].Go()
			if i > 0 {
				strName += fmt.Sprintf(",i%d", i)
			}
		}
		strName += "].v"
		v = vs
	}
	if _, err := s.Client.RegisterString(strName, v, speed.MetricType(x.Type), speed.InstantSemantics, speed.OneUnit); (err == nil) != ok {
		c.Failf("type %d: RegisterString with %v: %v, expected acceptance=%v", x.Type, x.Init, err, ok)
	}
	if m == nil {
		c.Label("construction refused")
		return
	}
	if err := m.checkReported(); err != nil {
		c.Failf("after construction: %v", err)
	}
	s2 := newSession(c, "c07b")
	if err := s2.Client.Register(m.Obj); err != nil {
		c.Failf("Register: %v", err)
	}
	s2.noteRegistered(m)
	if x.Active {
		s2.start()
		s2.syncSlots()
		if err := s2.allFileVals(s2.Snap); err != nil {
			c.Failf("after Start: %v", err)
		}
	}
	acc, ref := 0, 0
	for i, sv := range x.Sets {
		val := sv
		op := Op{A: "set", I: i, V: &val, Must: i%4 == 3}
		u := m.update(op)
		_, fit := fits(ty, sv.Go())
		if (u.Err == nil) != fit {
			c.Failf("set %d: type %d, value %s: error %v, expected acceptance=%v", i, x.Type, show(sv.Go()), u.Err, fit)
		}
		if got := speed.MetricType(x.Type).IsCompatible(sv.Go()); got != fit {
			c.Failf("type %d: IsCompatible(%s)=%v, expected %v", x.Type, show(sv.Go()), got, fit)
		}
		if fit {
			acc++
		} else {
			ref++
		}
		if err := m.commit(u); err != nil {
			c.Failf("set %d to %s: %v", i, show(sv.Go()), err)
		}
		if x.Active {
			if err := s2.allFileVals(s2.read()); err != nil {
				c.Failf("set %d to %s: %v", i, show(sv.Go()), err)
			}
		}
	}
	if acc > 0 && ref > 0 {
		c.Nontrivial()
	}
	if !x.Active {
		s2.start()
		s2.syncSlots()
		if err := s2.allFileVals(s2.Snap); err != nil {
			c.Failf("published: %v", err)
		}
	}
}

// ------------------------------------------------------------------ C13

type CaseC13 struct {
	Strings []QStr `json:"strings"`
	Type    int    `json:"t"`
}

func genIdent(t *rapid.T) string {
	return pick(t, "id", "a", "b", "cpu", "x_1", "_", "9", "Z", "é", "数据", "a1", "mmm", "٣", "ⅷ", "½")
}

func genRegString(t *rapid.T) string {
	var b strings.Builder
	n := rapid.IntRange(1, 3).Draw(t, "npre")
	if chance(t, "deep", 30) {
		n = rapid.IntRange(4, 12).Draw(t, "depth")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte('.')
		}
		b.WriteString(genIdent(t))
	}
	if !chance(t, "plain", 3) {
		b.WriteByte('[')
		n = rapid.IntRange(1, 3).Draw(t, "ninst")
		if chance(t, "many", 30) {
			n = rapid.IntRange(4, 40).Draw(t, "ninsts")
		}
		numbered := n > 3
		if chance(t, "verymany", 150) {
			k := pick(t, "nvery", 64, 100, 257, 1000, rapid.IntRange(40, 3000).Draw(t, "nveryany"))
			sep := pick(t, "sepvery", ",", ", ")
			for i := 0; i < k; i++ {
				fmt.Fprintf(&b, "i%d%s", i, sep)
			}
			n = 1
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(pick(t, "sep", ",", ",", ", ", ",\t"))
				if chance(t, "space", 12) {
					b.WriteString(pick(t, "spaces", " ", "\t", "\n", "  ", "\u00a0", "\v", "\u2003", " ,", "\u0085"))
				}
			}
			b.WriteString(genIdent(t))
			if numbered {
				fmt.Fprint(&b, i)
			}
			if chance(t, "longinst", 60) {
				b.WriteString(strings.Repeat("i", pick(t, "il", 63, 64, 253, 254, 255, 256, 300)))
			}
		}
		b.WriteByte(']')
		n = rapid.IntRange(0, 2).Draw(t, "npost")
		for i := 0; i < n; i++ {
			b.WriteByte('.')
			b.WriteString(genIdent(t))
		}
	}
	s := b.String()
	if chance(t, "mutate", 2) {
		k := rapid.IntRange(1, 2).Draw(t, "nmut")
		for i := 0; i < k; i++ {
			p := rapid.IntRange(0, len(s)).Draw(t, "pos")
			frag := pick(t, "frag", ".", "..", "[", "]", "[]", ",", " ", "\n", "-", "[a]", "[x,y]", "\x00", "\xff", "a", "$", "\u0301", "\u00a0", ",,", "  ", "\u2028", "[a", "b]", "…")
			switch pick(t, "how", "ins", "ins", "del", "rep") {
			case "ins":
				s = s[:p] + frag + s[p:]
			case "del":
				if p < len(s) {
					s = s[:p] + s[p+1:]
				}
			case "rep":
				if p < len(s) {
					s = s[:p] + frag + s[p+1:]
				}
			}
		}
	}
	if chance(t, "junk", 20) {
		s = rapid.String().Draw(t, "any")
	}
	if chance(t, "long", 25) {
		s = strings.Repeat("n", pick(t, "ll", 63, 64, 254, 255, 256, 400))
	}
	return s
}

func init() {
	register(Prop{ID: "C13", Fuzz: true,
		Rule:  "case: a series of registration strings, derived from the grammar and then mutated, registered one after another in one registry; non-trivial when at least one string with an instance list was accepted",
		Quick: Budget{Cases: 90000},
	}, func(t *rapid.T) CaseC13 {
		x := CaseC13{Type: pick(t, "t", tInt32, tDouble, tString)}
		n := rapid.IntRange(1, 6).Draw(t, "n")
		for i := 0; i < n; i++ {
			x.Strings = append(x.Strings, QStr(genRegString(t)))
		}
		return x
	}, runC13)
}

// lenientValues are values for the instances that a laxer reading of s could find.
func lenientValues(s string, zero interface{}) []interface{} {
	i := strings.IndexByte(s, '[')
	if i < 0 {
		return nil
	}
	in := s[i+1:]
	if j := strings.LastIndexByte(in, ']'); j >= 0 {
		in = in[:j]
	}
	word := func(r rune) bool { return !(unicode.IsLetter(r) || unicode.Is(unicode.N, r) || r == '_') }
	trim, whole, words := speed.Instances{}, speed.Instances{}, speed.Instances{}
	for _, x := range strings.Split(in, ",") {
		trim[strings.TrimSpace(x)] = zero
		whole[x] = zero
	}
	for _, x := range strings.FieldsFunc(in, word) {
		words[x] = zero
	}
	return []interface{}{trim, whole, words, speed.Instances{}}
}

func runC13(c *Ctx, x CaseC13) {
	cl, err := speed.NewPCPClient("c13")
	if err != nil {
		c.Failf("NewPCPClient: %v", err)
	}
	reg := cl.Registry()
	doms := map[string][]string{}
	metrics := map[string]bool{}
	zero := zeroVal(int32(x.Type))
	for i, q := range x.Strings {
		str := string(q)
		name, dom, insts, ok := parseMetricString(str)
		want := ok && len(name) <= 255 && !metrics[name]
		if dom != "" {
			if d, has := doms[dom]; has && !sameSet(d, insts) {
				want = false
			}
			for _, in := range insts {
				if len(in) > 255 {
					want = false
				}
			}
		}
		var v interface{} = zero
		if dom != "" {
			vs := speed.Instances{}
			for _, in := range insts {
				vs[in] = zero
			}
			v = vs
		}
		if !ok {
			// whatever the registry might take the string for, some value fits
			for _, lv := range lenientValues(str, zero) {
				if _, err := cl.RegisterString(str, lv, speed.MetricType(x.Type), speed.InstantSemantics, speed.OneUnit); err == nil {
					c.Failf("string %d %q is not in the grammar and was accepted with the value %v", i, str, lv)
				}
			}
		}
		var m speed.Metric
		var err error
		if i%3 == 2 {
			p := panics(func() {
				m = cl.MustRegisterString(str, v, speed.MetricType(x.Type), speed.InstantSemantics, speed.OneUnit)
			})
			if p != nil {
				e, isErr := p.(error)
				if _, rt := p.(interface{ RuntimeError() }); rt || !isErr {
					c.Failf("MustRegisterString(%q): %v", str, p)
				}
				err = e
			}
		} else {
			m, err = cl.RegisterString(str, v, speed.MetricType(x.Type), speed.InstantSemantics, speed.OneUnit)
		}
		if (err == nil) != want {
			c.Failf("string %d %q: error %v; expected acceptance=%v (name %q, domain %q, instances %q, taken %v)", i, str, err, want, name, dom, insts, metrics[name])
		}
		if want {
			metrics[name] = true
			if m.Name() != name || int(m.Type()) != x.Type {
				c.Failf("string %q gave metric %q of type %v", str, m.Name(), m.Type())
			}
			pm, isP := m.(speed.PCPMetric)
			if !isP {
				c.Failf("string %q gave a %T", str, m)
			}
			if dom == "" {
				sm, single := m.(speed.SingletonMetric)
				if pm.Indom() != nil || !single {
					c.Failf("string %q gave a metric (%T) with domain %v", str, m, pm.Indom())
				}
				if !sameVal(sm.Val(), zero) {
					c.Failf("string %q: value %v", str, sm.Val())
				}
			} else {
				if pm.Indom() == nil || pm.Indom().Name() != dom || !sameSet(pm.Indom().Instances(), insts) {
					c.Failf("string %q gave domain %v, expected %q %q", str, pm.Indom(), dom, insts)
				}
				im, multi := m.(speed.InstanceMetric)
				if !multi {
					c.Failf("string %q gave a %T", str, m)
				}
				for _, in := range distinct(insts) {
					if got, err := im.ValInstance(in); err != nil || !sameVal(got, zero) {
						c.Failf("string %q: instance %q: %v %v", str, in, got, err)
					}
				}
				doms[dom] = distinct(insts)
				c.Nontrivial()
			}
			c.Label("accepted")
		} else {
			c.Label("refused")
		}
		if reg.MetricCount() != len(metrics) || reg.InstanceDomainCount() != len(doms) {
			c.Failf("after %q: %d metrics and %d domains registered, expected %d and %d", str, reg.MetricCount(), reg.InstanceDomainCount(), len(metrics), len(doms))
		}
		for n := range metrics {
			if !reg.HasMetric(n) {
				c.Failf("metric %q is missing", n)
			}
		}
	}
}

// ------------------------------------------------------------------ C24

type CaseC24 struct {
	Name  QStr     `json:"name"`
	Insts []QStr   `json:"insts"`
	Other [][]QStr `json:"other,omitempty"`
	Vals  []QStr   `json:"vals"` // instances for which values are given
	Probe []QStr   `json:"probe"`
	ND    int      `json:"nd"`
}

func init() {
	register(Prop{ID: "C24", Fuzz: true,
		Rule:  "case: a list of instance names with repetitions, lists to compare with, and the instances given values for an instance metric; non-trivial when the list has at least two distinct names or repeats one",
		Quick: Budget{Cases: 90000},
	}, func(t *rapid.T) CaseC24 {
		name := func() QStr {
			if chance(t, "long", 25) {
				return QStr(strings.Repeat("L", pick(t, "ll", 63, 64, 254, 255, 256, 257, 500)))
			}
			return pick(t, "n", QStr("a"), "b", "c", "d", "", "A", "a ", "é", "\xff")
		}
		list := func(max int) []QStr {
			var r []QStr
			n := rapid.IntRange(0, max).Draw(t, "n")
			for i := 0; i < n; i++ {
				r = append(r, name())
			}
			if max > 5 && chance(t, "many", 60) {
				n = pick(t, "nmany", 17, 64, 130, 300)
				if chance(t, "huge", 50) {
					n = pick(t, "nhuge", 1000, 3000)
				}
				mod := n
				if chance(t, "repeats", 3) {
					mod = n / 2
				}
				for i := 0; i < n; i++ {
					r = append(r, QStr(fmt.Sprintf("i%d", i%mod)))
				}
			}
			return r
		}
		x := CaseC24{Name: pick(t, "name", QStr("dom"), "dom", "x.y", "", QStr(strings.Repeat("N", 300))), Insts: list(6), ND: pick(t, "nd", 0, 1, 2, 2, 3)}
		n := rapid.IntRange(0, 4).Draw(t, "nother")
		for i := 0; i < n; i++ {
			if chance(t, "perm", 2) && len(x.Insts) > 0 {
				p := rapid.Permutation(x.Insts).Draw(t, "perm")
				if chance(t, "drop", 3) {
					p = p[1:]
				}
				if chance(t, "dup", 3) && len(p) > 0 {
					p = append(append([]QStr{}, p...), p[0])
				}
				if chance(t, "swap", 4) && len(p) > 0 {
					p = append([]QStr{}, p...)
					p[0] = name()
				}
				x.Other = append(x.Other, p)
			} else {
				x.Other = append(x.Other, list(5))
			}
		}
		if chance(t, "exact", 2) {
			x.Vals = x.Insts
		} else {
			x.Vals = list(5)
		}
		x.Probe = list(4)
		return x
	}, runC24)
}

func runC24(c *Ctx, x CaseC24) {
	ds := []string{"s", "l", "x"}[:x.ND]
	valid := x.Name != "" && x.ND <= 2
	for _, i := range x.Insts {
		valid = valid && len(i) <= 255
	}
	given := strs(x.Insts)
	in, err := speed.NewPCPInstanceDomain(string(x.Name), given, ds...)
	if !slices.Equal(given, strs(x.Insts)) {
		c.Failf("the list of instances %q given to NewPCPInstanceDomain became %q", x.Insts, given)
	}
	// what the caller does later to the slices and maps it passed or was given does not matter
	spoil(given)
	spoil(ds)
	if (err == nil) != valid {
		c.Failf("domain %q with %d names and %d descriptions: error %v, expected acceptance=%v", x.Name, len(x.Insts), x.ND, err, valid)
	}
	set := map[string]bool{}
	for _, i := range x.Insts {
		set[string(i)] = true
	}
	if len(set) >= 2 || len(set) < len(x.Insts) {
		c.Nontrivial()
	}
	if err != nil {
		c.Label("refused")
		return
	}
	check := func(at string) {
		if in.Name() != string(x.Name) {
			c.Failf("%s: name %q, expected %q", at, in.Name(), x.Name)
		}
		if in.InstanceCount() != len(set) || len(in.Instances()) != len(set) || !sameSet(in.Instances(), strs(x.Insts)) {
			c.Failf("%s: built from %q, lists %q and counts %d", at, x.Insts, in.Instances(), in.InstanceCount())
		}
		for _, p := range append(append([]QStr{"nosuch"}, x.Probe...), x.Insts...) {
			if in.HasInstance(string(p)) != set[string(p)] {
				c.Failf("%s: HasInstance(%q)=%v", at, p, !set[string(p)])
			}
		}
		for _, o := range append(append([][]QStr{}, x.Other...), x.Insts, nil) {
			want := sameSet(strs(o), strs(x.Insts))
			list := strs(o)
			if got := in.MatchInstances(list); got != want {
				c.Failf("%s: domain %q: MatchInstances(%q)=%v, expected %v", at, x.Insts, o, got, want)
			}
			if !slices.Equal(list, strs(o)) {
				c.Failf("%s: the list %q given to MatchInstances became %q", at, o, list)
			}
		}
	}
	check("after construction")
	spoil(in.Instances())
	if d, w := in.Description(), strings.Join(append([]string{"s", "l"}[:x.ND], "", "")[:2], "\n"); d != w {
		c.Failf("domain with %d descriptions describes itself as %q, expected %q", x.ND, d, w)
	}
	check("after the list it returned was changed")
	vals := speed.Instances{}
	vset := map[string]bool{}
	for i, v := range x.Vals {
		vals[string(v)] = int32(i)
		vset[string(v)] = true
	}
	want := sameSet(strs(x.Vals), strs(x.Insts))
	m, err := speed.NewPCPInstanceMetric(vals, "m", in, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
	if (err == nil) != want {
		c.Failf("instance metric on %q with values for %q: error %v, expected acceptance=%v", x.Insts, x.Vals, err, want)
	}
	if err == nil {
		c.Label("metric built")
		if len(m.Instances()) != len(set) || !sameSet(m.Instances(), strs(x.Insts)) {
			c.Failf("metric on %q reports instances %q", x.Insts, m.Instances())
		}
		model := map[string]int32{}
		for k, v := range vals {
			model[k] = v.(int32)
			vals[k] = int32(-1)
		}
		vals["spoiled"] = int32(-1)
		spoil(m.Instances())
		for k, want := range model {
			if got, err := m.ValInstance(k); err != nil || got != want {
				c.Failf("instance %q is %v (%v), expected %v as constructed", k, got, err, want)
			}
		}
		for n, p := range append(append([]QStr{"nosuch"}, x.Probe...), x.Insts...) {
			name := string(p)
			_, err := m.ValInstance(name)
			if (err == nil) != set[name] {
				c.Failf("reading instance %q of a metric on %q: %v", name, x.Insts, err)
			}
			err = m.SetInstance(int32(1000+n), name)
			if (err == nil) != set[name] {
				c.Failf("writing instance %q of a metric on %q: %v", name, x.Insts, err)
			}
			if err == nil {
				model[name] = int32(1000 + n)
			}
			if p := panics(func() { m.MustSetInstance(int32(1000+n), name) }); (p == nil) != set[name] {
				c.Failf("MustSetInstance(%q): panic %v", name, p)
			}
			for k, want := range model {
				if got, err := m.ValInstance(k); err != nil || got != want {
					c.Failf("instance %q is %v (%v), expected %v", k, got, err, want)
				}
			}
		}
	}
	check("after use")
}

var _ = os.Getpid
