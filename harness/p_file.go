package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/performancecopilot/speed/v4"
	"pgregory.net/rapid"
)

// parseMetricString is the reference reading of a registration string:
// identifiers separated by dots, with at most one bracketed list of identifiers
// separated by commas (one white space may follow a comma) after one of them.
func parseMetricString(s string) (name, dom string, insts []string, ok bool) {
	ident := func() string {
		i := 0
		for i < len(s) {
			r, n := utf8.DecodeRuneInString(s[i:])
			if r == utf8.RuneError && n <= 1 || !(unicode.IsLetter(r) || unicode.Is(unicode.N, r) || r == '_') {
				break
			}
			i += n
		}
		x := s[:i]
		s = s[i:]
		return x
	}
	x := ident()
	if x == "" {
		return
	}
	name = x
	seen := false
	for s != "" {
		switch s[0] {
		case '.':
			s = s[1:]
			x := ident()
			if x == "" {
				return "", "", nil, false
			}
			name += "." + x
		case '[':
			if seen {
				return "", "", nil, false
			}
			seen = true
			dom = name
			s = s[1:]
			for {
				x := ident()
				if x == "" {
					return "", "", nil, false
				}
				insts = append(insts, x)
				if s == "" {
					return "", "", nil, false
				}
				c := s[0]
				s = s[1:]
				if c == ']' {
					break
				}
				if c != ',' {
					return "", "", nil, false
				}
				if s != "" && strings.IndexByte(" \t\n\f\r", s[0]) >= 0 {
					s = s[1:]
				}
			}
		default:
			return "", "", nil, false
		}
		if seen && s != "" && s[0] != '.' {
			return "", "", nil, false
		}
	}
	return name, dom, insts, true
}

func opActions(kind string) []string {
	switch kind {
	case "counter":
		return []string{"set", "inc", "inc", "up"}
	case "gauge":
		return []string{"set", "inc", "dec"}
	case "cvec":
		return []string{"set", "inc", "inc", "up", "setall", "incall", "upall"}
	case "gvec":
		return []string{"set", "inc", "dec", "setall", "incall", "decall"}
	case "hist":
		return []string{"set", "inc"}
	case "timer":
		return []string{"inc", "inc", "set"}
	}
	return []string{"set"}
}

// genOp draws an update of one of the listed metrics, mostly one that should succeed.
func genOp(t *rapid.T, ms []MetricSpec) Op {
	m := rapid.IntRange(0, len(ms)-1).Draw(t, "m")
	sp := ms[m]
	o := Op{M: m, A: rapid.SampledFrom(opActions(sp.Kind)).Draw(t, "a"), Must: chance(t, "must", 5)}
	switch sp.Kind {
	case "inst", "strinst", "cvec", "gvec":
		o.I = rapid.IntRange(0, 5).Draw(t, "inst")
		if chance(t, "unknown", 12) {
			o.I = -1
		}
	}
	var v Val
	bad := chance(t, "bad", 10)
	switch sp.Kind {
	case "counter", "cvec":
		n := int64(rapid.IntRange(0, 1000).Draw(t, "n"))
		if chance(t, "wild", 6) {
			n = genInt(t, "n64", -1<<63, 1<<63-1)
		}
		if bad {
			n = -n - 1
		}
		v = Val{"int64", QStr(strconv.FormatInt(n, 10))}
	case "gauge", "gvec":
		v = Val{"float64", fmtF(genFloat(t, "f"))}
	case "hist":
		n := rapid.Int64Range(0, sp.Hi+5).Draw(t, "rec")
		if bad {
			n = 1 << 60
		}
		v = Val{"int64", QStr(strconv.FormatInt(n, 10))}
	case "timer":
		return o
	default:
		if bad {
			v = genWrongVal(t, sp.Type)
		} else {
			v = genVal(t, "val", sp.Type)
		}
	}
	o.V = &v
	return o
}

// genWrongVal draws a value that a metric of type ty must refuse.
func genWrongVal(t *rapid.T, ty int) Val {
	cands := []Val{{"nil", ""}, {"bool", "true"}, {"int8", "3"}, {"uint16", "9"}, {"bytes", "xyz"}, {"struct", ""}, {"int32", "5"}, {"int64", "5"}, {"uint32", "5"}, {"uint64", "5"}, {"float32", "2.5"}, {"float64", "2.5"}, {"float64", "1e300"}, {"string", "text"}, {"string", QStr(strings.Repeat("L", 256))}, {"string", QStr(strings.Repeat("L", 300))}, {"int", "-1"}, {"int", "4294967296"}, {"uint", "4294967296"}, {"int", "2147483648"}, {"namedint", "1"}, {"namedstring", "x"}}
	var ok []Val
	for _, v := range cands {
		if _, fit := fits(int32(ty), v.Go()); !fit {
			ok = append(ok, v)
		}
	}
	return rapid.SampledFrom(ok).Draw(t, "wrong")
}

// ------------------------------------------------------------------ C01

func init() {
	register(Prop{ID: "C01", Fuzz: true,
		Rule:  "case: a random registry specification (every metric kind, explicit and implied domains, names and texts with boundary lengths, empty domains, flags, optionally hundreds of metrics) started by a client, sometimes twice with more registered in between; non-trivial when at least one metric, domain or non-default flag was published",
		Quick: Budget{Cases: 16000},
		Fixed: func() (cs []interface{}) {
			for _, r := range giants {
				cs = append(cs, r)
			}
			return
		},
	}, func(t *rapid.T) RegSpec {
		r := genReg(t, allKinds, 25)
		if chance(t, "runs", 3) {
			r.Later = rapid.IntRange(1, len(r.Metrics)+1).Draw(t, "later")
		}
		if chance(t, "hand", 4) {
			r.Hand = rapid.IntRange(1, 2).Draw(t, "how")
		}
		return r
	}, runC01)

	register(Prop{ID: "C02", Fuzz: true,
		Rule:  "case: as C01, plus updates made before Start; non-trivial when the image holds at least two metrics or one metric with a domain",
		Quick: Budget{Cases: 14000},
		Fixed: func() (cs []interface{}) {
			for _, r := range giants {
				cs = append(cs, CaseC02{Reg: r})
			}
			return
		},
	}, genC02, runC02)

	register(Prop{ID: "C03", Fuzz: true,
		Rule:  "case: a registry and a history of updates (plain, Must and All forms, valid and invalid values, unknown instances) on the active client, the whole file compared byte by byte after each; non-trivial when at least two updates changed the file",
		Quick: Budget{Cases: 9000},
	}, genC03, runC03)

	register(Prop{ID: "C04", Fuzz: true,
		Rule:  "case: a history of registrations, flag changes, starts, stops, updates and reads over several runs of one client; non-trivial when the client was started at least twice, or updated while stopped after a run",
		Quick: Budget{Cases: 14000},
	}, genC04, runC04)
}

// giants have sections of more records than sixteen bits can count, in both versions.
var giants = []RegSpec{
	{Client: "giant1", BulkI: 66000},
	{Client: "giant2", BulkI: 66000, Metrics: []MetricSpec{{Kind: "counter", Name: QStr(strings.Repeat("n", 80)), Type: tInt64, Vals: []Val{{"int64", "1"}}}}},
	{Client: "giant3", BulkM: 33000},
}

func runC01(c *Ctx, r RegSpec) {
	s := newSession(c, string(r.Client))
	if r.Later == 0 {
		s.build(r)
		s.handOver(r.Hand)
		s.checkC01(r)
		return
	}
	// the same in two runs, the second one with more
	r = r.expand()
	later := int(clampI(int64(r.Later-1), 0, int64(len(r.Metrics))))
	first := r
	first.Metrics = r.Metrics[:len(r.Metrics)-later]
	first.Indoms = append([]IndomSpec{}, r.Indoms...)
	for i := range first.Indoms {
		first.Indoms[i].Reg = i == 0 && first.Indoms[i].Reg
	}
	s.build(first)
	s.checkC01(r)
	s.handOver(r.Hand)
	for i, o := range s.Objs {
		if i > 0 && o != nil && r.Indoms[i].Reg && s.indomNamed(o.Name) == nil {
			if err := s.Client.RegisterIndom(o.Obj); err != nil {
				c.Failf("RegisterIndom(%q) after Stop: %v", o.Name, err)
			}
			s.Indoms = append(s.Indoms, o)
		}
	}
	for _, sp := range r.Metrics[len(first.Metrics):] {
		s.addMetric(sp)
	}
	c.Label("second run")
	s.checkC01(r)
}

func (s *Session) checkC01(r RegSpec) {
	c := s.c
	want := s.Client.Length()
	s.start()
	im := s.Img
	if len(im.Data) != want || s.Client.Length() != want {
		c.Failf("the file is %d bytes long; the client's length was %d before and %d after Start", len(im.Data), want, s.Client.Length())
	}
	if v := s.version(); im.Version != v {
		c.Failf("version %d, expected %d", im.Version, v)
	}
	nInst := 0
	for _, i := range s.Indoms {
		nInst += len(i.Insts)
	}
	nVal := 0
	for _, m := range s.Metrics {
		nVal += len(m.Vals)
	}
	wantToc := map[int32]int{tocMetric: len(s.Metrics), tocValue: nVal}
	if len(s.Indoms) > 0 {
		wantToc[tocIndom] = len(s.Indoms)
	}
	if nInst > 0 {
		wantToc[tocInst] = nInst
	}
	nStr := len(im.Strings)
	if nStr > 0 {
		wantToc[tocString] = nStr
	}
	if len(im.Tocs) != len(wantToc) {
		c.Failf("table of contents %v, expected sections %v", im.Tocs, wantToc)
	}
	for _, t := range im.Tocs {
		if n, ok := wantToc[t.Type]; !ok || int(t.Count) != n {
			c.Failf("TOC entry %+v, expected sections (type: count) %v", t, wantToc)
		}
	}
	if im.Flag != s.Flag || im.Process != int32(os.Getpid()) || im.Cluster != fnvBits(s.Name, 12) {
		c.Failf("header flag %d process %d cluster %d; expected %d, %d, %d", im.Flag, im.Process, im.Cluster, s.Flag, os.Getpid(), fnvBits(s.Name, 12))
	}
	// nothing but the sections: the bytes add up
	size := mmvHeader + mmvToc*len(im.Tocs) + mmvIndom*len(s.Indoms) + mmvValue*nVal + mmvString*nStr
	if im.Version == 1 {
		size += mmvInst1*nInst + mmvMet1*len(s.Metrics)
	} else {
		size += mmvInst2*nInst + mmvMet2*len(s.Metrics)
		c.Label("version 2")
	}
	if size != len(im.Data) {
		c.Failf("sections take %d bytes, the file has %d", size, len(im.Data))
	}
	used := 0
	for off := range im.Strings {
		if im.StrRefs[off] == 0 {
			c.Failf("string record at %d (%q) is not referred to", off, im.Strings[off])
		}
		used++
	}
	for _, v := range im.Values {
		if im.metricAt[v.Metric].Type == tString && im.StrRefs[v.Extra] != 1 {
			c.Failf("the string record at %d of a value is shared", v.Extra)
		}
	}
	if len(s.Metrics) > 0 || len(s.Indoms) > 0 || r.Flag != nil {
		c.Nontrivial()
	}
	for _, i := range s.Indoms {
		if len(i.Insts) == 0 {
			c.Label("empty domain")
		}
	}
	if len(im.Data) > 4096 {
		c.Label("larger than a page")
	}
	if len(s.Metrics) == 0 {
		c.Label("no metrics")
	}
	if err := s.Client.Stop(); err != nil {
		c.Failf("Stop: %v", err)
	}
	s.Active = false
}

// ------------------------------------------------------------------ C02

type CaseC02 struct {
	Reg RegSpec `json:"reg"`
	Ops []Op    `json:"ops,omitempty"`
}

func genC02(t *rapid.T) CaseC02 {
	x := CaseC02{Reg: genReg(t, allKinds, 30)}
	if chance(t, "hand", 6) {
		x.Reg.Hand = rapid.IntRange(1, 2).Draw(t, "how")
	}
	if len(x.Reg.Metrics) > 0 {
		n := rapid.IntRange(0, 6).Draw(t, "nops")
		for i := 0; i < n; i++ {
			x.Ops = append(x.Ops, genOp(t, x.Reg.Metrics))
		}
	}
	return x
}

func runC02(c *Ctx, x CaseC02) {
	s := newSession(c, string(x.Reg.Client))
	s.build(x.Reg)
	if s.serialClash() {
		c.Label("skipped: domain id collision")
		return
	}
	checkMeta(c, s)
	for _, op := range x.Ops {
		m := s.All[op.M%len(s.All)]
		if m == nil {
			continue
		}
		if err := m.commit(m.update(op)); err != nil {
			c.Failf("before Start: %v", err)
		}
	}
	s.handOver(x.Reg.Hand)
	s.start()
	s.syncSlots()
	if err := s.checkValues(s.Img, s.Slots); err != nil {
		c.Failf("%v", err)
	}
	for off := range s.Img.Strings {
		if !zeroTail(s.Img.Data[off : off+mmvString]) {
			c.Failf("string record at %d holds bytes after its terminator", off)
		}
	}
	if s.Img.Version == 1 {
		for _, i := range s.Img.Insts {
			if !zeroTail(i.Raw[16:80]) {
				c.Failf("instance record %q holds bytes after its terminator", i.Name)
			}
		}
	}
	checkMeta(c, s)
	if len(s.Metrics) >= 2 || len(s.Metrics) == 1 && s.Metrics[0].Indom != nil {
		c.Nontrivial()
	}
	for _, m := range s.Metrics {
		c.Label("kind " + m.Spec.Kind)
	}
}

// names of the constants of the library
var (
	typeNames = []string{"Int32Type", "Uint32Type", "Int64Type", "Uint64Type", "FloatType", "DoubleType", "StringType"}
	semNames  = map[int32]string{0: "NoSemantics", 1: "CounterSemantics", 3: "InstantSemantics", 4: "DiscreteSemantics"}
)

// checkMeta compares what the objects report with what they were constructed with.
func checkMeta(c *Ctx, s *Session) {
	desc := func(a, b string) string { return a + "\n" + b }
	for _, m := range s.Metrics {
		o := m.Obj
		if o.Name() != m.Name || int32(o.Type()) != m.Type || int32(o.Semantics()) != m.Sem || o.Unit().PMAPI() != m.Unit {
			c.Failf("metric %q reports name %q type %v semantics %v unit %#x; constructed with type %d semantics %d unit %#x", m.Name, o.Name(), o.Type(), o.Semantics(), o.Unit().PMAPI(), m.Type, m.Sem, m.Unit)
		}
		if o.ShortDescription() != m.Short || o.LongDescription() != m.Long || o.Description() != desc(m.Short, m.Long) {
			c.Failf("metric %q reports descriptions %q, %q, %q; constructed with %q, %q", m.Name, o.ShortDescription(), o.LongDescription(), o.Description(), m.Short, m.Long)
		}
		if t, n := o.Type().String(), typeNames[m.Type]; t != n {
			c.Failf("metric %q: its type is printed %q, expected %q", m.Name, t, n)
		}
		if n, ok := semNames[m.Sem]; ok && o.Semantics().String() != n {
			c.Failf("metric %q: its semantics are printed %q, expected %q", m.Name, o.Semantics(), n)
		}
		if x, ok := o.(*speed.PCPSingletonMetric); ok {
			p := x.String()
			for _, want := range []string{fmt.Sprint(x.Val()), m.Short, m.Long} {
				if !strings.Contains(p, want) {
					c.Failf("metric %q is printed %q, without %q", m.Name, p, want)
				}
			}
		}
		if (o.Indom() != nil) != (m.Indom != nil) {
			c.Failf("metric %q: domain %v", m.Name, o.Indom())
		}
		if m.Indom != nil {
			if !sameSet(o.Indom().Instances(), m.Insts) || o.Indom().Name() != m.Indom.Name || o.Indom().InstanceCount() != len(m.Insts) {
				c.Failf("metric %q reports domain %v, constructed with %q %q", m.Name, o.Indom(), m.Indom.Name, m.Insts)
			}
			if x, ok := o.(interface{ Instances() []string }); ok && !(sameSet(x.Instances(), m.Insts) && len(x.Instances()) == len(m.Insts)) {
				c.Failf("metric %q reports instances %q, constructed with %q", m.Name, x.Instances(), m.Insts)
			}
		}
	}
	for _, i := range s.Indoms {
		o := i.Obj
		if o.Name() != i.Name || !sameSet(o.Instances(), i.Insts) || len(o.Instances()) != len(i.Insts) || o.InstanceCount() != len(i.Insts) || o.Description() != desc(i.Short, i.Long) {
			c.Failf("domain %q reports name %q, instances %q, description %q; constructed with %q, %q, %q", i.Name, o.Name(), o.Instances(), o.Description(), i.Insts, i.Short, i.Long)
		}
		if len(i.Insts) <= 50 {
			p := o.String()
			for _, want := range append([]string{i.Name}, i.Insts...) {
				if !strings.Contains(p, want) {
					c.Failf("domain %q is printed %q, without %q", i.Name, p, want)
				}
			}
		}
	}
}

// ------------------------------------------------------------------ C03

type CaseC03 struct {
	Reg RegSpec `json:"reg"`
	Pre []Op    `json:"pre,omitempty"`
	Ops []Op    `json:"ops"`
}

func genUpdatable(t *rapid.T, bulk int) RegSpec {
	r := genReg(t, allKinds, bulk)
	if len(r.Metrics) == 0 {
		r.Metrics = append(r.Metrics, genMetric(t, 0, len(r.Indoms), 1000000, allKinds))
	}
	return r
}

func genC03(t *rapid.T) CaseC03 {
	x := CaseC03{Reg: genUpdatable(t, 30)}
	ms := x.Reg.expand().Metrics
	n := rapid.IntRange(1, 30).Draw(t, "nops")
	hot := rapid.IntRange(0, len(ms)-1).Draw(t, "hot")
	for i := 0; i < n; i++ {
		o := Op{}
		if chance(t, "again", 30) {
			x.Ops = append(x.Ops, Op{A: pick(t, "how", "restart", "restart", "cycle")})
			continue
		}
		if chance(t, "hotop", 3) {
			o = genOp(t, ms[hot:hot+1])
			o.M = hot
		} else {
			o = genOp(t, ms)
		}
		x.Ops = append(x.Ops, o)
	}
	return x
}

func runC03(c *Ctx, x CaseC03) {
	s := newSession(c, string(x.Reg.Client))
	s.build(x.Reg)
	if s.serialClash() {
		return
	}
	s.start()
	s.syncSlots()
	changed := 0
	if err := s.allFileVals(s.Snap); err != nil {
		c.Failf("after Start: %v", err)
	}
	for n, op := range x.Ops {
		if op.A == "restart" || op.A == "cycle" {
			// the mapping is another one from here on
			if op.A == "cycle" {
				if err := s.Client.Stop(); err != nil {
					c.Failf("step %d: Stop: %v", n, err)
				}
			}
			c.Label(op.A)
			s.start()
			s.syncSlots()
			if err := s.allFileVals(s.Snap); err != nil {
				c.Failf("step %d: after another Start: %v", n, err)
			}
			continue
		}
		m := s.All[op.M%len(s.All)]
		if m == nil {
			continue
		}
		if s.stepActive(m, op, fmt.Sprintf("step %d", n)) {
			changed++
		}
	}
	if err := s.checkReported(); err != nil {
		c.Failf("at the end: %v", err)
	}
	if err := s.allFileVals(s.read()); err != nil {
		c.Failf("at the end: %v", err)
	}
	if changed >= 2 {
		c.Nontrivial()
	}
}

// stepActive updates a metric of the active client and compares reported values,
// the stored values and every other byte of the file.
func (s *Session) stepActive(m *LMetric, op Op, at string) (changed bool) {
	c := s.c
	u := m.update(op)
	at = fmt.Sprintf("%s: %s on %s %q", at, op.A, m.Spec.Kind, m.Name)
	if op.V != nil {
		at += " with " + show(op.V.Go())
	}
	if u.Err != nil {
		at += fmt.Sprintf(" (refused: %v)", u.Err)
		c.Label("refused update")
	} else if !u.Skipped {
		c.Label("update of " + m.Spec.Kind)
	}
	if err := m.commit(u); err != nil {
		c.Failf("%s: %v", at, err)
	}
	d := s.read()
	if len(d) != len(s.Snap) {
		c.Failf("%s: the file changed its length from %d to %d", at, len(s.Snap), len(d))
	}
	for inst, want := range m.Vals {
		got, err := s.fileVal(d, m, inst)
		if err != nil {
			c.Failf("%s: %v", at, err)
		}
		if !sameVal(got, want) {
			c.Failf("%s: instance %q is %s in the file, the metric holds %s", at, inst, show(got), show(want))
		}
	}
	if bytes.Equal(d, s.Snap) {
		return false
	}
	if u.Err != nil && !u.All {
		c.Failf("%s: the refused update changed the file", at)
	}
	mask := append([]byte{}, d...)
	for inst := range u.Cand {
		if v := s.Slots[m][inst]; v != nil {
			lo, hi := s.Img.slot(m.Type, v)
			copy(mask[lo:hi], s.Snap[lo:hi])
		}
	}
	if !bytes.Equal(mask, s.Snap) {
		for i := range mask {
			if mask[i] != s.Snap[i] {
				c.Failf("%s: byte %d of the file changed from %#x to %#x, outside the updated value", at, i, s.Snap[i], mask[i])
			}
		}
	}
	s.Snap = d
	return true
}

// ------------------------------------------------------------------ C04

type StepC04 struct {
	A      string      `json:"a"` // start stop erase metric indom str flag update read client rival
	Metric *MetricSpec `json:"metric,omitempty"`
	Indom  *IndomSpec  `json:"indom,omitempty"`
	Op     *Op         `json:"op,omitempty"`
	N      int         `json:"n,omitempty"`
	Must   bool        `json:"must,omitempty"` // the form of the call that panics
}

type CaseC04 struct {
	Reg   RegSpec   `json:"reg"`
	Steps []StepC04 `json:"steps"`
}

func genC04(t *rapid.T) CaseC04 {
	x := CaseC04{Reg: genUpdatable(t, 0)}
	ms := append([]MetricSpec{}, x.Reg.Metrics...)
	n := rapid.IntRange(3, 22).Draw(t, "nsteps")
	active := false
	for i := 0; i < n; i++ {
		a := pick(t, "step", "start", "stop", "update", "update", "update", "update", "metric", "indom", "str", "flag", "erase", "read", "client", "rival")
		if a == "client" && active {
			a = "stop"
		}
		if a == "start" && active {
			a = pick(t, "alt", "stop", "update", "start", "update")
		}
		if a == "stop" && !active && !chance(t, "idle", 4) {
			a = "start"
		}
		st := StepC04{A: a, Must: chance(t, "must", 4)}
		switch a {
		case "start":
			active = true
		case "stop":
			active = false
		case "update":
			o := genOp(t, ms)
			st.Op = &o
		case "metric":
			m := genMetric(t, 100+i, len(x.Reg.Indoms), pick(t, "lm", 1000000, 4), []string{"singleton", "inst", "counter", "gauge", "cvec", "gvec", "hist", "timer"})
			if chance(t, "own", 2) {
				m.Name = QStr(fmt.Sprintf("late.%d", i))
			}
			st.Metric = &m
			ms = append(ms, m)
		case "str":
			m := genMetric(t, 100+i, 0, 1000000, []string{"str", "strinst"})
			st.A = "metric"
			st.Metric = &m
			ms = append(ms, m)
		case "indom":
			d := genIndom(t, 100+i, 1000000)
			if chance(t, "byname", 2) {
				d.NDesc, st.N = 0, 1 // through the registry, by name
			}
			st.Indom = &d
		case "flag":
			st.N = rapid.IntRange(0, 7).Draw(t, "flag")
		case "erase":
			st.N = rapid.IntRange(0, 1).Draw(t, "erase")
		case "client":
			st.N = rapid.IntRange(1, 2).Draw(t, "how")
		}
		x.Steps = append(x.Steps, st)
	}
	if len(x.Reg.Metrics) > 0 && chance(t, "cycles", 40) {
		if active {
			x.Steps = append(x.Steps, StepC04{A: "stop"})
		}
		o := genOp(t, ms)
		for r := pick(t, "ncycles", 9, 20, 40, 80); r > 0; r-- {
			x.Steps = append(x.Steps, StepC04{A: "start"}, StepC04{A: "update", Op: &o}, StepC04{A: "stop"})
		}
	}
	return x
}

func runC04(c *Ctx, x CaseC04) {
	speed.EraseFileOnStop = false
	c.Defer(func() { speed.EraseFileOnStop = false })
	s := newSession(c, string(x.Reg.Client))
	s.build(x.Reg)
	starts, idleUpdates := 0, 0
	var kept []byte // contents of the file kept from the previous run; nil if none
	keptKnown := false
	counts := func() [5]int {
		r := s.Client.Registry()
		return [5]int{r.MetricCount(), r.ValuesCount(), r.InstanceDomainCount(), r.InstanceCount(), r.StringCount()}
	}
	// what clients of other names left behind
	elsewhere, known := map[string][]byte{}, map[string]bool{}
	checkKeptAt := func(at, path string, kept []byte, keptKnown bool) {
		if !keptKnown {
			return
		}
		d, err := os.ReadFile(path)
		if kept == nil {
			if err == nil {
				c.Failf("%s: the file is there although Stop was to remove it", at)
			}
			return
		}
		if err != nil {
			c.Failf("%s: the file kept by Stop is gone: %v", at, err)
		}
		if !bytes.Equal(d, kept) {
			c.Failf("%s: the file kept by Stop was changed", at)
		}
	}
	checkKept := func(at string) {
		if !s.Active {
			checkKeptAt(at, s.Path, kept, keptKnown)
		}
		for path := range known {
			if path != s.Path {
				checkKeptAt(at, path, elsewhere[path], known[path])
			}
		}
	}
	for n, st := range x.Steps {
		at := fmt.Sprintf("step %d (%s)", n, st.A)
		switch st.A {
		case "start":
			if s.Active {
				c.Label("started over") // an active client starting over publishes what it has
			}
			if err := via(st.Must, s.Client.Start, s.Client.MustStart); err != nil {
				c.Failf("%s: Start: %v", at, err)
			}
			s.Active = true
			s.load()
			starts++
			if s.serialClash() {
				return
			}
			s.syncSlots()
			if err := s.allFileVals(s.Snap); err != nil {
				c.Failf("%s: run %d: %v", at, starts, err)
			}
			if s.Img.Flag != s.Flag {
				c.Failf("%s: header flag %d, set %d", at, s.Img.Flag, s.Flag)
			}
		case "stop":
			err := via(st.Must, s.Client.Stop, s.Client.MustStop)
			if !s.Active {
				if err == nil {
					c.Failf("%s: Stop of an inactive client succeeded", at)
				}
				c.Label("stop refused")
				break
			}
			if err != nil {
				c.Failf("%s: Stop: %v", at, err)
			}
			s.Active = false
			keptKnown = true
			if speed.EraseFileOnStop {
				kept = nil
				c.Label("erased")
			} else {
				kept = s.Snap
			}
		case "client":
			if s.Active {
				continue
			}
			path := s.Path
			s.handOver(st.N)
			if s.Path != path {
				checkKeptAt(at, path, kept, keptKnown)
				elsewhere[path], known[path] = kept, keptKnown
				kept, keptKnown = elsewhere[s.Path], known[s.Path]
			}
		case "rival":
			// one more client for the same registry: it serves one active client at a time
			reg, ok := s.Client.Registry().(*speed.PCPRegistry)
			if !ok {
				break
			}
			cl, err := speed.NewPCPClientWithRegistry("rival", reg)
			if err != nil {
				c.Failf("%s: NewPCPClientWithRegistry: %v", at, err)
			}
			if s.Active {
				if err := via(st.Must, cl.Start, cl.MustStart); err == nil {
					c.Failf("%s: Start succeeded while another client publishes the registry", at)
				}
				if _, err := os.Lstat(filepath.Join(filepath.Dir(s.Path), "rival")); err == nil {
					c.Failf("%s: a refused Start made a file", at)
				}
				c.Label("rival refused")
			}
			if err := via(st.Must, cl.Stop, cl.MustStop); err == nil {
				c.Failf("%s: Stop of a client that was never started succeeded", at)
			}
		case "erase":
			speed.EraseFileOnStop = st.N == 1
		case "flag":
			err := s.Client.SetFlag(speed.MMVFlag(st.N))
			if (err != nil) != s.Active {
				c.Failf("%s: SetFlag with active=%v: %v", at, s.Active, err)
			}
			if err == nil {
				s.Flag = int32(st.N)
			}
		case "indom":
			in := makeIndom(*st.Indom)
			if in == nil {
				continue
			}
			before := counts()
			var err error
			if st.N == 1 {
				var o speed.InstanceDomain
				o, err = s.Client.Registry().AddInstanceDomainByName(in.Name, in.Insts)
				if err == nil {
					in.Obj = o.(*speed.PCPInstanceDomain)
				}
			} else {
				err = via(st.Must, func() error { return s.Client.RegisterIndom(in.Obj) }, func() { s.Client.MustRegisterIndom(in.Obj) })
			}
			if s.Active {
				if err == nil || counts() != before {
					c.Failf("%s: RegisterIndom on an active client: %v, counts %v -> %v", at, err, before, counts())
				}
				c.Label("registration refused while active")
				break
			}
			if err == nil {
				s.Indoms = append(s.Indoms, in)
			} else if s.indomNamed(in.Name) == nil {
				c.Failf("%s: RegisterIndom(%q) refused while inactive: %v", at, in.Name, err)
			}
		case "metric":
			if s.Active {
				before := counts()
				if st.Metric.Kind == "str" || st.Metric.Kind == "strinst" {
					if m, err := s.registerString(*st.Metric); err == nil {
						c.Failf("%s: RegisterString on an active client returned %v", at, m.Name)
					}
				} else if m := makeMetric(*st.Metric, s.Objs); m != nil {
					if err := via(st.Must, func() error { return s.Client.Register(m.Obj) }, func() { s.Client.MustRegister(m.Obj) }); err == nil {
						c.Failf("%s: Register on an active client succeeded", at)
					}
				}
				if counts() != before {
					c.Failf("%s: refused registration changed the counts from %v to %v", at, before, counts())
				}
				c.Label("registration refused while active")
				s.All = append(s.All, nil)
				break
			}
			free := s.metricNamed(string(st.Metric.Name)) == nil
			if s.addMetric(*st.Metric) == nil && free && starts > 0 {
				switch st.Metric.Kind {
				case "singleton", "counter", "gauge", "timer":
					if m := makeMetric(*st.Metric, nil); m != nil {
						c.Failf("%s: Register(%q) refused after Stop: %v", at, m.Name, s.Client.Register(m.Obj))
					}
				}
			}
		case "update":
			m := s.All[st.Op.M%len(s.All)]
			if m == nil {
				continue
			}
			if s.Active {
				s.stepActive(m, *st.Op, at)
			} else {
				if err := m.commit(m.update(*st.Op)); err != nil {
					c.Failf("%s, client inactive: %v", at, err)
				}
				if starts > 0 {
					idleUpdates++
				}
			}
		case "read":
			if err := s.checkReported(); err != nil {
				c.Failf("%s: %v", at, err)
			}
		}
		checkKept(at)
		if s.Active {
			if d := s.read(); !bytes.Equal(d, s.Snap) {
				c.Failf("%s: the file of the active client changed", at)
			}
		}
	}
	if err := s.checkReported(); err != nil {
		c.Failf("at the end: %v", err)
	}
	if starts >= 2 || idleUpdates > 0 {
		c.Nontrivial()
	}
	if starts >= 2 {
		c.Label("restarted")
	}
	if idleUpdates > 0 {
		c.Label("updated while stopped")
	}
}
