package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/performancecopilot/speed/v4"
)

// The reference model of registries, metrics and clients.

func spaceUnit(s int) speed.SpaceUnit { return speed.SpaceUnit(1<<28 | uint32(s)<<16) }
func timeUnit(s int) speed.TimeUnit   { return speed.TimeUnit(1<<24 | uint32(s)<<12) }

func (u UnitSpec) base() speed.MetricUnit {
	switch u.baseDim() {
	case 0:
		return spaceUnit(u.Base - 1)
	case 1:
		return timeUnit(u.Base - 8)
	case 2:
		return speed.OneUnit
	}
	return speed.NewMetricUnit()
}

func applyUnitOp(u speed.MetricUnit, o UnitOp) speed.MetricUnit {
	switch o.D {
	case 0:
		return u.Space(spaceUnit(o.S), o.E)
	case 1:
		return u.Time(timeUnit(o.S), o.E)
	}
	return u.Count(speed.OneUnit, o.E)
}

func (u UnitSpec) build() speed.MetricUnit {
	r := u.base()
	for _, o := range u.Ops {
		r = applyUnitOp(r, o)
	}
	return r
}

// LIndom is a live instance domain and what it should be.
type LIndom struct {
	Obj         *speed.PCPInstanceDomain
	Name        string
	Insts       []string // sorted, distinct
	Short, Long string
}

// LMetric is a live metric and what it should be.
type LMetric struct {
	Spec        MetricSpec
	Obj         speed.PCPMetric
	Name        string
	Type, Sem   int32
	Unit        uint32
	Short, Long string
	Indom       *LIndom // nil for single-valued metrics
	Insts       []string
	Vals        map[string]interface{} // "" for single-valued metrics
	timerTotal  float64
	running     bool
}

func distinct(xs []string) []string {
	m := map[string]bool{}
	r := []string{}
	for _, x := range xs {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return r
}

func sameSet(a, b []string) bool {
	a, b = distinct(a), distinct(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// fits says whether a Go value is acceptable for a metric type, and what it becomes (property C07).
func fits(ty int32, v interface{}) (interface{}, bool) {
	switch x := v.(type) {
	case int:
		switch ty {
		case tInt32:
			return int32(x), x >= math.MinInt32 && x <= math.MaxInt32
		case tUint32:
			return uint32(x), x >= 0 && int64(x) <= math.MaxUint32
		case tInt64:
			return int64(x), true
		case tUint64:
			return uint64(x), x >= 0
		}
	case uint:
		switch ty {
		case tUint32:
			return uint32(x), x <= math.MaxUint32
		case tUint64:
			return uint64(x), true
		}
	case int32:
		return x, ty == tInt32
	case uint32:
		return x, ty == tUint32
	case int64:
		return x, ty == tInt64
	case uint64:
		return x, ty == tUint64
	case float32:
		return x, ty == tFloat
	case float64:
		switch ty {
		case tFloat:
			return float32(x), x >= -math.MaxFloat32 && x <= math.MaxFloat32
		case tDouble:
			return x, true
		}
	case string:
		return x, ty == tString && len(x) <= 255
	}
	return nil, false
}

func zeroVal(ty int32) interface{} {
	switch ty {
	case tInt32:
		return int32(0)
	case tUint32:
		return uint32(0)
	case tInt64:
		return int64(0)
	case tUint64:
		return uint64(0)
	case tFloat:
		return float32(0)
	case tDouble:
		return float64(0)
	}
	return ""
}

// Session is one client with the model of its registry.
type Session struct {
	c       *Ctx
	Name    string
	Client  *speed.PCPClient
	Path    string
	Flag    int32
	Indoms  []*LIndom  // registered
	Objs    []*LIndom  // by position in the specification; nil if not constructible
	Metrics []*LMetric // registered
	All     []*LMetric // by position in the specification; nil if not constructible
	Active  bool
	Img     *Image
	Snap    []byte
	Slots   map[*LMetric]map[string]*IValue
}

func newSession(c *Ctx, name string) *Session {
	cl, err := speed.NewPCPClient(name)
	if err != nil {
		c.Failf("NewPCPClient(%q): %v", name, err)
	}
	if r := cl.Registry(); r == nil || r.MetricCount()+r.ValuesCount()+r.InstanceDomainCount()+r.InstanceCount()+r.StringCount() != 0 {
		c.Failf("the registry of a new client is %v", r)
	}
	return wrapSession(c, name, cl)
}

func wrapSession(c *Ctx, name string, cl *speed.PCPClient) *Session {
	s := &Session{c: c, Name: name, Client: cl, Path: filepath.Join(c.MMVDir(), name), Flag: int32(speed.ProcessFlag)}
	c.Defer(func() {
		if s.Active {
			_ = s.Client.Stop()
		}
		_ = os.Remove(s.Path)
	})
	return s
}

// handOver makes a new client for the registry of the present (inactive) one.
func (s *Session) handOver(how int) {
	if how == 0 {
		return
	}
	reg, ok := s.Client.Registry().(*speed.PCPRegistry)
	if !ok {
		s.c.Label("registry of another type")
		return
	}
	if how > 1 {
		old := s.Path
		s.c.Defer(func() { _ = os.Remove(old) })
		if s.Name = "taker"; filepath.Base(old) == s.Name {
			s.Name = "taker2"
		}
		s.Path = filepath.Join(filepath.Dir(old), s.Name)
	}
	cl, err := speed.NewPCPClientWithRegistry(s.Name, reg)
	if err != nil {
		s.c.Failf("NewPCPClientWithRegistry(%q): %v", s.Name, err)
	}
	if cl.Registry() != speed.Registry(reg) {
		s.c.Failf("a client made for one registry has another")
	}
	s.Client, s.Flag = cl, int32(speed.ProcessFlag)
	s.c.Label("handed over")
}

func (s *Session) indomNamed(name string) *LIndom {
	for _, i := range s.Indoms {
		if i.Name == name {
			return i
		}
	}
	return nil
}

func (s *Session) metricNamed(name string) *LMetric {
	for _, m := range s.Metrics {
		if m.Name == name {
			return m
		}
	}
	return nil
}

// via calls the plain form of a function that may fail, or the form that panics instead.
func via(must bool, plain func() error, m func()) (err error) {
	if !must {
		return plain()
	}
	defer func() {
		if p := recover(); p != nil {
			if _, rt := p.(interface{ RuntimeError() }); rt {
				panic(p)
			}
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	m()
	return nil
}

// both insists that a constructor returns either an object or an error.
func both(o interface{}, err error) {
	if v := reflect.ValueOf(o); (err == nil) == (!v.IsValid() || v.IsNil()) {
		panic(fmt.Sprintf("a constructor returned object %v and error %v", o, err))
	}
}

// makeIndom constructs a domain; nil if the library refuses.
func makeIndom(sp IndomSpec) *LIndom {
	ins, ds := strs(sp.Insts), descs(sp.NDesc, sp.Short, sp.Long)
	o, err := speed.NewPCPInstanceDomain(string(sp.Name), ins, ds...)
	spoil(ins)
	spoil(ds)
	both(o, err)
	if err != nil {
		return nil
	}
	return &LIndom{Obj: o, Name: string(sp.Name), Insts: distinct(strs(sp.Insts)), Short: dshort(sp.NDesc, sp.Short), Long: dlong(sp.NDesc, sp.Long)}
}

// spoil changes a slice that was passed to or returned by the library: objects keep nothing the caller can still change.
func spoil(l []string) {
	for i := range l {
		l[i] = "spoiled"
	}
}

func dshort(n int, s QStr) string {
	if n > 0 {
		return string(s)
	}
	return ""
}

func dlong(n int, s QStr) string {
	if n > 1 {
		return string(s)
	}
	return ""
}

// makeMetric constructs a metric object (not the string kinds); nil if the library refuses.
func makeMetric(sp MetricSpec, indoms []*LIndom) *LMetric {
	m := &LMetric{Spec: sp, Name: string(sp.Name), Type: int32(sp.Type), Sem: int32(sp.Sem), Vals: map[string]interface{}{}}
	m.Short, m.Long = dshort(sp.NDesc, sp.Short), dlong(sp.NDesc, sp.Long)
	ds := descs(sp.NDesc, sp.Short, sp.Long)
	val := func(i int) interface{} {
		if len(sp.Vals) == 0 {
			return zeroVal(int32(sp.Type))
		}
		return sp.Vals[i%len(sp.Vals)].Go()
	}
	var err error
	after := func() {}
	var unit speed.MetricUnit
	if !sp.NoUnit {
		unit = sp.Unit.build()
		m.Unit = unit.PMAPI()
	}
	one := uint32(speed.OneUnit)
	put := func(inst string, v interface{}) bool {
		r, ok := fits(m.Type, v)
		m.Vals[inst] = r
		return ok
	}
	switch sp.Kind {
	case "singleton":
		var o *speed.PCPSingletonMetric
		o, err = speed.NewPCPSingletonMetric(val(0), m.Name, speed.MetricType(sp.Type), speed.MetricSemantics(sp.Sem), unit, ds...)
		m.Obj = o
		put("", val(0))
	case "counter":
		var o *speed.PCPCounter
		v := val(0)
		m.Type, m.Sem, m.Unit = tInt64, 1, one
		put("", v)
		m.Vals[""] = toI64(m.Vals[""])
		o, err = speed.NewPCPCounter(m.Vals[""].(int64), m.Name, ds...)
		m.Obj = o
	case "gauge":
		var o *speed.PCPGauge
		m.Type, m.Sem, m.Unit = tDouble, 3, one
		put("", val(0))
		m.Vals[""] = toF64(m.Vals[""])
		o, err = speed.NewPCPGauge(m.Vals[""].(float64), m.Name, ds...)
		m.Obj = o
	case "timer":
		var o *speed.PCPTimer
		u := timeUnit(sp.TU)
		m.Type, m.Sem, m.Unit = tDouble, 4, uint32(u)
		m.Vals[""] = float64(0)
		o, err = speed.NewPCPTimer(m.Name, u, ds...)
		m.Obj = o
	case "inst":
		if len(indoms) == 0 {
			return nil
		}
		in := indoms[sp.Indom%len(indoms)]
		if in == nil {
			return nil
		}
		m.Indom, m.Insts = in, in.Insts
		vs := speed.Instances{}
		for i, n := range m.Insts {
			vs[n] = val(i)
			put(n, val(i))
		}
		var o *speed.PCPInstanceMetric
		after = func() {
			for k := range vs {
				vs[k] = nil
			}
		}
		o, err = speed.NewPCPInstanceMetric(vs, m.Name, in.Obj, speed.MetricType(sp.Type), speed.MetricSemantics(sp.Sem), unit, ds...)
		m.Obj = o
	case "cvec":
		m.Type, m.Sem, m.Unit = tInt64, 1, one
		m.Insts = distinct(strs(sp.Insts))
		vs := map[string]int64{}
		for i, n := range m.Insts {
			put(n, val(i))
			m.Vals[n] = toI64(m.Vals[n])
			vs[n] = m.Vals[n].(int64)
		}
		var o *speed.PCPCounterVector
		after = func() {
			for k := range vs {
				vs[k] = 77
			}
			vs["spoiled"] = 77
		}
		o, err = speed.NewPCPCounterVector(vs, m.Name, ds...)
		m.Obj = o
	case "gvec":
		m.Type, m.Sem, m.Unit = tDouble, 3, one
		m.Insts = distinct(strs(sp.Insts))
		vs := map[string]float64{}
		for i, n := range m.Insts {
			put(n, val(i))
			m.Vals[n] = toF64(m.Vals[n])
			vs[n] = m.Vals[n].(float64)
		}
		var o *speed.PCPGaugeVector
		after = func() {
			for k := range vs {
				vs[k] = 77
			}
			vs["spoiled"] = 77
		}
		o, err = speed.NewPCPGaugeVector(vs, m.Name, ds...)
		m.Obj = o
	case "hist":
		m.Type, m.Sem = tDouble, 3
		m.Insts = []string{"max", "mean", "min", "standard_deviation", "variance"}
		for _, n := range m.Insts {
			m.Vals[n] = float64(0)
		}
		var o *speed.PCPHistogram
		o, err = speed.NewPCPHistogram(m.Name, sp.Lo, sp.Hi, sp.Sig, unit, ds...)
		m.Obj = o
	default:
		panic("harness: kind " + sp.Kind)
	}
	spoil(ds)
	after()
	both(m.Obj, err)
	if err != nil {
		return nil
	}
	if m.Insts != nil && m.Indom == nil {
		o := m.Obj.Indom()
		m.Indom = &LIndom{Obj: o, Name: o.Name(), Insts: distinct(m.Insts)}
	}
	makeOthers(m.Obj.Unit(), sp.Onto)
	return m
}

// makeOthers uses the unit of a metric to make other units, the metric keeps its own.
func makeOthers(u speed.MetricUnit, ops []UnitOp) {
	for _, o := range ops {
		// a unit with a fixed dimension panics when it is given that again
		_ = panics(func() { applyUnitOp(u, o) })
	}
}

func toI64(v interface{}) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case int32:
		return int64(x)
	case uint32:
		return int64(x)
	case uint64:
		return int64(x)
	}
	return 0
}

func toF64(v interface{}) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case float32:
		return float64(x)
	}
	return 0
}

// noteRegistered adds an accepted metric to the model, and its domain if new.
func (s *Session) noteRegistered(m *LMetric) {
	if m.Indom != nil {
		if r := s.indomNamed(m.Indom.Name); r == nil {
			s.Indoms = append(s.Indoms, m.Indom)
		}
	}
	s.Metrics = append(s.Metrics, m)
}

// registerString registers a "str"/"strinst" specification.
func (s *Session) registerString(sp MetricSpec) (*LMetric, error) {
	m := &LMetric{Spec: sp, Type: int32(sp.Type), Sem: int32(sp.Sem), Vals: map[string]interface{}{}}
	unit := sp.Unit.build()
	m.Unit = unit.PMAPI()
	val := func(i int) interface{} {
		if len(sp.Vals) == 0 {
			return zeroVal(m.Type)
		}
		return sp.Vals[i%len(sp.Vals)].Go()
	}
	var v interface{}
	if sp.Kind == "strinst" {
		name, dom, insts, ok := parseMetricString(string(sp.Name))
		if !ok {
			panic("harness: bad strinst " + string(sp.Name))
		}
		m.Name, m.Insts = name, distinct(insts)
		m.Indom = &LIndom{Name: dom, Insts: m.Insts}
		vs := speed.Instances{}
		for i, n := range m.Insts {
			vs[n] = val(i)
			m.Vals[n], _ = fits(m.Type, val(i))
		}
		v = vs
	} else {
		m.Name = string(sp.Name)
		v = val(0)
		m.Vals[""], _ = fits(m.Type, v)
	}
	o, err := s.Client.RegisterString(string(sp.Name), v, speed.MetricType(sp.Type), speed.MetricSemantics(sp.Sem), unit)
	if err != nil {
		return nil, err
	}
	pm, ok := o.(speed.PCPMetric)
	if !ok {
		s.c.Failf("RegisterString(%q) returned a %T", sp.Name, o)
	}
	m.Obj = pm
	if m.Indom != nil {
		if pm.Indom() == nil {
			s.c.Failf("RegisterString(%q) returned a metric without instance domain", sp.Name)
		}
		m.Indom.Obj = pm.Indom()
	}
	makeOthers(pm.Unit(), sp.Onto)
	return m, nil
}

// build constructs and registers everything the specification lists, following
// the library's own acceptance.
func (s *Session) build(r RegSpec) {
	r = r.expand()
	if r.Flag != nil {
		if err := s.Client.SetFlag(speed.MMVFlag(*r.Flag)); err != nil {
			s.c.Failf("SetFlag on an inactive client: %v", err)
		}
		s.Flag = int32(*r.Flag)
	}
	for _, sp := range r.Indoms {
		in := makeIndom(sp)
		s.Objs = append(s.Objs, in)
		if in != nil && sp.Reg {
			if err := s.Client.RegisterIndom(in.Obj); err == nil {
				s.Indoms = append(s.Indoms, in)
			}
		}
	}
	for _, sp := range r.Metrics {
		s.addMetric(sp)
	}
}

// addMetric constructs and registers one metric; nil if refused.
func (s *Session) addMetric(sp MetricSpec) *LMetric {
	var m *LMetric
	if sp.Kind == "str" || sp.Kind == "strinst" {
		m, _ = s.registerString(sp)
	} else {
		m = makeMetric(sp, s.Objs)
		if m != nil {
			if err := s.Client.Register(m.Obj); err != nil {
				m = nil
			}
		}
	}
	s.All = append(s.All, m)
	if m != nil {
		s.noteRegistered(m)
	}
	return m
}

// serialClash reports two registered domains with the same 22-bit identifier.
func (s *Session) serialClash() bool {
	m := map[uint32]bool{}
	for _, i := range s.Indoms {
		h := fnvBits(i.Name, 22)
		if m[h] {
			return true
		}
		m[h] = true
	}
	return false
}

// names longer than 63 bytes need version 2
func (s *Session) version() int32 {
	for _, m := range s.Metrics {
		if len(m.Name) > 63 {
			return 2
		}
	}
	for _, i := range s.Indoms {
		for _, n := range i.Insts {
			if len(n) > 63 {
				return 2
			}
		}
	}
	return 1
}

func (s *Session) start() {
	if err := s.Client.Start(); err != nil {
		s.c.Failf("Start: %v", err)
	}
	s.Active = true
	s.load()
}

// load reads and decodes the file of a just started client.
func (s *Session) load() {
	s.Snap = s.read()
	img, err := parseImage(s.Snap)
	if err != nil {
		s.c.Failf("the file of the started client is not a valid image: %v", err)
	}
	s.Img = img
	s.Slots = nil
}

func (s *Session) read() []byte {
	b, err := os.ReadFile(s.Path)
	if err != nil {
		s.c.Failf("cannot read the client's file: %v", err)
	}
	return b
}

// decode matches the image against the model; it returns a description of the first difference.
func (s *Session) decode(im *Image) (map[*LMetric]map[string]*IValue, error) {
	if len(im.Metrics) != len(s.Metrics) {
		return nil, fmt.Errorf("%d metric records for %d registered metrics", len(im.Metrics), len(s.Metrics))
	}
	if len(im.Indoms) != len(s.Indoms) {
		return nil, fmt.Errorf("%d domain records for %d registered domains", len(im.Indoms), len(s.Indoms))
	}
	byName := map[string]*LMetric{}
	for _, m := range s.Metrics {
		byName[m.Name] = m
	}
	bySerial := map[uint32]*LIndom{}
	for _, i := range s.Indoms {
		bySerial[i.Obj.ID()] = i
	}
	seenI := map[uint64]bool{}
	for _, r := range im.Indoms {
		in := bySerial[uint32(r.Serial)]
		if in == nil {
			return nil, fmt.Errorf("domain record with serial %d that no registered domain has", r.Serial)
		}
		if seenI[r.Serial] {
			return nil, fmt.Errorf("domain %q appears twice", in.Name)
		}
		seenI[r.Serial] = true
		if e := sameText(im, "short text of domain "+in.Name, r.Short, in.Short); e != nil {
			return nil, e
		}
		if e := sameText(im, "long text of domain "+in.Name, r.Long, in.Long); e != nil {
			return nil, e
		}
		var got []string
		for _, x := range im.Insts {
			if x.Indom == r.Off {
				got = append(got, x.Name)
				if x.Internal != fnvBits(x.Name, 32) {
					return nil, fmt.Errorf("instance %q of domain %q has id %d", x.Name, in.Name, x.Internal)
				}
			}
		}
		sort.Strings(got)
		if strings.Join(got, "\x00") != strings.Join(in.Insts, "\x00") || len(got) != len(in.Insts) {
			return nil, fmt.Errorf("domain %q has instances %q in the file, %q registered", in.Name, got, in.Insts)
		}
	}
	slots := map[*LMetric]map[string]*IValue{}
	recs := map[uint64]*LMetric{}
	for _, r := range im.Metrics {
		m := byName[r.Name]
		if m == nil {
			return nil, fmt.Errorf("metric record %q that was not registered", r.Name)
		}
		if slots[m] != nil {
			return nil, fmt.Errorf("metric %q appears twice", r.Name)
		}
		slots[m] = map[string]*IValue{}
		recs[r.Off] = m
		if r.Type != m.Type || r.Sem != m.Sem || r.Unit != m.Unit {
			return nil, fmt.Errorf("metric %q has type %d, semantics %d, unit %#x in the file; registered %d, %d, %#x", m.Name, r.Type, r.Sem, r.Unit, m.Type, m.Sem, m.Unit)
		}
		if r.Item != m.Obj.ID() {
			return nil, fmt.Errorf("metric %q has id %d in the file, %d as object", m.Name, r.Item, m.Obj.ID())
		}
		if e := sameText(im, "short text of metric "+m.Name, r.Short, m.Short); e != nil {
			return nil, e
		}
		if e := sameText(im, "long text of metric "+m.Name, r.Long, m.Long); e != nil {
			return nil, e
		}
		switch {
		case m.Indom == nil && r.Indom != -1:
			return nil, fmt.Errorf("single-valued metric %q has domain %d in the file", m.Name, r.Indom)
		case m.Indom != nil && uint32(r.Indom) != m.Indom.Obj.ID():
			return nil, fmt.Errorf("metric %q has domain %d in the file, %d registered", m.Name, r.Indom, m.Indom.Obj.ID())
		}
	}
	for _, v := range im.Values {
		m := recs[v.Metric]
		inst := ""
		if m.Indom != nil {
			inst = im.instAt[v.Inst].Name
		}
		if slots[m][inst] != nil {
			return nil, fmt.Errorf("metric %q instance %q has two value records", m.Name, inst)
		}
		slots[m][inst] = v
	}
	for _, m := range s.Metrics {
		if len(slots[m]) != len(m.Vals) {
			return nil, fmt.Errorf("metric %q has %d value records for %d values", m.Name, len(slots[m]), len(m.Vals))
		}
		for inst := range m.Vals {
			if slots[m][inst] == nil {
				return nil, fmt.Errorf("metric %q has no value record for instance %q", m.Name, inst)
			}
		}
	}
	return slots, nil
}

func sameText(im *Image, what string, off uint64, want string) error {
	got := ""
	if off != 0 {
		got = im.Strings[off]
		if want == "" {
			return fmt.Errorf("%s is %q in the file, none registered", what, got)
		}
	}
	if got != want {
		return fmt.Errorf("%s is %s in the file, %s registered", what, show(got), show(want))
	}
	return nil
}

// checkValues compares every value in the image with the model.
func (s *Session) checkValues(im *Image, slots map[*LMetric]map[string]*IValue) error {
	for _, m := range s.Metrics {
		for inst, want := range m.Vals {
			got := im.goVal(m.Type, slots[m][inst])
			if !sameVal(got, want) {
				return fmt.Errorf("metric %q instance %q is %s in the file, %s expected", m.Name, inst, show(got), show(want))
			}
		}
	}
	return nil
}

// syncSlots locates every value of the model in the current image.
func (s *Session) syncSlots() {
	slots, err := s.decode(s.Img)
	if err != nil {
		s.c.Failf("the published image differs from the registered metrics: %v", err)
	}
	s.Slots = slots
}

// fileVal reads one value straight from a copy of the file.
func (s *Session) fileVal(d []byte, m *LMetric, inst string) (interface{}, error) {
	v := s.Slots[m][inst]
	if m.Type == tString {
		b := d[v.Extra : v.Extra+mmvString]
		str, ok := cstr(b)
		if !ok {
			return nil, fmt.Errorf("string slot at %d is not terminated", v.Extra)
		}
		if !zeroTail(b) {
			return nil, fmt.Errorf("string slot at %d holds residue after the terminator: %q", v.Extra, bytes.TrimRight(b, "\x00"))
		}
		return str, nil
	}
	w := *v
	w.Val = u64(d[v.Off:])
	return s.Img.goVal(m.Type, &w), nil
}

// allFileVals compares every value in d with the model.
func (s *Session) allFileVals(d []byte) error {
	if len(d) != len(s.Img.Data) {
		return fmt.Errorf("the file is %d bytes long now, was %d", len(d), len(s.Img.Data))
	}
	for _, m := range s.Metrics {
		for inst, want := range m.Vals {
			got, err := s.fileVal(d, m, inst)
			if err != nil {
				return fmt.Errorf("metric %q instance %q: %v", m.Name, inst, err)
			}
			if !sameVal(got, want) {
				return fmt.Errorf("metric %q instance %q is %s in the file, %s expected", m.Name, inst, show(got), show(want))
			}
		}
	}
	return nil
}

// reported is the value the metric object itself reports; ok=false when it has no accessor.
func (m *LMetric) reported(inst string) (interface{}, error, bool) {
	switch o := m.Obj.(type) {
	case *speed.PCPSingletonMetric:
		return o.Val(), nil, true
	case *speed.PCPCounter:
		return o.Val(), nil, true
	case *speed.PCPGauge:
		return o.Val(), nil, true
	case *speed.PCPInstanceMetric:
		v, err := o.ValInstance(inst)
		return v, err, true
	case *speed.PCPCounterVector:
		v, err := o.Val(inst)
		return v, err, true
	case *speed.PCPGaugeVector:
		v, err := o.Val(inst)
		return v, err, true
	case *speed.PCPHistogram:
		switch inst {
		case "min":
			return float64(o.Min()), nil, true
		case "max":
			return float64(o.Max()), nil, true
		case "mean":
			return o.Mean(), nil, true
		case "variance":
			return o.Variance(), nil, true
		case "standard_deviation":
			return o.StandardDeviation(), nil, true
		}
	}
	return nil, nil, false
}

// checkReported compares what the metric objects report with the model.
func (s *Session) checkReported() error {
	for _, m := range s.Metrics {
		if err := m.checkReported(); err != nil {
			return err
		}
	}
	return nil
}

func (m *LMetric) checkReported() error {
	for inst, want := range m.Vals {
		got, err, ok := m.reported(inst)
		if !ok {
			continue
		}
		if err != nil {
			return fmt.Errorf("reading metric %q instance %q: %v", m.Name, inst, err)
		}
		if !sameVal(got, want) {
			return fmt.Errorf("metric %q instance %q reports %s, %s expected", m.Name, inst, show(got), show(want))
		}
	}
	return nil
}

// Op is one update of a metric.
type Op struct {
	A    string `json:"a"`
	M    int    `json:"m"`
	I    int    `json:"i,omitempty"` // instance index; -1 names an unknown instance
	V    *Val   `json:"v,omitempty"`
	Must bool   `json:"must,omitempty"`
}

// Upd is what an update did.
type Upd struct {
	Skipped bool
	Err     error                  // error, or panic of a Must form
	Valid   bool                   // must succeed
	Cand    map[string]interface{} // what the named instances should hold if it succeeded
	All     bool                   // an All form: may be applied in part when it panics
}

const noInst = "no-such-instance-\x01"

// update performs op on m and returns the model's view; m.Vals is not changed yet.
func (m *LMetric) update(op Op) (u Upd) {
	u.Cand = map[string]interface{}{}
	inst := ""
	if m.Insts != nil {
		switch {
		case op.I < 0 || len(m.Insts) == 0:
			inst = noInst
		default:
			inst = m.Insts[op.I%len(m.Insts)]
		}
	}
	call := func(f func() error) {
		defer func() {
			if p := recover(); p != nil {
				if !op.Must && !u.All {
					panic(p)
				}
				if _, rt := p.(interface{ RuntimeError() }); rt {
					panic(p)
				}
				u.Err = fmt.Errorf("panic: %v", p)
			}
		}()
		u.Err = f()
	}
	var v interface{}
	if op.V != nil {
		v = op.V.Go()
	}
	i64 := func() int64 { x, _ := v.(int64); return x }
	f64 := func() float64 { x, _ := v.(float64); return x }
	old := m.Vals[inst]
	defer func() { u.Valid = u.Valid && !u.Skipped }()
	known := inst != noInst
	inc := func(from, n int64) bool { return n >= 0 && from <= math.MaxInt64-n }
	switch o := m.Obj.(type) {
	case *speed.PCPSingletonMetric:
		if op.V == nil {
			u.Skipped = true
			return
		}
		if c, ok := fits(m.Type, v); ok {
			u.Cand[""] = c
			u.Valid = true
		}
		if op.Must {
			call(func() error { o.MustSet(v); return nil })
		} else {
			call(func() error { return o.Set(v) })
		}
	case *speed.PCPInstanceMetric:
		if op.V == nil {
			u.Skipped = true
			return
		}
		if c, ok := fits(m.Type, v); ok && inst != noInst {
			u.Cand[inst] = c
			u.Valid = true
		}
		if op.Must {
			call(func() error { o.MustSetInstance(v, inst); return nil })
		} else {
			call(func() error { return o.SetInstance(v, inst) })
		}
	case *speed.PCPCounter:
		switch op.A {
		case "set":
			u.Cand[""] = i64()
			u.Valid = i64() >= old.(int64)
			call(func() error { return o.Set(i64()) })
		case "inc", "dec":
			u.Cand[""] = old.(int64) + i64()
			u.Valid = inc(old.(int64), i64())
			if op.Must {
				call(func() error { o.MustInc(i64()); return nil })
			} else {
				call(func() error { return o.Inc(i64()) })
			}
		default:
			u.Cand[""] = old.(int64) + 1
			u.Valid = inc(old.(int64), 1)
			u.All = true
			call(func() error { o.Up(); return nil })
			u.All = false
		}
	case *speed.PCPGauge:
		u.Valid = true
		switch op.A {
		case "inc":
			u.Cand[""] = old.(float64) + f64()
			if op.Must {
				call(func() error { o.MustInc(f64()); return nil })
			} else {
				call(func() error { return o.Inc(f64()) })
			}
		case "dec":
			u.Cand[""] = old.(float64) - f64()
			if op.Must {
				call(func() error { o.MustDec(f64()); return nil })
			} else {
				call(func() error { return o.Dec(f64()) })
			}
		default:
			u.Cand[""] = f64()
			if op.Must {
				call(func() error { o.MustSet(f64()); return nil })
			} else {
				call(func() error { return o.Set(f64()) })
			}
		}
	case *speed.PCPCounterVector:
		one := func(n int64, abs bool) {
			if inst != noInst {
				if abs {
					u.Cand[inst] = n
					u.Valid = n >= old.(int64)
				} else {
					u.Cand[inst] = old.(int64) + n
					u.Valid = inc(old.(int64), n)
				}
			}
		}
		all := func(n int64, abs bool) {
			u.All, u.Valid = true, true
			for _, x := range m.Insts {
				if v := m.Vals[x].(int64); abs && n < v || !abs && !inc(v, n) {
					u.Valid = false
				}
				if abs {
					u.Cand[x] = n
				} else {
					u.Cand[x] = m.Vals[x].(int64) + n
				}
			}
		}
		switch op.A {
		case "set":
			one(i64(), true)
			if op.Must {
				call(func() error { o.MustSet(i64(), inst); return nil })
			} else {
				call(func() error { return o.Set(i64(), inst) })
			}
		case "inc", "dec":
			one(i64(), false)
			if op.Must {
				call(func() error { o.MustInc(i64(), inst); return nil })
			} else {
				call(func() error { return o.Inc(i64(), inst) })
			}
		case "up":
			one(1, false)
			u.All = true
			call(func() error { o.Up(inst); return nil })
			u.All = false
		case "setall":
			all(i64(), true)
			call(func() error { o.SetAll(i64()); return nil })
		case "incall":
			all(i64(), false)
			call(func() error { o.IncAll(i64()); return nil })
		default:
			all(1, false)
			call(func() error { o.UpAll(); return nil })
		}
	case *speed.PCPGaugeVector:
		u.Valid = known
		one := func(f float64) {
			if inst != noInst {
				u.Cand[inst] = f
			}
		}
		of := func() float64 {
			if old == nil {
				return 0
			}
			return old.(float64)
		}
		all := func(g func(float64) float64) {
			u.All, u.Valid = true, true
			for _, x := range m.Insts {
				u.Cand[x] = g(m.Vals[x].(float64))
			}
		}
		switch op.A {
		case "inc":
			one(of() + f64())
			if op.Must {
				call(func() error { o.MustInc(f64(), inst); return nil })
			} else {
				call(func() error { return o.Inc(f64(), inst) })
			}
		case "dec":
			one(of() - f64())
			if op.Must {
				call(func() error { o.MustDec(f64(), inst); return nil })
			} else {
				call(func() error { return o.Dec(f64(), inst) })
			}
		case "setall":
			all(func(float64) float64 { return f64() })
			call(func() error { o.SetAll(f64()); return nil })
		case "incall", "up", "upall":
			all(func(x float64) float64 { return x + f64() })
			call(func() error { o.IncAll(f64()); return nil })
		case "decall":
			all(func(x float64) float64 { return x - f64() })
			call(func() error { o.DecAll(f64()); return nil })
		default:
			one(f64())
			if op.Must {
				call(func() error { o.MustSet(f64(), inst); return nil })
			} else {
				call(func() error { return o.Set(f64(), inst) })
			}
		}
	case *speed.PCPHistogram:
		n := i64()
		if n < 0 {
			n = -(n + 1)
		}
		switch op.A {
		case "inc", "incall":
			k := n % 5
			val := n / 5
			u.Valid = val >= o.Low() && val <= o.High()
			if op.Must {
				call(func() error { o.MustRecordN(val, k); return nil })
			} else {
				call(func() error { return o.RecordN(val, k) })
			}
		default:
			u.Valid = n >= o.Low() && n <= o.High()
			if op.Must {
				call(func() error { o.MustRecord(n); return nil })
			} else {
				call(func() error { return o.Record(n) })
			}
		}
		for _, x := range m.Insts {
			if u.Err == nil {
				u.Cand[x], _, _ = m.reported(x)
			}
		}
	case *speed.PCPTimer:
		u.Valid = true
		switch op.A {
		case "set", "setall":
			u.Skipped = true
			if m.running {
				return
			}
			u.Skipped = false
			u.Cand[""] = float64(0)
			u.Err = o.Reset()
		default:
			if m.running {
				var tot float64
				tot, u.Err = o.Stop()
				if u.Err == nil {
					m.running = false
					u.Cand[""] = tot
				}
			} else {
				u.Err = o.Start()
				if u.Err == nil {
					m.running = true
				}
				u.Cand[""] = m.Vals[""]
			}
		}
	default:
		panic(fmt.Sprintf("harness: %T", m.Obj))
	}
	return
}

// commit folds the outcome of an update into the model, following the library's own
// acceptance. It returns an error when the reported values are not those either.
func (m *LMetric) commit(u Upd) error {
	if u.Skipped {
		return nil
	}
	if u.Err != nil && u.Valid {
		return fmt.Errorf("%s %q refused a valid update: %v", m.Spec.Kind, m.Name, u.Err)
	}
	switch {
	case u.Err == nil:
		if len(u.Cand) == 0 && m.Spec.Kind != "hist" {
			// accepted although the model cannot say what it should hold: other properties decide that
			for inst := range m.Vals {
				if v, err, ok := m.reported(inst); ok && err == nil {
					m.Vals[inst] = v
				}
			}
		}
		for inst, v := range u.Cand {
			m.Vals[inst] = v
		}
	case u.All:
		for inst, v := range u.Cand {
			got, err, _ := m.reported(inst)
			if err == nil && sameVal(got, v) {
				m.Vals[inst] = v
			}
		}
	}
	return m.checkReported()
}

// genOps draws updates for nm metrics.
func randInst(n int) int { return n }

func fnvBits(s string, b uint) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	if b >= 32 {
		return h
	}
	return h & (1<<b - 1)
}
