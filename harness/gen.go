package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Specifications of registries, as plain data, and their generators.

type UnitOp struct {
	D int  `json:"d"` // 0 space, 1 time, 2 count
	S int  `json:"s"` // scale
	E int8 `json:"e"` // exponent
}

// UnitSpec builds a unit: base 0 is the empty unit, 1..7 space, 8..13 time, 14 count.
type UnitSpec struct {
	Base int      `json:"b"`
	Ops  []UnitOp `json:"o,omitempty"`
}

type IndomSpec struct {
	Name  QStr   `json:"name"`
	Insts []QStr `json:"insts"`
	NDesc int    `json:"nd,omitempty"`
	Short QStr   `json:"short,omitempty"`
	Long  QStr   `json:"long,omitempty"`
	Reg   bool   `json:"reg,omitempty"` // registered explicitly, before the metrics
}

type MetricSpec struct {
	Kind   string   `json:"kind"` // singleton inst counter gauge timer cvec gvec hist str strinst
	Name   QStr     `json:"name"`
	Type   int      `json:"t,omitempty"`
	Sem    int      `json:"sem,omitempty"`
	Unit   UnitSpec `json:"u"`
	NoUnit bool     `json:"nou,omitempty"`  // constructed with a nil unit (C06)
	Onto   []UnitOp `json:"onto,omitempty"` // composed onto the metric's unit afterwards, to make other units
	NDesc  int      `json:"nd,omitempty"`
	Short  QStr     `json:"short,omitempty"`
	Long   QStr     `json:"long,omitempty"`
	Vals   []Val    `json:"v,omitempty"` // initial values, used cyclically over the instances
	Indom  int      `json:"in,omitempty"`
	Insts  []QStr   `json:"insts,omitempty"`
	Lo     int64    `json:"lo,omitempty"`
	Hi     int64    `json:"hi,omitempty"`
	Sig    int      `json:"sig,omitempty"`
	TU     int      `json:"tu,omitempty"`
}

type RegSpec struct {
	Client  QStr         `json:"client"`
	Flag    *int         `json:"flag,omitempty"`
	Indoms  []IndomSpec  `json:"indoms,omitempty"`
	Metrics []MetricSpec `json:"metrics,omitempty"`
	Later   int          `json:"later,omitempty"`   // C01: run once before so many of the metrics are registered, and all domains but the first
	Hand    int          `json:"hand,omitempty"`    // C01, C02: another client takes over the registry, 1 with the same name, 2 with another one
	BulkM   int          `json:"bulkm,omitempty"`   // this many further metrics of rotating kinds
	BulkI   int          `json:"bulki,omitempty"`   // and a domain with this many instances
	BulkLen int          `json:"bulklen,omitempty"` // whose names and texts have so many bytes at least
}

func descs(n int, short, long QStr) []string {
	switch n {
	case 0:
		return nil
	case 1:
		return []string{string(short)}
	case 2:
		return []string{string(short), string(long)}
	default:
		return []string{string(short), string(long), "too many"}
	}
}

func pick[T any](t *rapid.T, label string, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, label) }

// chance is true one time in so many; rapid prefers the ends of wide ranges, so it draws from narrow ones.
func chance(t *rapid.T, label string, oneIn int) bool {
	for ; oneIn > 20; oneIn = (oneIn + 9) / 10 {
		if rapid.IntRange(0, 9).Draw(t, label) != 9 {
			return false
		}
	}
	return rapid.IntRange(0, oneIn-1).Draw(t, label) == oneIn-1
}

// textOf draws a byte string without NUL of n bytes.
func textOf(t *rapid.T, label string, n int) string {
	switch pick(t, label+"cls", 0, 0, 1, 2, 3) {
	case 1: // letters
		b := make([]byte, n)
		off := rapid.IntRange(0, 25).Draw(t, label+"rot")
		for i := range b {
			b[i] = byte('a' + (i+off)%26)
		}
		return string(b)
	case 2: // multi-byte runes, filled up with ASCII
		r := pick(t, label+"rune", "é", "漢", "😀", "\u0301")
		k := n / len(r)
		if k > 40 {
			k = 40
		}
		return strings.Repeat(r, k) + strings.Repeat("z", n-k*len(r))
	case 3: // arbitrary bytes
		k := n
		if k > 24 {
			k = 24
		}
		b := rapid.SliceOfN(rapid.ByteRange(1, 255), k, k).Draw(t, label+"bytes")
		return string(b) + strings.Repeat("~", n-k)
	}
	return strings.Repeat(pick(t, label+"ch", "a", "b", "x", "_"), n)
}

var nameLens = []int{1, 2, 3, 5, 8, 20, 40, 62, 63, 64, 65, 100, 127, 128, 200, 254, 255}
var textLens = []int{0, 1, 2, 10, 60, 63, 64, 100, 200, 253, 254, 255}

// genLen draws a length up to 255, from the given ones or any.
func genLen(t *rapid.T, label string, ls []int, min int) int {
	if chance(t, label+"anylen", 3) {
		return rapid.IntRange(min, 255).Draw(t, label+"len")
	}
	return rapid.SampledFrom(ls).Draw(t, label+"len")
}

// genName draws a metric, instance or domain name the library must be able to hold.
// long says how often (one in) a name is drawn from the boundary lengths.
func genName(t *rapid.T, label string, oneIn int) QStr {
	if chance(t, label+"long", oneIn) {
		return QStr(textOf(t, label, genLen(t, label, nameLens, 1)))
	}
	return QStr(pick(t, label+"pool", "a", "b", "c", "d", "m.x", "m.y", "req.count", "q_1", "cpu0", "cpu1", "zz9", "Ω", "with space", "x]", "host[1]", "%s", "\t", "A.B.C.D"))
}

func genText(t *rapid.T, label string) QStr {
	if chance(t, label+"none", 3) {
		return ""
	}
	if chance(t, label+"long", 3) {
		return QStr(textOf(t, label, genLen(t, label, textLens, 0)))
	}
	return QStr(pick(t, label+"pool", "short", "a longer text", "line\nbreak", "%d %v", "数"))
}

func genUnit(t *rapid.T, label string) UnitSpec {
	u := UnitSpec{Base: rapid.IntRange(0, 14).Draw(t, label+"base")}
	if chance(t, label+"comp", 3) {
		n := rapid.IntRange(1, 2).Draw(t, label+"nops")
		for i := 0; i < n; i++ {
			o := UnitOp{D: rapid.IntRange(0, 2).Draw(t, label+"d")}
			if u.baseDim() == o.D {
				continue
			}
			o.S = rapid.IntRange(0, maxScale(o.D)).Draw(t, label+"s")
			o.E = int8(rapid.IntRange(-8, 7).Draw(t, label+"e"))
			u.Ops = append(u.Ops, o)
		}
	}
	return u
}

// genOnto is one or two compositions onto the unit of a metric.
func genOnto(t *rapid.T) (ops []UnitOp) {
	for i := rapid.IntRange(1, 2).Draw(t, "nonto"); i > 0; i-- {
		d := rapid.IntRange(0, 2).Draw(t, "ontod")
		ops = append(ops, UnitOp{D: d, S: rapid.IntRange(0, maxScale(d)).Draw(t, "ontos"), E: int8(rapid.IntRange(-8, 7).Draw(t, "ontoe"))})
	}
	return ops
}

func maxScale(d int) int { return [...]int{6, 5, 0}[d] }

func (u UnitSpec) baseDim() int {
	switch {
	case u.Base == 0:
		return -1
	case u.Base <= 7:
		return 0
	case u.Base <= 13:
		return 1
	}
	return 2
}

var intBounds = []int64{0, 1, -1, 2, 7, 100, 255, 256, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1 << 53, 1<<53 + 1, -(1 << 53) - 1}

func genInt(t *rapid.T, label string, lo, hi int64) int64 {
	if chance(t, label+"b", 2) {
		v := rapid.SampledFrom(intBounds).Draw(t, label+"bound")
		if v >= lo && v <= hi {
			return v
		}
		return pick(t, label+"edge", lo, hi)
	}
	return rapid.Int64Range(lo, hi).Draw(t, label)
}

var floatBounds = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, 1e-3, math.Pi, 1 << 53, 1<<53 + 2, 1e16, 1e300, -1e300, math.MaxFloat32, -math.MaxFloat32, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN()}

func genFloat(t *rapid.T, label string) float64 {
	if chance(t, label+"b", 2) {
		return rapid.SampledFrom(floatBounds).Draw(t, label+"bound")
	}
	if chance(t, label+"i", 2) {
		return float64(rapid.IntRange(-1000, 1000).Draw(t, label+"int"))
	}
	return rapid.Float64().Draw(t, label)
}

// isInt: an int can be n (it has 32 bits on some platforms).
func isInt(n int64) bool { return int64(int(n)) == n }

// genVal draws a value a metric of type ty can hold.
func genVal(t *rapid.T, label string, ty int) Val {
	i := func(n int64) QStr { return QStr(strconv.FormatInt(n, 10)) }
	u := func(n uint64) QStr { return QStr(strconv.FormatUint(n, 10)) }
	alt := chance(t, label+"alt", 3)
	switch ty {
	case tInt32:
		n := genInt(t, label, math.MinInt32, math.MaxInt32)
		if alt && isInt(n) {
			return Val{"int", i(n)}
		}
		return Val{"int32", i(n)}
	case tUint32:
		n := genInt(t, label, 0, math.MaxUint32)
		if alt && isInt(n) {
			return Val{pick(t, label+"k", "int", "uint"), i(n)}
		}
		return Val{"uint32", i(n)}
	case tInt64:
		n := genInt(t, label, math.MinInt64, math.MaxInt64)
		if alt && isInt(n) {
			return Val{"int", i(n)}
		}
		return Val{"int64", i(n)}
	case tUint64:
		if alt {
			n := genInt(t, label, 0, math.MaxInt)
			return Val{pick(t, label+"k", "int", "uint"), i(n)}
		}
		n := rapid.Uint64().Draw(t, label)
		if chance(t, label+"max", 4) {
			n = math.MaxUint64
		}
		return Val{"uint64", u(n)}
	case tFloat:
		f := genFloat(t, label)
		if alt {
			if !(f >= -math.MaxFloat32 && f <= math.MaxFloat32) {
				f = 1.5
			}
			return Val{"float64", fmtF(f)}
		}
		return Val{"float32", fmtF32(float32(f))}
	case tDouble:
		return Val{"float64", fmtF(genFloat(t, label))}
	case tString:
		return Val{"string", genText(t, label)}
	}
	return Val{"nil", ""}
}

var allKinds = []string{"singleton", "singleton", "inst", "inst", "counter", "gauge", "timer", "cvec", "gvec", "hist", "str", "strinst"}

func genInsts(t *rapid.T, label string, max, oneIn int) []QStr {
	n := rapid.IntRange(0, max).Draw(t, label+"n")
	var r []QStr
	if chance(t, label+"many", 40) {
		for i, k := 0, pick(t, label+"nmany", 9, 17, 33, 70); i < k; i++ {
			r = append(r, QStr(fmt.Sprintf("n%d", i)))
		}
	}
	for i := 0; i < n; i++ {
		if chance(t, label+"simple", 2) {
			r = append(r, QStr(fmt.Sprintf("i%d", i)))
		} else {
			r = append(r, genName(t, label, oneIn))
		}
	}
	return r
}

func genIndom(t *rapid.T, i, oneIn int) IndomSpec {
	s := IndomSpec{Name: genName(t, "indom", oneIn), Insts: genInsts(t, "inst", 5, oneIn), Reg: chance(t, "reg", 2)}
	if chance(t, "uniq", 2) {
		s.Name = QStr(fmt.Sprintf("dom%d", i))
	}
	s.NDesc = rapid.IntRange(0, 2).Draw(t, "nd")
	if s.NDesc > 0 {
		s.Short = genText(t, "short")
	}
	if s.NDesc > 1 {
		s.Long = genText(t, "long")
	}
	return s
}

func genMetric(t *rapid.T, i, nind, oneIn int, kinds []string) MetricSpec {
	k := rapid.SampledFrom(kinds).Draw(t, "kind")
	if (k == "inst") && nind == 0 {
		k = "singleton"
	}
	s := MetricSpec{Kind: k, Name: genName(t, "metric", oneIn), Unit: genUnit(t, "unit")}
	if chance(t, "uniq", 3) {
		s.Name = QStr(fmt.Sprintf("metric.%d", i))
	}
	if chance(t, "onto", 4) {
		s.Onto = genOnto(t)
	}
	s.NDesc = rapid.IntRange(0, 2).Draw(t, "nd")
	if s.NDesc > 0 {
		s.Short = genText(t, "short")
	}
	if s.NDesc > 1 {
		s.Long = genText(t, "long")
	}
	s.Type = tInt64
	switch k {
	case "singleton", "inst", "str", "strinst":
		s.Type = pick(t, "type", tInt32, tUint32, tInt64, tUint64, tFloat, tDouble, tString, tString)
		s.Sem = pick(t, "sem", 0, 1, 3, 4)
	case "gauge", "gvec":
		s.Type = tDouble
	}
	nv := 1
	switch k {
	case "inst":
		s.Indom = rapid.IntRange(0, nind-1).Draw(t, "indom")
		nv = rapid.IntRange(1, 3).Draw(t, "nv")
	case "cvec", "gvec":
		s.Insts = genInsts(t, "inst", 4, oneIn)
		nv = rapid.IntRange(1, 3).Draw(t, "nv")
	case "strinst":
		n := rapid.IntRange(1, 3).Draw(t, "ni")
		for j := 0; j < n; j++ {
			s.Insts = append(s.Insts, QStr(fmt.Sprintf("s%d", j)))
		}
		s.Name = QStr(fmt.Sprintf("sd%d[%s].k%d", rapid.IntRange(0, 2).Draw(t, "sd"), strings.Join(strs(s.Insts), ","), i))
	case "str":
		s.Name = QStr(fmt.Sprintf("plain.s%d", i))
	case "timer":
		s.TU = rapid.IntRange(0, 5).Draw(t, "tu")
		return s
	case "hist":
		s.Lo = rapid.Int64Range(0, 10).Draw(t, "lo")
		s.Hi = s.Lo + 2 + rapid.Int64Range(0, 100000).Draw(t, "hi")
		s.Sig = rapid.IntRange(1, 3).Draw(t, "sig")
		return s
	}
	for j := 0; j < nv; j++ {
		s.Vals = append(s.Vals, genVal(t, "val", s.Type))
	}
	return s
}

func genClientName(t *rapid.T) QStr {
	if chance(t, "cname", 3) {
		return QStr(pick(t, "client", "a.b", "with space", "ünïcode", "-", "...", "x*", "mmv", "漢字", "UPPER", "a\nb", "\xff\xfe"))
	}
	return QStr(fmt.Sprintf("client%d", rapid.IntRange(0, 4).Draw(t, "client")))
}

// genReg draws a registry. bulk says how often (one in) a large one is drawn.
func genReg(t *rapid.T, kinds []string, bulk int) RegSpec {
	r := RegSpec{Client: genClientName(t)}
	if chance(t, "flag", 3) {
		f := pick(t, "flagv", 0, 1, 2, 3, 4, 5, 6, 7, 1<<30, -1)
		r.Flag = &f
	}
	oneIn := pick(t, "lenmode", 1000000, 1000000, 12, 3)
	n := pick(t, "nindoms", 0, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		r.Indoms = append(r.Indoms, genIndom(t, i, oneIn))
	}
	n = pick(t, "nmetrics", 0, 1, 1, 2, 3, 4, 6, 9)
	for i := 0; i < n; i++ {
		r.Metrics = append(r.Metrics, genMetric(t, i, len(r.Indoms), oneIn, kinds))
	}
	if bulk > 0 && chance(t, "bulk", bulk) {
		r.BulkM = pick(t, "bulkm", 0, 50, 130, 400)
		r.BulkI = pick(t, "bulki", 0, 60, 300)
		r.BulkLen = pick(t, "bulklen", 0, 0, 0, 90, 255)
		if chance(t, "huge", 10) {
			r.BulkM = pick(t, "bulkm", 400, 1100, 2500)
			r.BulkI = pick(t, "bulki", 300, 1100, 4200)
		}
	}
	return r
}

// expand replaces the bulk counts by the specifications they stand for.
func (r RegSpec) expand() RegSpec {
	long := func(s string) QStr {
		if n := r.BulkLen - len(s); n > 0 {
			s += strings.Repeat("_", n)
		}
		return QStr(s)
	}
	if r.BulkI > 0 {
		d := IndomSpec{Name: "bulk.dom", NDesc: 1, Short: "bulk domain", Reg: true}
		for i := 0; i < r.BulkI; i++ {
			d.Insts = append(d.Insts, long(fmt.Sprintf("bulk-instance-%d", i)))
		}
		r.Indoms = append(append([]IndomSpec{}, r.Indoms...), d)
		r.Metrics = append(append([]MetricSpec{}, r.Metrics...), MetricSpec{Kind: "inst", Name: "bulk.perinst", Type: tUint64, Sem: 3, Indom: len(r.Indoms) - 1, Vals: []Val{{"uint64", "1"}, {"uint64", "18446744073709551615"}, {"uint64", "77"}}})
	}
	ms := append([]MetricSpec{}, r.Metrics...)
	for i := 0; i < r.BulkM; i++ {
		m := MetricSpec{Name: long(fmt.Sprintf("bulk.metric.%d", i)), Unit: UnitSpec{Base: i % 15}, Type: tInt64}
		if i%3 == 0 {
			m.NDesc, m.Short = 1, long(fmt.Sprintf("short text of %d", i))
		}
		switch i % 6 {
		case 0:
			m.Kind, m.Type, m.Vals = "singleton", tString, []Val{{"string", long(fmt.Sprintf("string value %d", i))}}
		case 1:
			m.Kind, m.Vals = "counter", []Val{{"int64", QStr(strconv.Itoa(i * 1000))}}
		case 2:
			m.Kind, m.Type, m.Vals = "gauge", tDouble, []Val{{"float64", QStr(strconv.Itoa(i))}}
		case 3:
			m.Kind, m.Vals, m.Insts = "cvec", []Val{{"int64", QStr(strconv.Itoa(i))}, {"int64", "5"}}, []QStr{"one", "two", "three"}
		case 4:
			m.Kind, m.Type, m.Vals = "singleton", tFloat, []Val{{"float32", QStr(strconv.Itoa(i))}}
		case 5:
			m.Kind, m.Lo, m.Hi, m.Sig = "hist", 1, 1000, 1
		}
		ms = append(ms, m)
	}
	r.Metrics = ms
	r.BulkI, r.BulkM, r.BulkLen = 0, 0, 0
	return r
}
