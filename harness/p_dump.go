package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"
	"pgregory.net/rapid"
)

// An ImgSpec describes an MMV image independently of the library.
type ImgSpec struct {
	V       int32       `json:"v"`
	G       uint64      `json:"g"`
	Flag    int32       `json:"flag"`
	Pid     int32       `json:"pid"`
	Cluster int32       `json:"cluster"`
	Indoms  []ImgIndom  `json:"indoms,omitempty"`
	Insts   []ImgInst   `json:"insts,omitempty"`
	Metrics []ImgMetric `json:"metrics,omitempty"`
	Values  []ImgValue  `json:"values,omitempty"`
	Strings []QStr      `json:"strings,omitempty"` // unreferenced ones
	Pos     []int       `json:"pos"`               // the order of the sections in the file
	Toc     []int       `json:"toc"`               // the order of their entries
	Gaps    []int       `json:"gaps"`              // words left free before each section and at the end
	Empty   bool        `json:"empty"`             // list sections without records too
	Many    int         `json:"many,omitempty"`    // so many more metrics, instances, values and strings
}

// expand adds the records that Many stands for.
func (x ImgSpec) expand() ImgSpec {
	n := x.Many
	if n == 0 {
		return x
	}
	x.Many = 0
	indoms, insts, mets := len(x.Indoms), len(x.Insts), len(x.Metrics)
	x.Indoms = append([]ImgIndom{}, x.Indoms...)
	x.Insts = append([]ImgInst{}, x.Insts...)
	x.Metrics = append([]ImgMetric{}, x.Metrics...)
	x.Values = append([]ImgValue{}, x.Values...)
	x.Strings = append([]QStr{}, x.Strings...)
	seen := map[uint32]bool{}
	for _, d := range x.Indoms {
		seen[d.Serial] = true
	}
	fresh := uint32(1)
	nd := 1 + n/1000
	for i := 0; i < nd; i++ {
		for seen[fresh] {
			fresh++
		}
		seen[fresh] = true
		x.Indoms = append(x.Indoms, ImgIndom{Serial: fresh, Long: QStr(fmt.Sprintf("domain %d", i))})
	}
	for i := 0; i < n; i++ {
		// the instances of a domain are one run of records
		x.Insts = append(x.Insts, ImgInst{indoms + i*nd/n, int32(i * 7), QStr(fmt.Sprintf("i%d", i))})
		m := ImgMetric{Name: QStr(fmt.Sprintf("m.%d", i)), Item: uint32(i), Type: int32(i % 7), Sem: []int32{0, 1, 3, 4}[i%4], Indom: -1}
		if i%3 == 0 {
			m.Short = QStr(fmt.Sprintf("short %d", i))
		}
		v := ImgValue{Metric: mets + i, Inst: -1}
		if i%2 == 0 {
			m.Indom, v.Inst = indoms+i*nd/n, insts+i
		}
		if m.Type == 6 {
			v.Str = QStr(fmt.Sprintf("value %d", i))
		} else {
			v.Bits = uint64(i)
		}
		x.Metrics = append(x.Metrics, m)
		x.Values = append(x.Values, v)
		x.Strings = append(x.Strings, QStr(fmt.Sprintf("s%d", i)))
	}
	return x
}

type ImgIndom struct {
	Serial uint32 `json:"serial"`
	Short  QStr   `json:"short,omitempty"`
	Long   QStr   `json:"long,omitempty"`
}
type ImgInst struct {
	Indom int   `json:"indom"`
	ID    int32 `json:"id"`
	Name  QStr  `json:"name"`
}
type ImgMetric struct {
	Name  QStr   `json:"name"`
	Item  uint32 `json:"item"`
	Type  int32  `json:"type"`
	Sem   int32  `json:"sem"`
	Unit  uint32 `json:"unit"`
	Indom int    `json:"indom"` // -1: none
	Short QStr   `json:"short,omitempty"`
	Long  QStr   `json:"long,omitempty"`
}
type ImgValue struct {
	Metric int    `json:"metric"`
	Inst   int    `json:"inst"` // -1: none
	Bits   uint64 `json:"bits"`
	Str    QStr   `json:"str,omitempty"`
}

// sections
const (
	sIndoms = iota
	sInsts
	sMetrics
	sValues
	sStrings
)

// giantImg has sections of more records than sixteen bits can count.
func giantImg(v int32) ImgSpec {
	return ImgSpec{V: v, G: 1, Pid: 1, Pos: []int{0, 1, 2, 3, 4}, Toc: []int{0, 1, 2, 3, 4}, Gaps: make([]int, 6), Many: 66000}
}

// A Built image with the file offsets of its records.
type Built struct {
	Data   []byte
	Off    [5][]uint64
	Start  [5]uint64
	Toc    []int // sections listed, in order
	Str    map[uint64]string
	IndomT [][2]uint64 // text offsets
	MetT   [][2]uint64
	Ext    []uint64 // v2 name slots of instances
	MetN   []uint64
	ValS   []uint64
}

func (x ImgSpec) build() *Built {
	b := &Built{Str: map[uint64]string{}}
	size := [5]int{32, 80, 104, 32, 256}
	if x.V == 2 {
		size[sInsts], size[sMetrics] = 24, 48
	}
	var texts []string
	slot := func(s QStr) int { texts = append(texts, string(s)); return len(texts) - 1 }
	opt := func(s QStr) int {
		if s == "" {
			return -1
		}
		return slot(s)
	}
	var im, ii, mm, mn, vs [][2]int
	for _, d := range x.Indoms {
		im = append(im, [2]int{opt(d.Short), opt(d.Long)})
	}
	for _, i := range x.Insts {
		k := -1
		if x.V == 2 {
			k = slot(i.Name)
		}
		ii = append(ii, [2]int{k})
	}
	for _, m := range x.Metrics {
		k := -1
		if x.V == 2 {
			k = slot(m.Name)
		}
		mn = append(mn, [2]int{k})
		mm = append(mm, [2]int{opt(m.Short), opt(m.Long)})
	}
	for _, v := range x.Values {
		k := -1
		if x.Metrics[v.Metric].Type == 6 {
			k = slot(v.Str)
		}
		vs = append(vs, [2]int{k})
	}
	for _, s := range x.Strings {
		slot(s)
	}
	n := [5]int{len(x.Indoms), len(x.Insts), len(x.Metrics), len(x.Values), len(texts)}
	for _, s := range x.Toc {
		if n[s] > 0 || x.Empty {
			b.Toc = append(b.Toc, s)
		}
	}
	pos := uint64(40 + 16*len(b.Toc))
	for i, s := range x.Pos {
		pos += uint64(8 * x.Gaps[i])
		b.Start[s] = pos
		for k := 0; k < n[s]; k++ {
			b.Off[s] = append(b.Off[s], pos)
			pos += uint64(size[s])
		}
	}
	pos += uint64(8 * x.Gaps[5])
	d := make([]byte, pos)
	b.Data = d
	p32 := func(o uint64, v uint32) { binary.LittleEndian.PutUint32(d[o:], v) }
	p64 := func(o uint64, v uint64) { binary.LittleEndian.PutUint64(d[o:], v) }
	at := func(k int) uint64 {
		if k < 0 {
			return 0
		}
		return b.Off[sStrings][k]
	}
	copy(d, "MMV\x00")
	p32(4, uint32(x.V))
	p64(8, x.G)
	p64(16, x.G)
	p32(24, uint32(len(b.Toc)))
	p32(28, uint32(x.Flag))
	p32(32, uint32(x.Pid))
	p32(36, uint32(x.Cluster))
	for i, s := range b.Toc {
		o := uint64(40 + 16*i)
		p32(o, uint32(s+1))
		p32(o+4, uint32(n[s]))
		p64(o+8, b.Start[s])
	}
	firsts, cnts := make([]uint64, len(x.Indoms)), make([]int, len(x.Indoms))
	for k, in := range x.Insts {
		if cnts[in.Indom] == 0 {
			firsts[in.Indom] = b.Off[sInsts][k]
		}
		cnts[in.Indom]++
	}
	for i, e := range x.Indoms {
		o := b.Off[sIndoms][i]
		first, cnt := firsts[i], cnts[i]
		p32(o, e.Serial)
		p32(o+4, uint32(cnt))
		p64(o+8, first)
		t := [2]uint64{at(im[i][0]), at(im[i][1])}
		p64(o+16, t[0])
		p64(o+24, t[1])
		b.IndomT = append(b.IndomT, t)
	}
	for i, e := range x.Insts {
		o := b.Off[sInsts][i]
		p64(o, b.Off[sIndoms][e.Indom])
		p32(o+12, uint32(e.ID))
		if x.V == 1 {
			copy(d[o+16:o+80], e.Name)
		} else {
			p64(o+16, at(ii[i][0]))
		}
		b.Ext = append(b.Ext, at(ii[i][0]))
	}
	for i, e := range x.Metrics {
		o := b.Off[sMetrics][i]
		if x.V == 1 {
			copy(d[o:o+64], e.Name)
			o += 64
		} else {
			p64(o, at(mn[i][0]))
			o += 8
		}
		p32(o, e.Item)
		p32(o+4, uint32(e.Type))
		p32(o+8, uint32(e.Sem))
		p32(o+12, e.Unit)
		p32(o+16, math.MaxUint32)
		if e.Indom >= 0 {
			p32(o+16, x.Indoms[e.Indom].Serial)
		}
		t := [2]uint64{at(mm[i][0]), at(mm[i][1])}
		p64(o+24, t[0])
		p64(o+32, t[1])
		b.MetT = append(b.MetT, t)
		b.MetN = append(b.MetN, at(mn[i][0]))
	}
	for i, e := range x.Values {
		o := b.Off[sValues][i]
		m := x.Metrics[e.Metric]
		if m.Type == 6 {
			p64(o+8, at(vs[i][0]))
		} else {
			p64(o, e.Bits)
		}
		b.ValS = append(b.ValS, at(vs[i][0]))
		p64(o+16, b.Off[sMetrics][e.Metric])
		if e.Inst >= 0 {
			p64(o+24, b.Off[sInsts][e.Inst])
		}
	}
	for i, s := range texts {
		o := b.Off[sStrings][i]
		copy(d[o:o+256], s)
		b.Str[o] = s
	}
	return b
}

func genImg(t *rapid.T, big bool) ImgSpec {
	x := ImgSpec{V: int32(rapid.IntRange(1, 2).Draw(t, "v")), Pos: rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "pos"), Toc: rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "toc")}
	if rapid.Bool().Draw(t, "natural") {
		x.Pos, x.Toc = []int{0, 1, 2, 3, 4}, []int{0, 1, 2, 3, 4}
	}
	x.G = pick(t, "g", uint64(1), 1469335238, rapid.Uint64().Draw(t, "gany"), math.MaxUint64, 0)
	x.Flag = pick(t, "flag", int32(0), 1, 2, 4, 7, -1)
	x.Pid = pick(t, "pid", int32(1), 6410, math.MaxInt32, 0, -1)
	x.Cluster = rapid.Int32Range(0, 4095).Draw(t, "cluster")
	for i := 0; i < 6; i++ {
		g := 0
		if chance(t, "gap", 3) {
			g = rapid.IntRange(1, 5).Draw(t, "words")
		}
		x.Gaps = append(x.Gaps, g)
	}
	x.Empty = chance(t, "empty", 4)
	max := 63
	if x.V == 2 {
		max = 255
	}
	name := func(l string) QStr {
		n := pick(t, l+"len", 1, 3, 8, rapid.IntRange(1, max).Draw(t, l+"any"), max, max-1)
		return QStr(strings.ReplaceAll(textOf(t, l, n), "\x00", "0"))
	}
	text := func(l string) QStr {
		if rapid.Bool().Draw(t, l+"none") {
			return ""
		}
		n := pick(t, l+"len", 1, 10, rapid.IntRange(1, 255).Draw(t, l+"any"), 255)
		return QStr(strings.ReplaceAll(textOf(t, l, n), "\x00", "0"))
	}
	lim := 3
	if big {
		lim = 6
	}
	nd := rapid.IntRange(0, lim).Draw(t, "nindoms")
	var of [][]int
	seen := map[uint32]bool{}
	for i := 0; i < nd; i++ {
		s := pick(t, "serial", rapid.Uint32Range(1, 1<<22-1).Draw(t, "s22"), 1, 1<<22-1, math.MaxInt32)
		for seen[s] {
			s = s%math.MaxInt32 + 1
		}
		seen[s] = true
		x.Indoms = append(x.Indoms, ImgIndom{s, text("is"), text("il")})
		ni := rapid.IntRange(0, lim+1).Draw(t, "ninsts")
		var l []int
		for k := 0; k < ni; k++ {
			l = append(l, len(x.Insts))
			x.Insts = append(x.Insts, ImgInst{i, pick(t, "id", rapid.Int32().Draw(t, "idany"), 0, -1, math.MinInt32), name("inst")})
		}
		of = append(of, l)
	}
	nm := rapid.IntRange(0, lim+1).Draw(t, "nmetrics")
	for i := 0; i < nm; i++ {
		m := ImgMetric{Name: name("metric"), Item: pick(t, "item", rapid.Uint32Range(0, 1023).Draw(t, "i10"), 0, math.MaxUint32), Type: rapid.Int32Range(0, 6).Draw(t, "type"), Sem: pick(t, "sem", int32(0), 1, 3, 4), Short: text("ms"), Long: text("ml"), Indom: -1}
		for d := 0; d < 3; d++ {
			if chance(t, "dim", 2) {
				e := uint32(pick(t, "exp", 1, 1, -1, 2, -2, 7, -8, 0))
				m.Unit |= (e & 15) << (28 - 4*uint(d))
				m.Unit |= uint32(rapid.IntRange(0, maxScale(d)).Draw(t, "scale")) << (16 - 4*uint(d))
			}
		}
		if nd > 0 && rapid.Bool().Draw(t, "indomed") {
			m.Indom = rapid.IntRange(0, nd-1).Draw(t, "indom")
		}
		x.Metrics = append(x.Metrics, m)
	}
	for i, m := range x.Metrics {
		is := []int{-1}
		if m.Indom >= 0 {
			is = of[m.Indom]
		}
		for _, k := range is {
			v := ImgValue{Metric: i, Inst: k}
			if m.Type == 6 {
				v.Str = text("val")
			} else {
				v.Bits = pick(t, "bits", rapid.Uint64().Draw(t, "bany"), 0, 1, 42, math.MaxUint64, 1<<31, 1<<63, math.Float64bits(1.5), math.Float64bits(-2.25e300), uint64(math.Float32bits(-0.75)), math.Float64bits(math.Inf(-1)), math.Float64bits(math.NaN()))
				if m.Type == 0 || m.Type == 1 || m.Type == 4 {
					v.Bits &= math.MaxUint32
				}
			}
			x.Values = append(x.Values, v)
		}
	}
	if len(x.Values) > 1 && rapid.Bool().Draw(t, "shuffled") {
		x.Values = rapid.Permutation(x.Values).Draw(t, "values")
	}
	for i := rapid.IntRange(0, 2).Draw(t, "nstrings"); i > 0; i-- {
		x.Strings = append(x.Strings, text("str"))
	}
	return x
}

// unitText writes a unit as mmvdump does: positive exponents, then " / " and the negative ones.
func unitText(u uint32) string {
	names := [3][]string{{"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"}, {"nsec", "usec", "msec", "sec", "min", "hr"}, {"count"}}
	pos, neg := "", ""
	for d := 0; d < 3; d++ {
		e := int(u >> (28 - 4*uint(d)) & 15)
		if e > 7 {
			e -= 16
		}
		s := names[d][u>>(16-4*uint(d))&15]
		switch {
		case e == 1:
			pos += s
		case e > 1:
			pos += fmt.Sprintf("%s^%d", s, e)
		case e == -1:
			neg += s
		case e < 0:
			neg += fmt.Sprintf("%s^%d", s, e)
		}
	}
	if neg != "" {
		return pos + " / " + neg
	}
	return pos
}

func (m ImgMetric) value(v ImgValue) interface{} {
	switch m.Type {
	case 0:
		return int32(uint32(v.Bits))
	case 1:
		return uint32(v.Bits)
	case 2:
		return int64(v.Bits)
	case 3:
		return v.Bits
	case 4:
		return math.Float32frombits(uint32(v.Bits))
	case 5:
		return math.Float64frombits(v.Bits)
	}
	return string(v.Str)
}

// render is what mmvdump prints for the image. Semantics have no agreed names: only the number is compared.
func (x ImgSpec) render(b *Built) string {
	w := &strings.Builder{}
	fmt.Fprintf(w, "Version   = %d\nGenerated = %d\nToc Count = %d\nCluster   = %d\nProcess   = %d\nFlags     = 0x%x\n\n", x.V, x.G, len(b.Toc), x.Cluster, x.Pid, x.Flag)
	texts := func(short, long QStr) {
		for i, s := range []QStr{short, long} {
			n := []string{"shorttext", "longtext"}[i]
			if s == "" {
				fmt.Fprintf(w, "\t\t(no %s)\n", n)
			} else {
				fmt.Fprintf(w, "\t\t%s=%s\n", n, s)
			}
		}
	}
	for ti, s := range b.Toc {
		fmt.Fprintf(w, "TOC[%d], offset: %d, %s offset: %d (%d entries)\n", ti, 40+16*ti, []string{"indoms", "instances", "metric", "values", "strings"}[s], b.Start[s], len(b.Off[s]))
		for i, o := range b.Off[s] {
			switch s {
			case sIndoms:
				d := x.Indoms[i]
				fmt.Fprintf(w, "\t[%d/%d] %d instances, starting at offset %d\n", d.Serial, o, binary.LittleEndian.Uint32(b.Data[o+4:]), u64(b.Data[o+8:]))
				texts(d.Short, d.Long)
			case sInsts:
				n := x.Insts[i]
				fmt.Fprintf(w, "\t[%d/%d] instance = [%d/%s]\n", x.Indoms[n.Indom].Serial, o, n.ID, n.Name)
			case sMetrics:
				m := x.Metrics[i]
				fmt.Fprintf(w, "\t[%d/%d] %s\n\t\ttype=%s (0x%x), sem= (0x%x), pad=0x0\n\t\tunits=%s\n", m.Item, o, m.Name,
					[]string{"Int32Type", "Uint32Type", "Int64Type", "Uint64Type", "FloatType", "DoubleType", "StringType"}[m.Type], m.Type, m.Sem, unitText(m.Unit))
				if m.Indom < 0 {
					fmt.Fprintf(w, "\t\t(no indom)\n")
				} else {
					fmt.Fprintf(w, "\t\tindom=%d\n", x.Indoms[m.Indom].Serial)
				}
				texts(m.Short, m.Long)
			case sValues:
				v := x.Values[i]
				m := x.Metrics[v.Metric]
				fmt.Fprintf(w, "\t[%d/%d] %s", m.Item, o, m.Name)
				if v.Inst >= 0 {
					fmt.Fprintf(w, "[%d or \"%s\"]", x.Insts[v.Inst].ID, x.Insts[v.Inst].Name)
				}
				fmt.Fprintf(w, " = %v\n", m.value(v))
			case sStrings:
				fmt.Fprintf(w, "\t[%d] %s\n", o, b.Str[o])
			}
		}
		fmt.Fprintln(w)
	}
	return w.String()
}

// sameDump compares printed forms: padding NULs and the names of the semantics are left out.
func sameDump(got, want string) (string, bool) {
	norm := func(s string) string {
		s = strings.ReplaceAll(s, "\x00", "")
		var out []string
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "\t\ttype=") {
				if i := strings.Index(l, ", sem="); i >= 0 {
					if j := strings.Index(l[i:], " (0x"); j >= 0 {
						l = l[:i+6] + l[i+j:]
					}
				}
			}
			out = append(out, l)
		}
		return strings.Join(out, "\n")
	}
	g, w := norm(got), norm(want)
	if g == w {
		return "", true
	}
	gl, wl := strings.Split(g, "\n"), strings.Split(w, "\n")
	for i := range wl {
		if i >= len(gl) || gl[i] != wl[i] {
			have := "(nothing)"
			if i < len(gl) {
				have = gl[i]
			}
			return fmt.Sprintf("line %d is %q, expected %q", i+1, have, wl[i]), false
		}
	}
	return fmt.Sprintf("%d lines, expected %d", len(gl), len(wl)), false
}

// ------------------------------------------------------------------ C16

type CaseC16 struct {
	Img  ImgSpec `json:"img"`
	CLI  bool    `json:"cli"`
	Full int     `json:"full,omitempty"` // print once more to an output with room for this many bytes (modulo its length)
}

func genC16(t *rapid.T) CaseC16 {
	x := CaseC16{genImg(t, true), chance(t, "cli", 20), rapid.IntRange(0, 1<<16).Draw(t, "full")}
	if chance(t, "large", 40) {
		x.Img.Many = pick(t, "many", 100, 257, 1000, rapid.IntRange(1, 3000).Draw(t, "manyany"))
		x.CLI = x.CLI || chance(t, "clilarge", 3)
	}
	return x
}

func nul(s string, n int) []byte { return append([]byte(s), make([]byte, n-len(s))...) }

// constants checks that the numbers of the format have the names of the format, here and in the library.
func constants(c *Ctx) {
	for _, n := range []struct {
		what           string
		dump, lib, num int
	}{
		{"Int32Type", int(mmvdump.Int32Type), int(speed.Int32Type), 0}, {"Uint32Type", int(mmvdump.Uint32Type), int(speed.Uint32Type), 1},
		{"Int64Type", int(mmvdump.Int64Type), int(speed.Int64Type), 2}, {"Uint64Type", int(mmvdump.Uint64Type), int(speed.Uint64Type), 3},
		{"FloatType", int(mmvdump.FloatType), int(speed.FloatType), 4}, {"DoubleType", int(mmvdump.DoubleType), int(speed.DoubleType), 5},
		{"StringType", int(mmvdump.StringType), int(speed.StringType), 6},
		{"NoSemantics", int(mmvdump.NoSemantics), int(speed.NoSemantics), 0}, {"CounterSemantics", int(mmvdump.CounterSemantics), int(speed.CounterSemantics), 1},
		{"InstantSemantics", int(mmvdump.InstantSemantics), int(speed.InstantSemantics), 3}, {"DiscreteSemantics", int(mmvdump.DiscreteSemantics), int(speed.DiscreteSemantics), 4},
		{"TocIndoms", int(mmvdump.TocIndoms), 1, 1}, {"TocInstances", int(mmvdump.TocInstances), 2, 2}, {"TocMetrics", int(mmvdump.TocMetrics), 3, 3},
		{"TocValues", int(mmvdump.TocValues), 4, 4}, {"TocStrings", int(mmvdump.TocStrings), 5, 5},
	} {
		if n.dump != n.num || n.lib != n.num {
			c.Failf("%s is %d in mmvdump and %d in the library, expected %d", n.what, n.dump, n.lib, n.num)
		}
	}
}

func runC16(c *Ctx, x CaseC16) {
	constants(c)
	im := x.Img.expand()
	b := im.build()
	data := append([]byte{}, b.Data...)
	h, tocs, metrics, values, instances, indoms, strs, err := mmvdump.Dump(data)
	if err != nil {
		c.Failf("Dump of a well-formed image: %v", err)
	}
	if string(h.Magic[:]) != "MMV\x00" || h.Version != im.V || h.G1 != im.G || h.G2 != im.G || int(h.Toc) != len(b.Toc) || h.Flag != im.Flag || h.Process != im.Pid || h.Cluster != im.Cluster {
		c.Failf("header decoded as %+v", *h)
	}
	if len(tocs) != len(b.Toc) {
		c.Failf("%d entries decoded, expected %d", len(tocs), len(b.Toc))
	}
	for i, s := range b.Toc {
		if e := tocs[i]; int(e.Type) != s+1 || int(e.Count) != len(b.Off[s]) || e.Offset != b.Start[s] {
			c.Failf("entry %d decoded as %+v, expected type %d, %d records at %d", i, *e, s+1, len(b.Off[s]), b.Start[s])
		}
	}
	if len(metrics) != len(im.Metrics) || len(values) != len(im.Values) || len(instances) != len(im.Insts) || len(indoms) != len(im.Indoms) || len(strs) != len(b.Off[sStrings]) {
		c.Failf("decoded %d metrics, %d values, %d instances, %d domains, %d strings; the image has %d, %d, %d, %d, %d", len(metrics), len(values), len(instances), len(indoms), len(strs), len(im.Metrics), len(im.Values), len(im.Insts), len(im.Indoms), len(b.Off[sStrings]))
	}
	for i, e := range im.Indoms {
		o := b.Off[sIndoms][i]
		g := indoms[o]
		if g == nil || g.Serial != e.Serial || g.Count != binary.LittleEndian.Uint32(data[o+4:]) || g.Offset != u64(data[o+8:]) || g.Shorttext != b.IndomT[i][0] || g.Longtext != b.IndomT[i][1] {
			c.Failf("domain at %d decoded as %+v, expected %+v", o, g, e)
		}
	}
	for i, e := range im.Insts {
		o := b.Off[sInsts][i]
		g := instances[o]
		if g == nil || g.Indom() != b.Off[sIndoms][e.Indom] || g.Internal() != e.ID || g.Padding() != 0 {
			c.Failf("instance at %d decoded as %+v, expected %+v", o, g, e)
		}
		switch g := g.(type) {
		case *mmvdump.Instance1:
			if im.V != 1 || !bytes.Equal(g.External[:], nul(string(e.Name), 64)) {
				c.Failf("instance at %d has name %q, expected %q", o, g.External, e.Name)
			}
		case *mmvdump.Instance2:
			if im.V != 2 || g.External != b.Ext[i] {
				c.Failf("instance at %d has its name at %d, expected %d", o, g.External, b.Ext[i])
			}
		}
	}
	for i, e := range im.Metrics {
		o := b.Off[sMetrics][i]
		g := metrics[o]
		ind := int32(-1)
		if e.Indom >= 0 {
			ind = int32(im.Indoms[e.Indom].Serial)
		}
		if g == nil || g.Item() != e.Item || int32(g.Typ()) != e.Type || int32(g.Sem()) != e.Sem || uint32(g.Unit()) != e.Unit || g.Indom() != ind || g.Padding() != 0 || g.ShortText() != b.MetT[i][0] || g.LongText() != b.MetT[i][1] {
			c.Failf("metric at %d decoded as %+v, expected %+v", o, g, e)
		}
		switch g := g.(type) {
		case *mmvdump.Metric1:
			if im.V != 1 || !bytes.Equal(g.Name[:], nul(string(e.Name), 64)) {
				c.Failf("metric at %d has name %q, expected %q", o, g.Name, e.Name)
			}
		case *mmvdump.Metric2:
			if im.V != 2 || g.Name != b.MetN[i] {
				c.Failf("metric at %d has its name at %d, expected %d", o, g.Name, b.MetN[i])
			}
		}
		if u := g.Unit(); u.String() != unitText(e.Unit) {
			c.Failf("unit %#x is printed %q, expected %q", e.Unit, u.String(), unitText(e.Unit))
		} else if got, want := [6]int{int(u.SpaceDim()), int(u.TimeDim()), int(u.CountDim()), int(u.SpaceScale()), int(u.TimeScale()), int(u.CountScale())},
			[6]int{int(int32(e.Unit) >> 28), int(int32(e.Unit<<4) >> 28), int(int32(e.Unit<<8) >> 28), int(e.Unit >> 16 & 15), int(e.Unit >> 12 & 15), int(e.Unit >> 8 & 15)}; got != want {
			c.Failf("the parts of unit %#x are said to be %v, expected %v", e.Unit, got, want)
		}
	}
	for i, e := range im.Values {
		o := b.Off[sValues][i]
		g := values[o]
		inst := uint64(0)
		if e.Inst >= 0 {
			inst = b.Off[sInsts][e.Inst]
		}
		if g == nil || g.Metric != b.Off[sMetrics][e.Metric] || g.Instance != inst {
			c.Failf("value at %d decoded as %+v, expected %+v", o, g, e)
		}
		m := im.Metrics[e.Metric]
		if m.Type == 6 {
			if uint64(g.Extra) != b.ValS[i] {
				c.Failf("value at %d has its text at %d, expected %d", o, g.Extra, b.ValS[i])
			}
			if _, err := mmvdump.FixedVal(g.Val, mmvdump.StringType); err == nil {
				c.Failf("FixedVal accepts the string type")
			}
		} else {
			v, err := mmvdump.FixedVal(g.Val, mmvdump.Type(m.Type))
			if err != nil || fmt.Sprintf("%T %v", v, v) != fmt.Sprintf("%T %v", m.value(e), m.value(e)) {
				c.Failf("value at %d decoded as %v (%v), expected %v", o, v, err, m.value(e))
			}
		}
	}
	for o, s := range b.Str {
		if g := strs[o]; g == nil || !bytes.Equal(g.Payload[:], nul(s, 256)) {
			c.Failf("string at %d decoded as %+v, expected %q", o, g, s)
		}
	}
	var out bytes.Buffer
	if err := mmvdump.Write(&out, h, tocs, metrics, values, instances, indoms, strs); err != nil {
		c.Failf("Write of a well-formed image: %v", err)
	}
	want := im.render(b)
	if diff, ok := sameDump(out.String(), want); !ok {
		c.Failf("printed form: %s", diff)
	}
	if !bytes.Equal(data, b.Data) {
		c.Failf("the input was changed")
	}
	if x.Full > 0 {
		room := x.Full % out.Len()
		if err := mmvdump.Write(&fullWriter{room}, h, tocs, metrics, values, instances, indoms, strs); err == nil {
			c.Failf("printing to an output that took only %d of %d bytes reported no error", room, out.Len())
		}
		// an output that fails once and then works again
		fw := &onceWriter{left: room}
		if err := mmvdump.Write(fw, h, tocs, metrics, values, instances, indoms, strs); err == nil && fw.failed {
			c.Failf("printing to an output that failed once after %d of %d bytes reported no error", room, out.Len())
		}
	}
	if x.CLI {
		c.Label("command line")
		f := c.Dir + []string{"/", "//", "/./"}[x.Full%3] + []string{"image.mmv", "an image", "-image"}[x.Full/3%3]
		if err := os.WriteFile(f, b.Data, 0644); err != nil {
			c.Infraf("%v", err)
		}
		cmd := exec.Command(filepath.Join(filepath.Dir(os.Getenv("VH_BIN")), "mmvdump"), f)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Run(); err != nil {
			if _, ok := err.(*exec.ExitError); !ok {
				c.Infraf("mmvdump: %v", err)
			}
			c.Failf("mmvdump on a well-formed image: %v\n%s", err, se.String())
		}
		if diff, ok := sameDump(so.String(), "File      = "+f+"\n"+want); !ok {
			c.Failf("mmvdump prints: %s", diff)
		}
		// an output that takes nothing, and files that are no images: it says so
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			c.Infraf("%v", err)
		}
		defer full.Close()
		bad := f + ".bad"
		if err := os.WriteFile(bad, b.Data[:x.Full%40], 0644); err != nil {
			c.Infraf("%v", err)
		}
		run := func(what string, args []string, out *os.File) {
			cmd := exec.Command(filepath.Join(filepath.Dir(os.Getenv("VH_BIN")), "mmvdump"), args...)
			if out != nil {
				cmd.Stdout = out
			}
			err := cmd.Run()
			if _, ok := err.(*exec.ExitError); err != nil && !ok {
				c.Infraf("mmvdump: %v", err)
			}
			if err == nil {
				c.Failf("mmvdump reports success on %s", what)
			}
		}
		switch x.Full % 7 {
		case 0, 1:
			run("an output that takes nothing", []string{f}, full)
		case 2:
			run("an incomplete header", []string{bad}, nil)
		case 3:
			run("a file that does not exist", []string{f + ".none"}, nil)
		}
	}
	if len(im.Values) >= 2 && len(im.Metrics) >= 1 {
		c.Nontrivial()
	}
	c.Label(fmt.Sprintf("version %d", im.V))
	if !sort.IntsAreSorted(im.Pos) {
		c.Label("sections in another order")
	}
}

// ------------------------------------------------------------------ C15

type Mut struct {
	K string `json:"k"` // "4", "8": a number; "b": a byte; "cut", "pad": the length; "copy": 16 bytes moved
	O int    `json:"o"`
	V int64  `json:"v"`
}

type CaseC15 struct {
	Img *ImgSpec `json:"img,omitempty"`
	Raw QStr     `json:"raw,omitempty"`
	Mut []Mut    `json:"mut,omitempty"`
}

func (x CaseC15) bytes() []byte {
	d := []byte(x.Raw)
	if x.Img != nil {
		d = x.Img.expand().build().Data
	}
	for _, m := range x.Mut {
		switch m.K {
		case "4":
			if m.O >= 0 && m.O+4 <= len(d) {
				binary.LittleEndian.PutUint32(d[m.O:], uint32(m.V))
			}
		case "8":
			if m.O >= 0 && m.O+8 <= len(d) {
				binary.LittleEndian.PutUint64(d[m.O:], uint64(m.V))
			}
		case "b":
			if m.O >= 0 && m.O < len(d) {
				d[m.O] = byte(m.V)
			}
		case "cut":
			if m.O >= 0 && m.O < len(d) {
				d = d[:m.O]
			}
		case "pad":
			if m.O > 0 && m.O <= 1<<20 {
				p := make([]byte, m.O)
				for i := range p {
					p[i] = byte(m.V)
				}
				d = append(d, p...)
			}
		case "copy":
			if s := int(m.V); m.O >= 0 && m.O+16 <= len(d) && s >= 0 && s+16 <= len(d) {
				copy(d[m.O:m.O+16], append([]byte{}, d[s:s+16]...))
			}
		}
	}
	return d
}

func genC15(t *rapid.T) CaseC15 {
	var x CaseC15
	n := 0
	var b *Built
	switch rapid.IntRange(0, 9).Draw(t, "base") {
	case 0:
		x.Raw = QStr(rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "raw"))
		n = len(x.Raw)
	case 1: // a header and whatever follows
		d := make([]byte, 40)
		copy(d, "MMV\x00")
		binary.LittleEndian.PutUint32(d[4:], uint32(rapid.Int32Range(0, 3).Draw(t, "ver")))
		binary.LittleEndian.PutUint32(d[24:], uint32(rapid.Int32Range(-1, 8).Draw(t, "tocs")))
		x.Raw = QStr(append(d, rapid.SliceOfN(rapid.Byte(), 0, 400).Draw(t, "rest")...))
		n = len(x.Raw)
	default:
		im := genImg(t, false)
		if chance(t, "large", 60) {
			im.Many = pick(t, "many", 50, 257, rapid.IntRange(1, 1000).Draw(t, "manyany"))
		}
		for i := range im.Metrics {
			// numbers that name no unit and no semantics
			m := &im.Metrics[i]
			if chance(t, "oddunit", 4) {
				m.Unit = rapid.Uint32().Draw(t, "unit")
			} else if chance(t, "oddscale", 4) {
				d := uint(rapid.IntRange(0, 2).Draw(t, "dim"))
				m.Unit |= uint32(rapid.IntRange(1, 15).Draw(t, "exp"))<<(28-4*d) | uint32(rapid.IntRange(0, 15).Draw(t, "scale"))<<(16-4*d)
			}
			if chance(t, "oddsem", 6) {
				m.Sem = pick(t, "anysem", rapid.Int32().Draw(t, "semany"), 2, 5, -1, 7, 8)
			}
		}
		x.Img = &im
		b = im.expand().build()
		n = len(b.Data)
	}
	k := rapid.IntRange(0, 5).Draw(t, "nmut")
	big := false
	for i := 0; i < k; i++ {
		var m Mut
		switch rapid.IntRange(0, 9).Draw(t, "mk") {
		case 0:
			m = Mut{"cut", rapid.IntRange(0, n).Draw(t, "cut"), 0}
		case 1:
			m = Mut{"pad", pick(t, "pad", 1, 7, 8, 16, 100, 4096), int64(pick(t, "padbyte", 0, 1, 0xff, 0x4d))}
			if !big && chance(t, "big", 4) {
				big = true
				m.O = pick(t, "bigpad", 65536, 200000, 500000)
			}
			n += m.O
		case 2, 3:
			m = Mut{"b", rapid.IntRange(0, n).Draw(t, "at"), int64(rapid.Byte().Draw(t, "byte"))}
		case 4:
			m = Mut{"copy", 8 * rapid.IntRange(0, n/8).Draw(t, "to"), int64(8 * rapid.IntRange(0, n/8).Draw(t, "from"))}
			if rapid.Bool().Draw(t, "toc") {
				m.O = 40 + 16*rapid.IntRange(0, 5).Draw(t, "entry")
				m.V = int64(40 + 16*rapid.IntRange(0, 5).Draw(t, "entry2"))
			}
		default:
			// a number of the structure: header, entries, or a field of a record
			var o int
			switch {
			case chance(t, "header", 4):
				o = pick(t, "hf", 0, 4, 8, 16, 24, 24, 28, 32, 36)
			case b == nil || chance(t, "entries", 2):
				o = 40 + 16*rapid.IntRange(0, 5).Draw(t, "entry") + pick(t, "ef", 0, 4, 4, 8, 8)
			default:
				s := rapid.IntRange(0, 3).Draw(t, "section")
				size := [4]int{32, 80, 104, 32}
				if x.Img.V == 2 {
					size[1], size[2] = 24, 48
				}
				o = 4 * rapid.IntRange(0, size[s]/4-1).Draw(t, "field")
				if c := len(b.Off[s]); c > 0 {
					o += int(b.Off[s][rapid.IntRange(0, c-1).Draw(t, "record")])
				}
			}
			v := pick(t, "v", int64(0), 1, 2, 3, 5, 6, 7, 255, -1, -2, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, -16, -32, -256, 0x7fffffffffffff00,
				int64(n), int64(n)-1, int64(n)-16, int64(n)-32, int64(n)-256, int64(n)/16, int64(n)/32, int64(n)/24, 1<<20, 1<<32, 40, 56, rapid.Int64Range(0, int64(n)+64).Draw(t, "near"))
			m = Mut{pick(t, "width", "4", "8"), o, v}
		}
		x.Mut = append(x.Mut, m)
	}
	return x
}

type countWriter struct {
	buf []byte
	max int
}

func (w *countWriter) Write(p []byte) (int, error) {
	if len(w.buf)+len(p) > w.max {
		panic(failure{fmt.Sprintf("the printed form is out of proportion: over %d bytes", w.max)})
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

// fullWriter takes only so many bytes.
type fullWriter struct{ left int }

func (w *fullWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, syscall.ENOSPC
	}
	w.left -= len(p)
	return len(p), nil
}

// onceWriter fails one write.
type onceWriter struct {
	left   int
	failed bool
}

func (w *onceWriter) Write(p []byte) (int, error) {
	if w.left -= len(p); w.left < 0 && !w.failed {
		w.failed = true
		return 0, syscall.EIO
	}
	return len(p), nil
}

// announced checks that a decoded input holds every record its table of contents announces, and nothing else.
func announced(c *Ctx, d []byte, h *mmvdump.Header, tocs []*mmvdump.Toc, metrics map[uint64]mmvdump.Metric, values map[uint64]*mmvdump.Value,
	instances map[uint64]mmvdump.Instance, indoms map[uint64]*mmvdump.InstanceDomain, strs map[uint64]*mmvdump.String) (all []uint64) {
	if len(d) < 40 || string(d[:3]) != "MMV" || !bytes.Equal(d[8:16], d[16:24]) {
		c.Failf("an input without a complete header was decoded")
	}
	if v := binary.LittleEndian.Uint32(d[4:]); v != 1 && v != 2 {
		c.Failf("an input of version %d was decoded", v)
	}
	if n := int32(binary.LittleEndian.Uint32(d[24:])); int(n) != len(tocs) {
		c.Failf("%d entries decoded, the header announces %d", len(tocs), n)
	}
	total := map[int]int{}
	for i := range tocs {
		e := d[40+16*i:]
		typ, n, o := int(int32(binary.LittleEndian.Uint32(e))), int(int32(binary.LittleEndian.Uint32(e[4:]))), u64(e[8:])
		if typ < 1 || typ > 5 {
			c.Failf("entry %d has type %d and was decoded", i, typ)
		}
		v2 := binary.LittleEndian.Uint32(d[4:]) == 2
		size := map[int]uint64{1: 32, 2: 80, 3: 104, 4: 32, 5: 256}[typ]
		if v2 && typ == 2 {
			size = 24
		}
		if v2 && typ == 3 {
			size = 48
		}
		total[typ] += n
		for k := 0; k < n; k++ {
			at := o + uint64(k)*size
			var ok bool
			switch typ {
			case 1:
				_, ok = indoms[at]
			case 2:
				_, ok = instances[at]
			case 3:
				_, ok = metrics[at]
			case 4:
				_, ok = values[at]
			case 5:
				_, ok = strs[at]
			}
			if !ok {
				c.Failf("entry %d announces %d records of type %d at %d, the one at %d was not decoded and there was no error", i, n, typ, o, at)
			}
			all = append(all, at)
		}
	}
	for typ, n := range map[int]int{1: len(indoms), 2: len(instances), 3: len(metrics), 4: len(values), 5: len(strs)} {
		if n != total[typ] {
			c.Failf("%d records of type %d decoded, %d announced", n, typ, total[typ])
		}
	}
	return all
}

// resolves checks that what was printed without an error refers to nothing that the input does not hold.
func resolves(c *Ctx, metrics map[uint64]mmvdump.Metric, values map[uint64]*mmvdump.Value,
	instances map[uint64]mmvdump.Instance, indoms map[uint64]*mmvdump.InstanceDomain, strs map[uint64]*mmvdump.String) {
	text := func(what string, at, o uint64) {
		if strs[o] == nil {
			c.Failf("printed without an error, but the %s of the record at %d is said to be at %d, where there is none", what, at, o)
		}
	}
	texts := func(at, s, l uint64) {
		if s != 0 {
			text("short text", at, s)
		}
		if l != 0 {
			text("long text", at, l)
		}
	}
	for o, d := range indoms {
		texts(o, d.Shorttext, d.Longtext)
	}
	for o, i := range instances {
		if indoms[i.Indom()] == nil {
			c.Failf("printed without an error, but the instance at %d belongs to a domain at %d, where there is none", o, i.Indom())
		}
		if i2, ok := i.(*mmvdump.Instance2); ok {
			text("name", o, i2.External)
		}
	}
	for o, m := range metrics {
		texts(o, m.ShortText(), m.LongText())
		if m2, ok := m.(*mmvdump.Metric2); ok {
			text("name", o, m2.Name)
		}
	}
	for o, v := range values {
		m := metrics[v.Metric]
		if m == nil {
			c.Failf("printed without an error, but the value at %d is of a metric at %d, where there is none", o, v.Metric)
		}
		if t := int(m.Typ()); t == 6 {
			text("text", o, uint64(v.Extra))
		} else if t < 0 || t > 6 {
			c.Failf("printed without an error, but the value at %d is of type %d", o, t)
		}
		if d := m.Indom(); d != mmvdump.NoIndom && d != 0 && instances[v.Instance] == nil {
			c.Failf("printed without an error, but the value at %d is of an instance at %d, where there is none", o, v.Instance)
		}
	}
}

// bracketed are the numbers printed between '[' or '/' and ']'.
func bracketed(b []byte) map[uint64]bool {
	m := map[uint64]bool{}
	for i := 0; i < len(b); i++ {
		if b[i] != '[' && b[i] != '/' {
			continue
		}
		j := i + 1
		for j < len(b) && b[j] >= '0' && b[j] <= '9' {
			j++
		}
		if j < len(b) && b[j] == ']' {
			if n, err := strconv.ParseUint(string(b[i+1:j]), 10, 64); err == nil {
				m[n] = true
			}
		}
	}
	return m
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func runC15(c *Ctx, x CaseC15) {
	d := x.bytes()
	// the input lies at the very end of its pages, unreadable ones before and after it, and cannot be written
	page := os.Getpagesize()
	body := (len(d) + page - 1) / page * page
	mem, err := syscall.Mmap(-1, 0, body+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		c.Infraf("mmap: %v", err)
	}
	c.Defer(func() { _ = syscall.Munmap(mem) })
	lo := page + body - len(d)
	copy(mem[lo:], d)
	for _, r := range [][2]int{{0, page}, {page + body, 2*page + body}} {
		if err := syscall.Mprotect(mem[r[0]:r[1]], syscall.PROT_NONE); err != nil {
			c.Infraf("mprotect: %v", err)
		}
	}
	if body > 0 {
		if err := syscall.Mprotect(mem[page:page+body], syscall.PROT_READ); err != nil {
			c.Infraf("mprotect: %v", err)
		}
	}
	in := mem[lo : page+body : page+body]
	limit := 1<<20 + 400*uint64(len(d))
	before := allocated()
	h, tocs, metrics, values, instances, indoms, strs, err := mmvdump.Dump(in)
	if used := allocated() - before; used > limit {
		c.Failf("decoding %d bytes allocated %d", len(d), used)
	}
	if err != nil {
		c.Label("refused")
		return
	}
	if h == nil {
		c.Failf("no error and no header")
	}
	c.Label("decoded")
	all := announced(c, in, h, tocs, metrics, values, instances, indoms, strs)
	// what a caller can print of the parts by itself (fmt would hide a panic)
	for _, t := range tocs {
		_ = t.Type.String()
	}
	for _, m := range metrics {
		_, _, _ = m.Unit().String(), m.Sem().String(), m.Typ().String()
	}
	for _, v := range values {
		if m := metrics[v.Metric]; m != nil {
			_, _ = mmvdump.FixedVal(v.Val, m.Typ())
		}
	}
	w := &countWriter{max: int(min(1<<20+400*int64(len(d)), math.MaxInt))}
	before = allocated()
	err = mmvdump.Write(w, h, tocs, metrics, values, instances, indoms, strs)
	if used := allocated() - before; used > 1<<20+4000*uint64(len(d)) {
		c.Failf("printing a decoded input of %d bytes allocated %d", len(d), used)
	}
	if err != nil {
		c.Label("decoded, not printable")
	} else {
		printed := bracketed(w.buf)
		for _, o := range all {
			if !printed[o] {
				c.Failf("printed without an error, but without the record at %d", o)
			}
		}
		resolves(c, metrics, values, instances, indoms, strs)
		// and each to its end (the texts printed may add to these counts)
		nd, ni, nm, nv := 0, 0, 0, 0
		for _, t := range tocs {
			switch n := int(t.Count); int(t.Type) {
			case 1:
				nd += n
			case 2:
				ni += n
			case 3:
				nm += n
			case 4:
				nv += n
			}
		}
		for _, w2 := range []struct {
			what string
			n    int
		}{{"shorttext", nd + nm}, {"longtext", nd + nm}, {"units=", nm}, {"type=", nm}, {"sem=", nm}, {"indom", nm}, {" = ", nv + ni}} {
			if n := bytes.Count(w.buf, []byte(w2.what)); n < w2.n {
				c.Failf("printed without an error, but %q occurs only %d times, for %d records that have it", w2.what, n, w2.n)
			}
		}
	}
	if len(x.Mut) > 0 && x.Img != nil || len(tocs) > 0 {
		c.Nontrivial()
	}
}

func init() {
	register(Prop{ID: "C15", Fuzz: true,
		Rule:   "case: a synthesised image with up to five mutations of its numbers, bytes and length, or raw bytes, laid against unreadable pages; non-trivial when the mutated input is decoded (it may still fail to print)",
		Assume: []string{"the input does not change while it is read", "the bound on allocation is 1 MiB plus 400 bytes (printing: 4000) per input byte, on output 1 MiB plus 400 bytes per byte"},
		Hang:   12 * time.Second, OOM: true, AS: 12 << 30,
		Quick: Budget{Cases: 30000},
		Fixed: func() (cs []interface{}) {
			for v := int32(1); v <= 2; v++ {
				im := giantImg(v)
				b := im.expand().build()
				cs = append(cs, CaseC15{Img: &im})
				// one record more than there are, in each section, and the file a byte short
				for i, s := range b.Toc {
					n := int64(len(b.Data)) - int64(b.Start[s])
					size := [5]int64{32, 80, 104, 32, 256}[s]
					if v == 2 {
						size = [5]int64{32, 24, 48, 32, 256}[s]
					}
					cs = append(cs, CaseC15{Img: &im, Mut: []Mut{{"4", 40 + 16*i + 4, n/size + 1}}})
				}
				cs = append(cs, CaseC15{Img: &im, Mut: []Mut{{"cut", len(b.Data) - 1, 0}}})
			}
			return
		},
	}, genC15, runC15)
	register(Prop{ID: "C16", Fuzz: true,
		Rule:  "case: an image of version 1 or 2 with domains, instances, metrics, values and strings, its sections in any order with gaps; non-trivial with at least one metric and two values",
		Quick: Budget{Cases: 10000},
		Fixed: func() (cs []interface{}) {
			for v := int32(1); v <= 2; v++ {
				cs = append(cs, CaseC16{Img: giantImg(v), Full: 12345, CLI: true})
			}
			return
		},
	}, genC16, runC16)
}
