package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
)

// Independent decoder of the MMV v1/v2 format (see PCP's mmv(5)).

const (
	mmvHeader = 40
	mmvToc    = 16
	mmvIndom  = 32
	mmvInst1  = 80
	mmvInst2  = 24
	mmvMet1   = 104
	mmvMet2   = 48
	mmvValue  = 32
	mmvString = 256
)

const (
	tocIndom = 1 + iota
	tocInst
	tocMetric
	tocValue
	tocString
)

const (
	tInt32 = iota
	tUint32
	tInt64
	tUint64
	tFloat
	tDouble
	tString
)

type Toc struct {
	Type, Count int32
	Offset      uint64
}
type IIndom struct {
	Off, Serial, Count  uint64
	Offset, Short, Long uint64
}
type IInst struct {
	Off, Indom uint64
	Pad        uint32
	Internal   uint32
	Name       string
	NameOff    uint64 // v2
	Raw        []byte
}
type IMetric struct {
	Off         uint64
	Name        string
	NameOff     uint64 // v2
	Item        uint32
	Type, Sem   int32
	Unit        uint32
	Indom       int32
	Pad         uint32
	Short, Long uint64
}
type IValue struct {
	Off          uint64
	Val          uint64
	Extra        uint64
	Metric, Inst uint64
}

type Image struct {
	Data     []byte
	Version  int32
	G1, G2   uint64
	NToc     int32
	Flag     int32
	Process  int32
	Cluster  uint32
	Tocs     []Toc
	Indoms   []*IIndom
	Insts    []*IInst
	Metrics  []*IMetric
	Values   []*IValue
	Strings  map[uint64]string
	StrRefs  map[uint64]int
	indomAt  map[uint64]*IIndom
	instAt   map[uint64]*IInst
	metricAt map[uint64]*IMetric
}

func cstr(b []byte) (string, bool) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return string(b), false
	}
	return string(b[:i]), true
}

func zeroTail(b []byte) bool {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return true
	}
	for _, c := range b[i:] {
		if c != 0 {
			return false
		}
	}
	return true
}

// looksComplete is the test a reader applies before trusting an image.
func looksComplete(d []byte) bool {
	if len(d) < mmvHeader || string(d[:3]) != "MMV" {
		return false
	}
	return binary.LittleEndian.Uint64(d[8:]) == binary.LittleEndian.Uint64(d[16:])
}

// parseImage decodes strictly. Any structural defect is returned as an error.
func parseImage(d []byte) (*Image, error) {
	le := binary.LittleEndian
	if len(d) < mmvHeader {
		return nil, fmt.Errorf("file of %d bytes is shorter than a header", len(d))
	}
	if string(d[:4]) != "MMV\x00" {
		return nil, fmt.Errorf("bad magic %q", d[:4])
	}
	im := &Image{Data: d,
		Version: int32(le.Uint32(d[4:])), G1: le.Uint64(d[8:]), G2: le.Uint64(d[16:]),
		NToc: int32(le.Uint32(d[24:])), Flag: int32(le.Uint32(d[28:])),
		Process: int32(le.Uint32(d[32:])), Cluster: le.Uint32(d[36:]),
		Strings: map[uint64]string{}, StrRefs: map[uint64]int{},
		indomAt: map[uint64]*IIndom{}, instAt: map[uint64]*IInst{}, metricAt: map[uint64]*IMetric{},
	}
	if im.Version != 1 && im.Version != 2 {
		return nil, fmt.Errorf("bad version %d", im.Version)
	}
	if im.G1 == 0 || im.G1 != im.G2 {
		return nil, fmt.Errorf("generation stamps %d and %d", im.G1, im.G2)
	}
	if im.NToc < 0 || im.NToc > 5 {
		return nil, fmt.Errorf("header says %d TOC entries", im.NToc)
	}
	tocEnd := uint64(mmvHeader + int(im.NToc)*mmvToc)
	if tocEnd > uint64(len(d)) {
		return nil, fmt.Errorf("TOC does not fit in %d bytes", len(d))
	}
	instLen, metLen := uint64(mmvInst1), uint64(mmvMet1)
	if im.Version == 2 {
		instLen, metLen = mmvInst2, mmvMet2
	}
	size := map[int32]uint64{tocIndom: mmvIndom, tocInst: instLen, tocMetric: metLen, tocValue: mmvValue, tocString: mmvString}
	seen := map[int32]Toc{}
	type ext struct {
		lo, hi uint64
		ty     int32
	}
	var exts []ext
	for i := 0; i < int(im.NToc); i++ {
		o := mmvHeader + i*mmvToc
		t := Toc{int32(le.Uint32(d[o:])), int32(le.Uint32(d[o+4:])), le.Uint64(d[o+8:])}
		im.Tocs = append(im.Tocs, t)
		sz, ok := size[t.Type]
		if !ok {
			return nil, fmt.Errorf("TOC[%d] has unknown type %d", i, t.Type)
		}
		if _, dup := seen[t.Type]; dup {
			return nil, fmt.Errorf("TOC[%d] repeats section type %d", i, t.Type)
		}
		seen[t.Type] = t
		if t.Count < 0 {
			return nil, fmt.Errorf("TOC[%d] type %d has count %d", i, t.Type, t.Count)
		}
		if t.Count == 0 {
			if t.Type != tocMetric && t.Type != tocValue {
				return nil, fmt.Errorf("TOC[%d] lists an empty section of type %d", i, t.Type)
			}
			continue
		}
		if t.Offset < tocEnd || t.Offset > uint64(len(d)) || uint64(t.Count)*sz > uint64(len(d))-t.Offset {
			return nil, fmt.Errorf("TOC[%d]: section type %d of %d entries at %d leaves [%d,%d)", i, t.Type, t.Count, t.Offset, tocEnd, len(d))
		}
		exts = append(exts, ext{t.Offset, t.Offset + uint64(t.Count)*sz, t.Type})
	}
	for _, ty := range []int32{tocMetric, tocValue} {
		if _, ok := seen[ty]; !ok {
			return nil, fmt.Errorf("no TOC entry for section type %d", ty)
		}
	}
	sort.Slice(exts, func(i, j int) bool { return exts[i].lo < exts[j].lo })
	for i := 1; i < len(exts); i++ {
		if exts[i].lo < exts[i-1].hi {
			return nil, fmt.Errorf("sections of type %d and %d overlap at %d", exts[i-1].ty, exts[i].ty, exts[i].lo)
		}
	}
	each := func(ty int32, f func(off uint64, b []byte) error) error {
		t := seen[ty]
		for i := uint64(0); i < uint64(t.Count); i++ {
			off := t.Offset + i*size[ty]
			if err := f(off, d[off:off+size[ty]]); err != nil {
				return err
			}
		}
		return nil
	}
	if err := each(tocString, func(off uint64, b []byte) error {
		s, ok := cstr(b)
		if !ok {
			return fmt.Errorf("string slot at %d is not NUL-terminated", off)
		}
		im.Strings[off] = s
		return nil
	}); err != nil {
		return nil, err
	}
	ref := func(what string, off uint64, mandatory bool) (string, error) {
		if off == 0 && !mandatory {
			return "", nil
		}
		s, ok := im.Strings[off]
		if !ok {
			return "", fmt.Errorf("%s refers to offset %d, which is no string record", what, off)
		}
		im.StrRefs[off]++
		return s, nil
	}
	if err := each(tocIndom, func(off uint64, b []byte) error {
		x := &IIndom{off, uint64(le.Uint32(b)), uint64(le.Uint32(b[4:])), le.Uint64(b[8:]), le.Uint64(b[16:]), le.Uint64(b[24:])}
		im.Indoms = append(im.Indoms, x)
		im.indomAt[off] = x
		if _, err := ref(fmt.Sprintf("indom at %d short text", off), x.Short, false); err != nil {
			return err
		}
		_, err := ref(fmt.Sprintf("indom at %d long text", off), x.Long, false)
		return err
	}); err != nil {
		return nil, err
	}
	if err := each(tocInst, func(off uint64, b []byte) error {
		x := &IInst{Off: off, Indom: le.Uint64(b), Pad: le.Uint32(b[8:]), Internal: le.Uint32(b[12:]), Raw: b}
		if im.Version == 1 {
			var ok bool
			if x.Name, ok = cstr(b[16:80]); !ok {
				return fmt.Errorf("instance name at %d is not NUL-terminated", off)
			}
		} else {
			x.NameOff = le.Uint64(b[16:])
			var err error
			if x.Name, err = ref(fmt.Sprintf("instance at %d name", off), x.NameOff, true); err != nil {
				return err
			}
		}
		if x.Pad != 0 {
			return fmt.Errorf("instance at %d has padding %#x", off, x.Pad)
		}
		if im.indomAt[x.Indom] == nil {
			return fmt.Errorf("instance at %d refers to offset %d, which is no indom record", off, x.Indom)
		}
		im.Insts = append(im.Insts, x)
		im.instAt[off] = x
		return nil
	}); err != nil {
		return nil, err
	}
	owned := map[uint64]uint64{}
	for _, in := range im.Indoms {
		for i := uint64(0); i < in.Count; i++ {
			off := in.Offset + i*instLen
			x := im.instAt[off]
			if x == nil {
				return nil, fmt.Errorf("indom at %d claims an instance at %d, which is no instance record", in.Off, off)
			}
			if x.Indom != in.Off {
				return nil, fmt.Errorf("indom at %d claims the instance at %d, which belongs to %d", in.Off, off, x.Indom)
			}
			owned[off]++
		}
	}
	for _, x := range im.Insts {
		if owned[x.Off] != 1 {
			return nil, fmt.Errorf("instance at %d is claimed by %d indoms", x.Off, owned[x.Off])
		}
	}
	if err := each(tocMetric, func(off uint64, b []byte) error {
		x := &IMetric{Off: off}
		if im.Version == 1 {
			var ok bool
			if x.Name, ok = cstr(b[:64]); !ok {
				return fmt.Errorf("metric name at %d is not NUL-terminated", off)
			}
			b = b[64:]
		} else {
			x.NameOff = le.Uint64(b)
			var err error
			if x.Name, err = ref(fmt.Sprintf("metric at %d name", off), x.NameOff, true); err != nil {
				return err
			}
			b = b[8:]
		}
		x.Item, x.Type, x.Sem = le.Uint32(b), int32(le.Uint32(b[4:])), int32(le.Uint32(b[8:]))
		x.Unit, x.Indom, x.Pad = le.Uint32(b[12:]), int32(le.Uint32(b[16:])), le.Uint32(b[20:])
		x.Short, x.Long = le.Uint64(b[24:]), le.Uint64(b[32:])
		if _, err := ref(fmt.Sprintf("metric at %d short text", off), x.Short, false); err != nil {
			return err
		}
		if _, err := ref(fmt.Sprintf("metric at %d long text", off), x.Long, false); err != nil {
			return err
		}
		if x.Pad != 0 {
			return fmt.Errorf("metric at %d has padding %#x", off, x.Pad)
		}
		if x.Type < tInt32 || x.Type > tString {
			return fmt.Errorf("metric at %d has type %d", off, x.Type)
		}
		if x.Indom != -1 {
			n := 0
			for _, in := range im.Indoms {
				if int32(in.Serial) == x.Indom {
					n++
				}
			}
			if n == 0 {
				return fmt.Errorf("metric at %d belongs to indom %d, which is not in the file", off, x.Indom)
			}
		}
		im.Metrics = append(im.Metrics, x)
		im.metricAt[off] = x
		return nil
	}); err != nil {
		return nil, err
	}
	if err := each(tocValue, func(off uint64, b []byte) error {
		x := &IValue{off, le.Uint64(b), le.Uint64(b[8:]), le.Uint64(b[16:]), le.Uint64(b[24:])}
		m := im.metricAt[x.Metric]
		if m == nil {
			return fmt.Errorf("value at %d refers to offset %d, which is no metric record", off, x.Metric)
		}
		if m.Indom == -1 {
			if x.Inst != 0 {
				return fmt.Errorf("value at %d of single-valued metric %q names an instance at %d", off, m.Name, x.Inst)
			}
		} else {
			i := im.instAt[x.Inst]
			if i == nil {
				return fmt.Errorf("value at %d of metric %q refers to offset %d, which is no instance record", off, m.Name, x.Inst)
			}
			if int32(im.indomAt[i.Indom].Serial) != m.Indom {
				return fmt.Errorf("value at %d of metric %q refers to an instance of indom %d, not %d", off, m.Name, im.indomAt[i.Indom].Serial, m.Indom)
			}
		}
		if m.Type == tString {
			if _, err := ref(fmt.Sprintf("string value at %d", off), x.Extra, true); err != nil {
				return err
			}
		} else if x.Extra != 0 {
			return fmt.Errorf("numeric value at %d has extra %#x", off, x.Extra)
		}
		im.Values = append(im.Values, x)
		return nil
	}); err != nil {
		return nil, err
	}
	return im, nil
}

// goVal is the value of record v of a metric of the given type.
func (im *Image) goVal(ty int32, v *IValue) interface{} {
	switch ty {
	case tInt32:
		return int32(uint32(v.Val))
	case tUint32:
		return uint32(v.Val)
	case tInt64:
		return int64(v.Val)
	case tUint64:
		return v.Val
	case tFloat:
		return math.Float32frombits(uint32(v.Val))
	case tDouble:
		return math.Float64frombits(v.Val)
	}
	return im.Strings[v.Extra]
}

// slot is the byte range [lo,hi) of the file holding the value of record v.
func (im *Image) slot(ty int32, v *IValue) (lo, hi uint64) {
	if ty == tString {
		return v.Extra, v.Extra + mmvString
	}
	return v.Off, v.Off + 8
}
