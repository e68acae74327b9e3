package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"github.com/performancecopilot/speed/v4/bytewriter"
	"pgregory.net/rapid"
)

// WriteOp is one call on a writer. For the fixed kinds the value is made from V,
// for the byte kinds it is Data.
type WriteOp struct {
	K    string `json:"k"`
	V    int64  `json:"v,omitempty"`
	Data QStr   `json:"d,omitempty"`
	More int    `json:"more,omitempty"` // this many further bytes
	Off  int    `json:"o"`
	Must bool   `json:"m,omitempty"`
}

type recT struct {
	A int16
	B uint8
	C float64
	D [3]int32
}
type badRec struct {
	A int32
	B string
}
type flag32 uint32

var valKinds = []string{"int8", "uint8", "bool", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "complex64", "named", "array", "slice", "struct", "pointer", "string", "bytes"}
var badKinds = []string{"int", "uint", "nil", "nilptr", "map", "chan", "func", "badstruct", "strings", "intp", "ints"}
var typedKinds = []string{"WriteInt32", "WriteInt64", "WriteUint32", "WriteUint64", "WriteFloat32", "WriteFloat64", "WriteString", "Write"}

func le(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	return b
}

// value gives the value to write and its encoding; ok is false when it has none.
func (o WriteOp) value() (v interface{}, enc []byte, ok bool) {
	u := uint64(o.V)
	switch o.K {
	case "int8":
		return int8(u), le(u, 1), true
	case "uint8":
		return uint8(u), le(u, 1), true
	case "bool":
		return u&1 == 1, le(u&1, 1), true
	case "int16":
		return int16(u), le(u, 2), true
	case "uint16":
		return uint16(u), le(u, 2), true
	case "int32", "WriteInt32":
		return int32(u), le(u, 4), true
	case "uint32", "WriteUint32":
		return uint32(u), le(u, 4), true
	case "int64", "WriteInt64":
		return int64(u), le(u, 8), true
	case "uint64", "WriteUint64":
		return u, le(u, 8), true
	case "float32", "WriteFloat32":
		f := math.Float32frombits(uint32(u))
		return f, le(uint64(math.Float32bits(f)), 4), true
	case "float64", "WriteFloat64":
		return math.Float64frombits(u), le(u, 8), true
	case "complex64":
		f, g := float32(int32(u)), float32(int32(u>>32))
		return complex(f, g), append(le(uint64(math.Float32bits(f)), 4), le(uint64(math.Float32bits(g)), 4)...), true
	case "named":
		return flag32(u), le(u, 4), true
	case "array":
		return [3]uint16{uint16(u), uint16(u >> 16), uint16(u >> 32)}, le(u, 6), true
	case "slice":
		n := int(u % 5)
		s, e := make([]int32, n), []byte{}
		for i := range s {
			s[i] = int32(u >> uint(i))
			e = append(e, le(uint64(uint32(s[i])), 4)...)
		}
		return s, e, true
	case "struct":
		r := recT{int16(u), uint8(u >> 8), math.Float64frombits(u), [3]int32{int32(u), 7, int32(u >> 16)}}
		e := append(append(le(uint64(uint16(r.A)), 2), r.B), le(u, 8)...)
		for _, x := range r.D {
			e = append(e, le(uint64(uint32(x)), 4)...)
		}
		return r, e, true
	case "pointer":
		x := u
		return &x, le(u, 8), true
	case "string", "WriteString":
		return string(o.data()), o.data(), true
	case "bytes", "Write":
		return o.data(), o.data(), true
	case "int":
		return int(u), nil, false
	case "uint":
		return uint(u), nil, false
	case "nilptr":
		return (*int64)(nil), nil, false
	case "nil":
		return nil, nil, false
	case "map":
		return map[int32]int32{1: 2}, nil, false
	case "chan":
		return make(chan int), nil, false
	case "func":
		return func() {}, nil, false
	case "badstruct":
		return badRec{1, "x"}, nil, false
	case "strings":
		return []string{"a", "b"}, nil, false
	case "intp":
		i := 3
		return &i, nil, false
	case "ints":
		return []int{1, 2}, nil, false
	}
	panic(infraError{"unknown write kind " + o.K})
}

// data is the text or the bytes to write.
func (o WriteOp) data() []byte {
	b := []byte(o.Data)
	for i := 0; i < o.More; i++ {
		b = append(b, byte(i*131+i>>8+o.More))
	}
	return b
}

// call performs the write; a panic of a Must form is reported as its error.
func (o WriteOp) call(w bytewriter.Writer) (off int, err error) {
	v, _, _ := o.value()
	if !o.Must {
		switch o.K {
		case "WriteInt32":
			return w.WriteInt32(v.(int32), o.Off)
		case "WriteInt64":
			return w.WriteInt64(v.(int64), o.Off)
		case "WriteUint32":
			return w.WriteUint32(v.(uint32), o.Off)
		case "WriteUint64":
			return w.WriteUint64(v.(uint64), o.Off)
		case "WriteFloat32":
			return w.WriteFloat32(v.(float32), o.Off)
		case "WriteFloat64":
			return w.WriteFloat64(v.(float64), o.Off)
		case "WriteString":
			return w.WriteString(v.(string), o.Off)
		case "Write":
			return w.Write(v.([]byte), o.Off)
		}
		return w.WriteVal(v, o.Off)
	}
	if p := panics(func() {
		switch o.K {
		case "WriteInt32":
			off = w.MustWriteInt32(v.(int32), o.Off)
		case "WriteInt64":
			off = w.MustWriteInt64(v.(int64), o.Off)
		case "WriteUint32":
			off = w.MustWriteUint32(v.(uint32), o.Off)
		case "WriteUint64":
			off = w.MustWriteUint64(v.(uint64), o.Off)
		case "WriteFloat32":
			off = w.MustWriteFloat32(v.(float32), o.Off)
		case "WriteFloat64":
			off = w.MustWriteFloat64(v.(float64), o.Off)
		case "WriteString":
			off = w.MustWriteString(v.(string), o.Off)
		case "Write":
			off = w.MustWrite(v.([]byte), o.Off)
		default:
			off = w.MustWriteVal(v, o.Off)
		}
	}); p != nil {
		err = fmt.Errorf("panic: %v", p)
	}
	return off, err
}

// apply performs the write on the shadow; ok tells whether it must succeed.
func (o WriteOp) apply(shadow []byte) (end int, ok bool) {
	_, enc, ok := o.value()
	if !ok || o.Off < 0 || o.Off > len(shadow) || len(enc) > len(shadow)-o.Off {
		return 0, false
	}
	copy(shadow[o.Off:], enc)
	return o.Off + len(enc), true
}

func genWriteOp(t *rapid.T, n int, wild bool) WriteOp {
	o := WriteOp{Must: chance(t, "must", 4)}
	switch {
	case wild && chance(t, "unencodable", 12):
		o.K = pick(t, "bad", badKinds...)
	case rapid.Bool().Draw(t, "typed"):
		o.K = pick(t, "tk", typedKinds...)
	default:
		o.K = pick(t, "vk", valKinds...)
	}
	switch o.K {
	case "string", "bytes", "Write", "WriteString":
		l := rapid.IntRange(0, 12).Draw(t, "len")
		if chance(t, "longdata", 6) {
			l = rapid.IntRange(0, n+3).Draw(t, "longlen")
			if b := pick(t, "blocks", 0, 0, 64, 256, 512, 1024, 4096, 8192, 32768); b > 0 && l > b {
				l -= l % b // whole blocks
			}
		}
		if l > 300 {
			o.More, l = l-10, 10
		}
		o.Data = QStr(rapid.SliceOfN(rapid.Byte(), l, l).Draw(t, "data"))
	default:
		o.V = pick(t, "val", rapid.Int64().Draw(t, "any"), 0, -1, 1, math.MaxInt64, math.MinInt64, 0x0102030405060708, 0x7ff0000000000001, 0x7f800001)
	}
	_, enc, _ := o.value()
	l := len(enc)
	switch at := rapid.IntRange(0, 9).Draw(t, "where"); {
	case at <= 5 && n-l >= 0:
		o.Off = rapid.IntRange(0, n-l).Draw(t, "in")
	case at <= 6:
		o.Off = n - l
	case at <= 7:
		o.Off = n - l + rapid.IntRange(-2, l+2).Draw(t, "edge")
	default:
		o.Off = pick(t, "far", 0, -1, -2, -l, -n, -n-1, n, n+1, math.MaxInt, math.MaxInt-l+1, math.MaxInt-l, math.MinInt, math.MinInt+l, math.MaxInt32, math.MinInt32, 1<<(strconv.IntSize/2))
	}
	return o
}

type CaseC17 struct {
	N    int         `json:"n"`
	Own  bool        `json:"own"` // NewByteWriter rather than NewByteWriterSlice
	Ops  []WriteOp   `json:"ops"`
	Conc [][]WriteOp `json:"conc,omitempty"` // goroutines, offsets relative to own disjoint ranges
	W    int         `json:"w,omitempty"`    // width of each range
}

func genC17(t *rapid.T) CaseC17 {
	x := CaseC17{N: pick(t, "n", 0, 1, 3, 4, 7, 8, 16, 40, 200, pick(t, "large", 0, 255, 256, 1000, 4096, 65535, 65536, 65537, 100000)), Own: rapid.Bool().Draw(t, "own")}
	k := rapid.IntRange(1, 12).Draw(t, "nops")
	for i := 0; i < k; i++ {
		x.Ops = append(x.Ops, genWriteOp(t, x.N, true))
	}
	if chance(t, "conc", 3) {
		x.W = pick(t, "w", 1, 8, 13, 24, 64)
		g := rapid.IntRange(2, 5).Draw(t, "g")
		for i := 0; i < g; i++ {
			var ops []WriteOp
			k := rapid.IntRange(1, 8).Draw(t, "gops")
			for j := 0; j < k; j++ {
				o := genWriteOp(t, x.W, false)
				if _, enc, _ := o.value(); o.Off >= 0 && o.Off <= x.W-len(enc) {
					ops = append(ops, o)
				}
			}
			x.Conc = append(x.Conc, ops)
		}
	}
	return x
}

func runC17(c *Ctx, x CaseC17) {
	const guard = 64
	n := x.N
	if need := len(x.Conc) * x.W; need > n {
		n = need
	}
	big := make([]byte, n+2*guard)
	for i := range big {
		big[i] = byte(i*7 + 3)
	}
	var w *bytewriter.ByteWriter
	shadow := make([]byte, n)
	if x.Own {
		w = bytewriter.NewByteWriter(n)
	} else {
		w = bytewriter.NewByteWriterSlice(big[guard : guard+n])
		copy(shadow, big[guard:])
	}
	ref := append([]byte{}, big...)
	check := func(at string) {
		if w.Len() != n || len(w.Bytes()) != n {
			c.Failf("%s: Len()=%d, len(Bytes())=%d, expected %d", at, w.Len(), len(w.Bytes()), n)
		}
		if !bytes.Equal(w.Bytes(), shadow) {
			b := w.Bytes()
			i := 0
			for b[i] == shadow[i] {
				i++
			}
			e := i + 16
			if e > n {
				e = n
			}
			c.Failf("%s: the buffer holds %x... from %d on, expected %x...", at, b[i:e], i, shadow[i:e])
		}
		if !x.Own {
			copy(ref[guard:], shadow)
			if !bytes.Equal(big, ref) {
				c.Failf("%s: bytes outside the buffer changed", at)
			}
		}
	}
	check("new")
	inside, outside := 0, 0
	for i, o := range x.Ops {
		at := fmt.Sprintf("write %d: %+v on %d bytes", i, o, n)
		end, ok := o.apply(shadow)
		off, err := o.call(w)
		switch {
		case ok && err != nil:
			c.Failf("%s: %v", at, err)
		case ok && off != end:
			c.Failf("%s: returned offset %d, expected %d", at, off, end)
		case !ok && err == nil:
			c.Failf("%s: succeeded (offset %d)", at, off)
		}
		check(at)
		if ok {
			inside++
		} else {
			outside++
		}
	}
	if len(x.Conc) > 0 {
		c.Label("concurrent")
		var wg sync.WaitGroup
		errs := make([]string, len(x.Conc))
		begin := make(chan struct{})
		for g, ops := range x.Conc {
			for _, o := range ops {
				o.Off += g * x.W
				if _, ok := o.apply(shadow); !ok {
					c.Infraf("concurrent write does not fit")
				}
			}
			wg.Add(1)
			go func(g int, ops []WriteOp) {
				defer wg.Done()
				<-begin
				for i, o := range ops {
					o.Off += g * x.W
					_, enc, _ := o.value()
					off, err := o.call(w)
					if err != nil || off != o.Off+len(enc) {
						errs[g] = fmt.Sprintf("goroutine %d write %d: %+v: offset %d, error %v", g, i, o, off, err)
						return
					}
				}
			}(g, ops)
		}
		close(begin)
		wg.Wait()
		for _, e := range errs {
			if e != "" {
				c.Failf("%s", e)
			}
		}
		check("concurrent writes")
	}
	if inside > 0 && (outside > 0 || len(x.Conc) > 0) {
		c.Nontrivial()
	}
}

// ------------------------------------------------------------------ C26

type CaseC26 struct {
	Dirs   int       `json:"dirs"`   // missing directories on the path
	Old    int       `json:"old"`    // -1: no file there, otherwise its length
	Link   bool      `json:"link"`   // the old file is a symbolic link to another file
	Fail   string    `json:"fail"`   // "": none, "dir": a non-empty directory is in the way, "file": a parent is a file, "neg": negative size, "zero": nothing to map, "link": a symbolic link to nothing is in the way
	Size   int       `json:"size"`   // requested
	Ops    []WriteOp `json:"ops"`    //
	Remove bool      `json:"remove"` // at unmapping
	Gone   bool      `json:"gone"`   // the file is removed by someone else before unmapping
	After  []WriteOp `json:"after"`  // writes after unmapping
	Again  bool      `json:"again"`  // open the same path again while the first is still mapped
}

func genC26(t *rapid.T) CaseC26 {
	x := CaseC26{Dirs: rapid.IntRange(0, 3).Draw(t, "dirs"), Old: -1}
	x.Size = pick(t, "size", 1, 8, 40, 100, 4095, 4096, 4097, 8192, 12289, pick(t, "large", 40, 65535, 65536, 65537, 1<<20, 1<<20+1, 5000000), rapid.IntRange(1, 20000).Draw(t, "anysize"))
	switch rapid.IntRange(0, 9).Draw(t, "old") {
	case 0, 1, 2, 3:
	case 4:
		x.Old = 0
	case 5:
		x.Old = x.Size
	case 6, 7:
		x.Old = rapid.IntRange(0, 30000).Draw(t, "oldlen")
	case 8:
		x.Old, x.Link = rapid.IntRange(0, 100).Draw(t, "linklen"), true
	case 9:
		x.Fail = pick(t, "fail", "dir", "file", "neg", "zero", "link")
	}
	k := rapid.IntRange(0, 8).Draw(t, "nops")
	for i := 0; i < k; i++ {
		x.Ops = append(x.Ops, genWriteOp(t, x.Size, true))
	}
	x.Remove = rapid.Bool().Draw(t, "remove")
	x.Gone = chance(t, "gone", 8)
	x.Again = chance(t, "again", 5)
	k = rapid.IntRange(0, 2).Draw(t, "nafter")
	for i := 0; i < k; i++ {
		x.After = append(x.After, genWriteOp(t, x.Size, false))
	}
	return x
}

// countFDs counts the descriptors open on files below the scratch directory.
func countFDs(c *Ctx) (n int) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		c.Infraf("%v", err)
	}
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, filepath.Join(c.Dir, "tmp")+"/") || strings.HasPrefix(l, filepath.Join(c.Dir, "c26")+"/") {
			n++
		}
	}
	return n
}

func countMaps(c *Ctx, what string) int {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		c.Infraf("%v", err)
	}
	return bytes.Count(b, []byte(what))
}

func runC26(c *Ctx, x CaseC26) {
	root := filepath.Join(c.Dir, "c26")
	_ = os.RemoveAll(root)
	c.Defer(func() { os.RemoveAll(root) })
	if err := os.MkdirAll(root, 0755); err != nil {
		c.Infraf("%v", err)
	}
	dir := root
	for i := 0; i < x.Dirs; i++ {
		dir = filepath.Join(dir, fmt.Sprintf("d%d", i))
	}
	path := filepath.Join(dir, "file")
	put := func(p string, n int) []byte {
		b := bytes.Repeat([]byte{0xab, 0xcd, 1}, n/3+1)[:n]
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			c.Infraf("%v", err)
		}
		if err := os.WriteFile(p, b, 0644); err != nil {
			c.Infraf("%v", err)
		}
		return b
	}
	var target []byte
	switch {
	case x.Fail == "dir":
		put(filepath.Join(path, "occupied"), 3)
	case x.Fail == "file":
		put(dir+"x", 3)
		path = filepath.Join(dir+"x", "sub", "file")
	case x.Fail == "link":
		if err := os.MkdirAll(dir, 0755); err != nil {
			c.Infraf("%v", err)
		}
		if err := os.Symlink(filepath.Join(root, "target"), path); err != nil {
			c.Infraf("%v", err)
		}
	case x.Link:
		target = put(filepath.Join(root, "target"), x.Old)
		if err := os.MkdirAll(dir, 0755); err != nil {
			c.Infraf("%v", err)
		}
		if err := os.Symlink(filepath.Join(root, "target"), path); err != nil {
			c.Infraf("%v", err)
		}
	case x.Old >= 0:
		put(path, x.Old)
	}
	size := x.Size
	if x.Fail == "neg" {
		size = -size
	}
	if x.Fail == "zero" {
		size = 0
	}
	fds := countFDs(c)
	w, err := bytewriter.NewMemoryMappedWriter(path, size)
	if x.Fail != "" {
		if err == nil && x.Fail == "zero" {
			err = w.Unmap(true)
		} else if x.Fail == "link" {
			// replaced or refused, but nothing is written where it leads
			if err == nil {
				if fi, lerr := os.Lstat(path); lerr != nil || !fi.Mode().IsRegular() || fi.Size() != int64(size) {
					c.Failf("opened where a link to nothing was, but there is no file of %d bytes (%v)", size, lerr)
				}
				err = w.Unmap(true)
			}
			if _, lerr := os.Lstat(filepath.Join(root, "target")); lerr == nil {
				c.Failf("opening (%v) created the file that a link in its place leads to", err)
			}
		} else if err == nil {
			c.Failf("opening succeeded although it cannot (%s)", x.Fail)
		}
		if n := countFDs(c); n != fds {
			c.Failf("a failed open (%s) left %d descriptors, %d before", x.Fail, n, fds)
		}
		c.Label("failed open")
		return
	}
	if err != nil {
		c.Failf("opening %s, %d bytes: %v", path, size, err)
	}
	mapped := true
	c.Defer(func() {
		if mapped {
			_ = w.Unmap(false)
		}
	})
	shadow := make([]byte, size)
	check := func(at string) {
		if w.Len() != size || !bytes.Equal(w.Bytes(), shadow) {
			c.Failf("%s: the buffer is not what was written", at)
		}
		if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, shadow) {
			c.Failf("%s: the file (%d bytes, %v) is not what was written (%d bytes)", at, len(b), err, len(shadow))
		}
		if x.Link {
			if b, err := os.ReadFile(filepath.Join(root, "target")); err != nil || !bytes.Equal(b, target) {
				c.Failf("%s: the file the old link pointed to changed (%v)", at, err)
			}
		}
	}
	if fi, err := os.Lstat(path); err != nil || !fi.Mode().IsRegular() {
		c.Failf("after opening the path is %v (%v)", fi, err)
	}
	check("new")
	writes := func(w bytewriter.Writer, check func(string)) (n int) {
		for i, o := range x.Ops {
			at := fmt.Sprintf("write %d: %+v on %d bytes", i, o, size)
			end, ok := o.apply(shadow)
			off, err := o.call(w)
			if ok != (err == nil) || ok && off != end {
				c.Failf("%s: offset %d, error %v; expected success %v, offset %d", at, off, err, ok, end)
			}
			if ok {
				n++
			}
			check(at)
		}
		return n
	}
	n := writes(w, check)
	if x.Again {
		c.Label("second writer on the path")
		old := append([]byte{}, shadow...)
		w2, err := bytewriter.NewMemoryMappedWriter(path, size)
		if err != nil {
			c.Failf("opening the path again: %v", err)
		}
		if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, make([]byte, size)) {
			c.Failf("opened again, the file is not zeroed (%v)", err)
		}
		if !bytes.Equal(w.Bytes(), old) {
			c.Failf("opening the path again changed the first writer's bytes")
		}
		if err := w.Unmap(false); err != nil {
			c.Failf("Unmap of the replaced writer: %v", err)
		}
		w = w2
		for i := range shadow {
			shadow[i] = 0
		}
		check("opened again")
		writes(w, check)
	}
	if x.Gone {
		if err := os.Remove(path); err != nil {
			c.Failf("the mapped file cannot be removed: %v", err)
		}
	}
	err = w.Unmap(x.Remove)
	mapped = false
	if x.Gone && x.Remove {
		if err == nil {
			c.Failf("Unmap could not remove the file but reported success")
		}
	} else if err != nil {
		c.Failf("Unmap(%v): %v", x.Remove, err)
	}
	kept := func(at string) {
		b, err := os.ReadFile(path)
		if x.Remove || x.Gone {
			if !os.IsNotExist(err) {
				c.Failf("%s: the removed file is there (%v)", at, err)
			}
		} else if err != nil || !bytes.Equal(b, shadow) {
			c.Failf("%s: the kept file (%d bytes, %v) is not what was written last", at, len(b), err)
		}
	}
	kept("after unmapping")
	if m := countFDs(c); m != fds {
		c.Failf("%d descriptors after unmapping, %d before opening", m, fds)
	}
	if m := countMaps(c, "/c26/"); m != 0 {
		c.Failf("%d mappings of the file left after unmapping", m)
	}
	for i, o := range x.After {
		if _, enc, _ := o.value(); len(enc) == 0 {
			continue
		}
		if off, err := o.call(w); err == nil {
			c.Failf("write %d after unmapping %+v: succeeded (offset %d)", i, o, off)
		}
		kept(fmt.Sprintf("write %d after unmapping", i))
	}
	if n > 0 {
		c.Nontrivial()
	}
}

func init() {
	register(Prop{ID: "C17", Race: true,
		Rule:  "case: a buffer size, a series of writes through every method with values that have and have not a fixed encoding, at offsets inside, at the edges, negative and far outside, and goroutines writing disjoint ranges; non-trivial when a write succeeds and another is refused or writes run concurrently",
		Quick: Budget{Cases: 12000},
	}, genC17, runC17)
	register(Prop{ID: "C26", Fuzz: true,
		Rule:  "case: what is at the path before, a size, writes, how it is unmapped, writes afterwards; non-trivial when at least one write succeeds",
		Quick: Budget{Cases: 12000},
	}, genC26, runC26)
}
