package main

import (
	"fmt"
	"math"
	"os"
	"runtime"
	"sync/atomic"
	"syscall"
	"unsafe"

	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ C20

type CaseC20 struct {
	Reg    RegSpec `json:"reg"`
	Prog   []Op    `json:"prog"`
	Rounds int     `json:"rounds"`
}

var numericKinds = []string{"singleton", "singleton", "inst", "counter", "gauge", "cvec", "gvec", "hist", "timer"}

// wideVal draws values of a numeric type most of whose bytes differ.
func wideVal(t *rapid.T, ty int) Val {
	n := pick(t, "wide", int64(0), -1, 0x0102030405060708, 0x7fffffffffffffff, -0x123456789abcdef, 0x00ff00ff00ff00ff)
	switch ty {
	case tInt32:
		return Val{"int32", QStr(fmt.Sprint(int32(n ^ n>>32)))}
	case tUint32:
		return Val{"uint32", QStr(fmt.Sprint(uint32(n ^ n>>32)))}
	case tInt64:
		return Val{"int64", QStr(fmt.Sprint(n))}
	case tUint64:
		return Val{"uint64", QStr(fmt.Sprint(uint64(n)))}
	case tFloat:
		return Val{"float32", pick(t, "f32", QStr("0"), "-1.2345678", "3.4028235e38", "1e-45", "7.6543e-12")}
	}
	return Val{"float64", pick(t, "f64", QStr("0"), "-1.2345678912345", "1.7976931348623157e308", "5e-324", "7.654321234567e-112")}
}

func genC20(t *rapid.T) CaseC20 {
	x := CaseC20{Rounds: rapid.IntRange(20, 600).Draw(t, "rounds")}
	x.Reg.Client = "live"
	x.Reg.Indoms = []IndomSpec{{Name: "dom", Insts: []QStr{"a", "b", "c"}}}
	n := rapid.IntRange(1, 3).Draw(t, "n")
	for i := 0; i < n; i++ {
		m := genMetric(t, i, 1, 1000, numericKinds)
		m.Name = QStr(fmt.Sprintf("live.m%d", i))
		if chance(t, "v2", 4) {
			m.Name = QStr(fmt.Sprintf("live.m%d", i)) + "_a_name_so_long_that_version_two_of_the_format_is_needed_for_it"
		}
		if m.Type == tString {
			m.Type = tUint64
		}
		if m.Kind == "singleton" || m.Kind == "inst" {
			m.Vals = []Val{wideVal(t, m.Type)}
		}
		x.Reg.Metrics = append(x.Reg.Metrics, m)
	}
	k := rapid.IntRange(2, 8).Draw(t, "k")
	for i := 0; i < k; i++ {
		o := genOp(t, x.Reg.Metrics)
		o.Must = false
		sp := x.Reg.Metrics[o.M]
		switch sp.Kind {
		case "singleton", "inst":
			v := wideVal(t, sp.Type)
			o.V = &v
			if o.I < 0 {
				o.I = 0
			}
		case "counter", "cvec":
			if o.A == "inc" || o.A == "incall" {
				v := Val{"int64", QStr(fmt.Sprint(rapid.Int64Range(1, 1<<uint(rapid.IntRange(1, 52).Draw(t, "bits"))).Draw(t, "inc")))}
				o.V = &v
			}
		case "gauge", "gvec":
			if chance(t, "wide", 2) {
				v := wideVal(t, tDouble)
				o.V = &v
			}
		}
		x.Prog = append(x.Prog, o)
	}
	return x
}

func init() {
	register(Prop{ID: "C20", No32: true, Tries: 10,
		Rule:   "case: an active client whose numeric metrics one thread updates thousands of times while another thread polls the mapped file with aligned loads; every number it sees must be one the metric held, counters never smaller than before. Non-trivial: the reader saw at least three different values of one metric",
		Assume: []string{"the reader loads a value with one aligned access of its size, as PCP's MMV agent does on 64-bit machines"},
		Quick:  Budget{Cases: 2000, Shards: 4}, Deep: Budget{Cases: 100000, Shards: 4},
	}, genC20, runC20)
}

type liveCell struct {
	m     *LMetric
	inst  string
	off   uint64
	wide  bool
	seen  []uint64 // consecutive different values, capped
	seenM map[uint64]bool
	held  map[uint64]bool
	back  [2]int64
}

func runC20(c *Ctx, x CaseC20) {
	s := newSession(c, "live")
	s.build(x.Reg)
	s.start()
	s.syncSlots()
	f, err := os.Open(s.Path)
	if err != nil {
		c.Failf("the published file cannot be opened: %v", err)
	}
	defer f.Close()
	mem, err := syscall.Mmap(int(f.Fd()), 0, len(s.Snap), syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		c.Failf("the published file of %d bytes cannot be mapped: %v", len(s.Snap), err)
	}
	defer syscall.Munmap(mem)
	var cells []*liveCell
	for _, m := range s.Metrics {
		for inst := range m.Vals {
			l := &liveCell{m: m, inst: inst, off: s.Slots[m][inst].Off, held: map[uint64]bool{}, seenM: map[uint64]bool{}}
			l.wide = m.Type != tInt32 && m.Type != tUint32 && m.Type != tFloat
			if l.off%8 != 0 {
				c.Failf("the value of metric %q is at offset %d, not aligned to 8", m.Name, l.off)
			}
			cells = append(cells, l)
		}
	}
	load := func(l *liveCell) uint64 {
		if l.wide {
			return canonBits(l.m.Type, atomic.LoadUint64((*uint64)(unsafe.Pointer(&mem[l.off]))))
		}
		return canonBits(l.m.Type, uint64(atomic.LoadUint32((*uint32)(unsafe.Pointer(&mem[l.off])))))
	}
	own := func(l *liveCell) {
		v := l.m.Vals[l.inst]
		l.held[rawBits(v)] = true
	}
	for _, l := range cells {
		own(l)
		if got := load(l); !l.held[got] {
			c.Failf("metric %q instance %q holds %#x in the file after Start, %s was registered", l.m.Name, l.inst, got, show(l.m.Vals[l.inst]))
		}
	}
	var stop int32
	done := make(chan struct{})
	ready := make(chan struct{})
	go func() {
		defer close(done)
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		close(ready)
		for {
			last := atomic.LoadInt32(&stop) != 0
			for _, l := range cells {
				v := load(l)
				if n := len(l.seen); n == 0 || l.seen[n-1] != v {
					if l.m.Sem == 1 && l.m.Type == tInt64 && n > 0 && int64(v) < int64(l.seen[n-1]) && l.back == [2]int64{} && isCounter(l.m) {
						l.back = [2]int64{int64(l.seen[n-1]), int64(v)}
					}
					if n < 4000 {
						l.seen = append(l.seen, v)
					} else {
						l.seen[n-1] = v
					}
					l.seenM[v] = true
				}
			}
			if last {
				return
			}
		}
	}()
	<-ready
	rounds := x.Rounds
	if c.Replay {
		rounds += 5000
	}
	for r := 0; r < rounds; r++ {
		for _, op := range x.Prog {
			m := s.All[op.M%len(s.All)]
			if m == nil {
				continue
			}
			if err := m.commit(m.update(op)); err != nil {
				atomic.StoreInt32(&stop, 1)
				<-done
				c.Failf("%v", err)
			}
			for _, l := range cells {
				if l.m == m {
					own(l)
				}
			}
		}
	}
	atomic.StoreInt32(&stop, 1)
	<-done
	for _, l := range cells {
		if len(l.seenM) >= 3 {
			c.Nontrivial()
			c.Label("values seen live: " + l.m.Spec.Kind)
		}
		for v := range l.seenM {
			if !l.held[v] {
				c.Failf("a reader of the file found %#x as the value of %s metric %q instance %q (type %d), which it never held; it held %d values, such as %s", v, l.m.Spec.Kind, l.m.Name, l.inst, l.m.Type, len(l.held), someBits(l.held))
			}
		}
		if l.back != [2]int64{} {
			c.Failf("a reader of the file saw counter %q instance %q go from %d to %d", l.m.Name, l.inst, l.back[0], l.back[1])
		}
		if l.seen[len(l.seen)-1] != rawBits(l.m.Vals[l.inst]) {
			c.Failf("metric %q instance %q ends as %s, the file holds %#x", l.m.Name, l.inst, show(l.m.Vals[l.inst]), l.seen[len(l.seen)-1])
		}
	}
}

func isCounter(m *LMetric) bool { return m.Spec.Kind == "counter" || m.Spec.Kind == "cvec" }

func someBits(m map[uint64]bool) (s string) {
	for v := range m {
		s += fmt.Sprintf("%#x ", v)
		if len(s) > 60 {
			break
		}
	}
	return
}

// rawBits is the number a value is stored as, with one form for each of zero and NaN.
func rawBits(v interface{}) uint64 {
	switch x := v.(type) {
	case int32:
		return uint64(uint32(x))
	case uint32:
		return uint64(x)
	case int64:
		return uint64(x)
	case uint64:
		return x
	case float32:
		return canonBits(tFloat, uint64(math.Float32bits(x)))
	case float64:
		return canonBits(tDouble, math.Float64bits(x))
	}
	panic(fmt.Sprintf("harness: %T", v))
}

func canonBits(ty int32, b uint64) uint64 {
	switch ty {
	case tFloat:
		if f := math.Float32frombits(uint32(b)); f == 0 {
			return 0
		} else if f != f {
			return uint64(math.Float32bits(float32(math.NaN())))
		}
	case tDouble:
		if f := math.Float64frombits(b); f == 0 {
			return 0
		} else if f != f {
			return math.Float64bits(math.NaN())
		}
	}
	return b
}
