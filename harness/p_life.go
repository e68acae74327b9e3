package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/performancecopilot/speed/v4"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ C27

// A LOp is one call on one of the clients made by one of several goroutines.
type LOp struct {
	A string `json:"a"` // start stop flag reg has count inc wait
	C int    `json:"c,omitempty"`
	N int    `json:"n,omitempty"`
}

type CaseC27 struct {
	Clients int     `json:"clients"` // of one registry
	Same    bool    `json:"same,omitempty"`
	Erase   bool    `json:"erase,omitempty"`
	Pre     int     `json:"pre,omitempty"` // mask of the metrics registered beforehand
	Ballast int     `json:"ballast,omitempty"`
	Active  bool    `json:"active,omitempty"` // the first client is started beforehand
	Progs   [][]LOp `json:"progs"`
}

const lifeMetrics = 4

func lifeName(n int) string {
	if n == 2 {
		return "life." + strings.Repeat("x", 70)
	}
	return fmt.Sprintf("life.m%d", n)
}

func genC27(t *rapid.T) CaseC27 {
	x := CaseC27{
		Clients: rapid.IntRange(1, 2).Draw(t, "clients"),
		Erase:   chance(t, "erase", 3),
		Pre:     rapid.IntRange(0, 1<<lifeMetrics-1).Draw(t, "pre"),
		Ballast: pick(t, "ballast", 0, 0, 10, 60),
		Active:  chance(t, "active", 3),
	}
	x.Same = x.Clients == 2 && chance(t, "same", 3)
	g := rapid.IntRange(2, 4).Draw(t, "g")
	for i := 0; i < g; i++ {
		var p []LOp
		n := rapid.IntRange(1, 6).Draw(t, "nops")
		for j := 0; j < n; j++ {
			o := LOp{A: pick(t, "a", "start", "start", "start", "stop", "stop", "stop", "flag", "flag", "reg", "reg", "has", "count", "inc", "wait")}
			switch o.A {
			case "start", "stop":
				o.C = rapid.IntRange(0, x.Clients-1).Draw(t, "c")
			case "flag":
				o.C = rapid.IntRange(0, x.Clients-1).Draw(t, "c")
				o.N = pick(t, "f", 0, 1, 2, 3, 4)
			case "reg", "has", "inc":
				o.N = rapid.IntRange(0, lifeMetrics-1).Draw(t, "n")
			case "wait":
				o.N = pick(t, "us", 3, 30, 150, 600)
			}
			p = append(p, o)
		}
		x.Progs = append(x.Progs, p)
	}
	return x
}

func init() {
	register(Prop{ID: "C27", Race: true, Tries: 20,
		Rule:   "case: one client, or two clients of one registry (possibly of one file), and two to four goroutines calling Start, Stop, SetFlag, Register, HasMetric, MetricCount and Inc, built with the race detector; the recorded calls together with the files seen after them must be linearizable against a sequential model of who is active, what is registered, the flags and the files, and every file must decode. Non-trivial: a Start and a Stop, or two of either, of different goroutines overlap",
		Assume: []string{"the scheduler of eight cores and the race detector's own perturbation supply the interleavings"},
		Quick:  Budget{Cases: 2000, Shards: 6}, Deep: Budget{Cases: 20000, Shards: 6},
	}, genC27, runC27)
}

// lifeFile is what a client's path holds.
type lifeFile struct {
	There bool
	Mask  uint8
	Flag  int8
}

type lifeState struct {
	Act  int8 // 0, or the number of the active client counted from 1
	Mask uint8
	Flag [2]int8
	File [2]lifeFile
}

type lcall struct {
	LOp
	OK        bool
	Out       int
	Seen      lifeFile
	Err       string
	Call, Ret int64
	G         int
}

func (r lcall) String() string {
	res := "ok"
	if r.Err != "" {
		res = "refused (" + r.Err + ")"
	}
	switch r.A {
	case "has":
		res = fmt.Sprint(r.OK)
	case "count":
		res = fmt.Sprint(r.Out)
	case "file":
		res = fmt.Sprintf("%+v", r.Seen)
	}
	return fmt.Sprintf("g%d:%s c%d/%d = %s [%d..%d]", r.G, r.A, r.C, r.N, res, r.Call, r.Ret)
}

func (x CaseC27) step(s lifeState, r lcall) (lifeState, bool) {
	path := r.C
	if x.Same {
		path = 0
	}
	switch r.A {
	case "start":
		if s.Act != 0 && s.Act != int8(r.C+1) {
			return s, !r.OK
		}
		s.Act = int8(r.C + 1)
		s.File[path] = lifeFile{true, s.Mask, s.Flag[r.C]}
		return s, r.OK
	case "stop":
		if s.Act != int8(r.C+1) {
			return s, !r.OK
		}
		s.Act = 0
		if x.Erase {
			s.File[path] = lifeFile{}
		}
		return s, r.OK
	case "flag":
		if s.Act != 0 {
			return s, !r.OK
		}
		s.Flag[r.C] = int8(r.N)
		return s, r.OK
	case "reg":
		if s.Act != 0 || s.Mask&(1<<r.N) != 0 {
			return s, !r.OK
		}
		s.Mask |= 1 << r.N
		return s, r.OK
	case "has":
		return s, r.OK == (s.Mask&(1<<r.N) != 0)
	case "count":
		return s, r.Out == x.Ballast+bits(uint32(s.Mask))
	case "file":
		return s, r.Seen == s.File[path]
	}
	panic("harness: " + r.A)
}

func (x CaseC27) linearizable(hs []lcall, init lifeState) bool {
	sort.SliceStable(hs, func(i, j int) bool { return hs[i].Call < hs[j].Call })
	if len(hs) > 40 {
		panic(infraError{"history too long"})
	}
	type key struct {
		done uint64
		s    lifeState
	}
	dead := map[key]bool{}
	full := uint64(1)<<len(hs) - 1
	var try func(done uint64, s lifeState) bool
	try = func(done uint64, s lifeState) bool {
		if done == full {
			return true
		}
		if dead[key{done, s}] {
			return false
		}
		first := int64(1) << 62
		for i := range hs {
			if done&(1<<i) == 0 && hs[i].Ret < first {
				first = hs[i].Ret
			}
		}
		for i := range hs {
			if done&(1<<i) != 0 || hs[i].Call > first {
				continue
			}
			if n, ok := x.step(s, hs[i]); ok && try(done|1<<i, n) {
				return true
			}
		}
		dead[key{done, s}] = true
		return false
	}
	return try(0, init)
}

func runC27(c *Ctx, x CaseC27) {
	was := speed.EraseFileOnStop
	speed.EraseFileOnStop = x.Erase
	c.Defer(func() { speed.EraseFileOnStop = was })
	fds, maps := countFDs(c), countMaps(c, c.MMVDir())

	s := newSession(c, "life0")
	clients := []*speed.PCPClient{s.Client}
	paths := []string{s.Path}
	if x.Clients == 2 {
		reg, ok := s.Client.Registry().(*speed.PCPRegistry)
		if !ok {
			c.Failf("the registry of a client is a %T", s.Client.Registry())
		}
		name := "life1"
		if x.Same {
			name = "life0"
		}
		cl, err := speed.NewPCPClientWithRegistry(name, reg)
		if err != nil {
			c.Failf("NewPCPClientWithRegistry(%q): %v", name, err)
		}
		clients = append(clients, cl)
		paths = append(paths, filepath.Join(c.MMVDir(), name))
	}
	c.Defer(func() {
		for i, cl := range clients {
			_ = cl.Stop()
			_ = os.Remove(paths[i])
		}
	})
	// metric 1 is a vector, the others single counters
	var (
		objs [lifeMetrics]speed.Metric
		incs [lifeMetrics]func() error
	)
	for n := range objs {
		if n == 1 {
			v, err := speed.NewPCPCounterVector(map[string]int64{"a": 0, "b": 0}, lifeName(n))
			if err != nil {
				c.Failf("%v", err)
			}
			objs[n], incs[n] = v, func() error { return v.Inc(1, "b") }
			continue
		}
		v, err := speed.NewPCPCounter(0, lifeName(n))
		if err != nil {
			c.Failf("%v", err)
		}
		objs[n], incs[n] = v, func() error { return v.Inc(1) }
	}
	st := lifeState{Flag: [2]int8{int8(speed.ProcessFlag), int8(speed.ProcessFlag)}}
	for i := 0; i < x.Ballast; i++ {
		m, err := speed.NewPCPCounter(int64(i), fmt.Sprintf("ballast.b%d", i), fmt.Sprintf("text %d", i))
		if err == nil {
			err = clients[0].Register(m)
		}
		if err != nil {
			c.Failf("%v", err)
		}
	}
	for n := range objs {
		if x.Pre&(1<<n) != 0 {
			if err := clients[0].Register(objs[n]); err != nil {
				c.Failf("%v", err)
			}
			st.Mask |= 1 << n
		}
	}
	if x.Active {
		if err := clients[0].Start(); err != nil {
			c.Failf("%v", err)
		}
		st, _ = x.step(st, lcall{LOp: LOp{A: "start"}, OK: true})
	}

	var all []lcall
	base := time.Now()
	call := func(g int, o LOp) lcall {
		r := lcall{LOp: o, G: g}
		if r.C >= len(clients) || r.N < 0 || r.C < 0 {
			r.C = 0
		}
		cl := clients[r.C]
		var err error
		r.Call = int64(time.Since(base))
		switch r.A {
		case "start":
			err = cl.Start()
		case "stop":
			err = cl.Stop()
		case "flag":
			err = cl.SetFlag(speed.MMVFlag(r.N))
		case "reg":
			err = cl.Register(objs[r.N%lifeMetrics])
		case "has":
			r.OK = cl.Registry().HasMetric(lifeName(r.N % lifeMetrics))
		case "count":
			r.Out = cl.Registry().MetricCount()
		case "inc":
			if e := incs[r.N%lifeMetrics](); e != nil {
				c.Failf("Inc(1): %v", e)
			}
		case "wait":
			for t := time.Now(); time.Since(t) < time.Duration(r.N)*time.Microsecond; {
			}
		default:
			panic("harness: " + r.A)
		}
		r.Ret = int64(time.Since(base))
		if r.A != "has" {
			if r.OK = err == nil; err != nil {
				r.Err = err.Error()
			}
		}
		return r
	}

	gate := make(chan struct{})
	res := make([][]lcall, len(x.Progs))
	fails := make([]interface{}, len(x.Progs))
	var wg sync.WaitGroup
	for g := range x.Progs {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer catch(&fails[g])
			<-gate
			for _, o := range x.Progs[g] {
				res[g] = append(res[g], call(g, o))
			}
		}(g)
	}
	close(gate)
	wg.Wait()
	for _, f := range fails {
		if f != nil {
			panic(f)
		}
	}
	for _, r := range res {
		all = append(all, r...)
	}
	cycle := func(a string) bool { return a == "start" || a == "stop" }
	for i, p := range all {
		for _, q := range all[:i] {
			if cycle(p.A) && cycle(q.A) && p.G != q.G && p.Call < q.Ret && q.Call < p.Ret {
				c.Nontrivial()
				c.Label(q.A + " during " + p.A)
			}
		}
	}

	// what is left behind, before and after the last Stop
	var vals [2][2]map[string]interface{}
	look := func(k int) {
		for i := range clients {
			r := lcall{LOp: LOp{A: "file", C: i}, G: -1, Call: int64(time.Since(base))}
			r.Seen, vals[k][i] = lifeLook(c, x, paths[i], all)
			r.Ret = int64(time.Since(base))
			all = append(all, r)
		}
	}
	last := -1
	look(0)
	for i := range clients {
		r := call(-1, LOp{A: "stop", C: i})
		if r.OK {
			last = i
		}
		all = append(all, r)
	}
	look(1)
	for i := range clients {
		r := call(-1, LOp{A: "stop", C: i})
		all = append(all, r)
	}

	var hist []lcall
	for _, r := range all {
		if r.A != "inc" && r.A != "wait" {
			hist = append(hist, r)
		}
	}
	if !x.linearizable(hist, st) {
		c.Failf("no order of these calls explains their results and the files left behind: %v", hist)
	}

	// the counts in the file of a client are those of when it was stopped
	for i := range clients {
		if x.Same && last >= 0 && i != last {
			continue
		}
		for k, v := range vals {
			for n := range objs {
				got, ok := v[i][lifeName(n)]
				if !ok {
					continue
				}
				lo, hi := lifeBounds(x, all, i, n, last)
				if g := got.(int64); g < lo || g > hi {
					c.Failf("the file of client %d has %d for %s, which was incremented %d to %d times before the client was last stopped (look %d): %v", i, g, lifeName(n), lo, hi, k, all)
				}
			}
		}
	}
	if last < 0 {
		c.Label("stopped in the end")
	} else {
		c.Label("active in the end")
	}
	if f, m := countFDs(c), countMaps(c, c.MMVDir()); f != fds || m != maps {
		c.Failf("descriptors open on files went from %d to %d and mappings from %d to %d although every client is stopped: %v", fds, f, maps, m, all)
	}
}

// lifeBounds gives the least and the most increments that metric n can have in the file of client i.
func lifeBounds(x CaseC27, all []lcall, i, n, last int) (lo, hi int64) {
	from, to := int64(1)<<62, int64(1)<<62 // the last Stop was called no sooner, and returned no later
	if i != last {
		// of the accepted ones, those which no other is known to follow
		var latest int64 = -1
		for _, r := range all {
			if r.A == "stop" && r.OK && (x.Same || r.C == i) && r.Call > latest {
				latest = r.Call
			}
		}
		if latest >= 0 {
			to = 0
			for _, r := range all {
				if r.A == "stop" && r.OK && (x.Same || r.C == i) && r.Ret >= latest {
					if r.Call < from {
						from = r.Call
					}
					if r.Ret > to {
						to = r.Ret
					}
				}
			}
		} else {
			from = 0
		}
	}
	for _, r := range all {
		if r.A == "inc" && r.N == n {
			if r.Ret < from {
				lo++
			}
			if r.Call < to {
				hi++
			}
		}
	}
	return
}

// lifeLook decodes the file at a path.
func lifeLook(c *Ctx, x CaseC27, path string, all []lcall) (f lifeFile, vals map[string]interface{}) {
	d, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return
	}
	if err != nil {
		c.Failf("%v", err)
	}
	im, err := parseImage(d)
	if err != nil {
		c.Failf("a file left behind: %v: %v", err, all)
	}
	f.There, f.Flag = true, int8(im.Flag)
	vals = map[string]interface{}{}
	ballast, per := 0, map[*IMetric]int{}
	for _, v := range im.Values {
		m := im.metricAt[v.Metric]
		per[m]++
		g := im.goVal(m.Type, v)
		if in := im.instAt[v.Inst]; v.Inst == 0 || in.Name == "b" {
			vals[m.Name] = g
		} else if g != int64(0) {
			c.Failf("instance %q of %q has %v, it was never incremented", in.Name, m.Name, g)
		}
	}
	for _, m := range im.Metrics {
		known := 1
		var b int
		if _, err := fmt.Sscanf(m.Name, "ballast.b%d", &b); err == nil {
			if g := vals[m.Name]; g != int64(b) {
				c.Failf("%q has %v in the file, it was made with %d", m.Name, g, b)
			}
			ballast++
			known = 0
		}
		for n := 0; n < lifeMetrics; n++ {
			if m.Name == lifeName(n) {
				f.Mask |= 1 << n
				if known = 0; n == 1 && per[m] != 2 {
					c.Failf("%q has %d values in the file", m.Name, per[m])
				}
			}
		}
		if known != 0 {
			c.Failf("metric %q in the file was never registered", m.Name)
		}
	}
	if ballast != x.Ballast || len(im.Metrics) != ballast+bits(uint32(f.Mask)) {
		c.Failf("the file has %d metrics, %d of the %d registered beforehand: %v", len(im.Metrics), ballast, x.Ballast, all)
	}
	return
}
