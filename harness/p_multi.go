package main

import (
	"bytes"
	"fmt"
	"os"
	"sync"

	"github.com/performancecopilot/speed/v4"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ C22

type MOp struct {
	C  int    `json:"c"`
	A  string `json:"a"` // start stop update register flag count; cstart cstop cupdate act on all clients at once
	Op *Op    `json:"op,omitempty"`
	M  int    `json:"m,omitempty"` // which of the late metrics
}

type ClientSpec struct {
	Name    QStr         `json:"name"`
	Reg     []bool       `json:"reg"` // which of the shared domains are registered explicitly
	Metrics []MetricSpec `json:"metrics"`
	Late    []MetricSpec `json:"late,omitempty"`
}

type CaseC22 struct {
	Indoms  []IndomSpec  `json:"indoms"`
	Clients []ClientSpec `json:"clients"`
	Ops     []MOp        `json:"ops"`
	Erase   bool         `json:"erase,omitempty"` // files are removed when their client stops
}

var sharedKinds = []string{"inst", "inst", "inst", "hist", "hist", "singleton", "counter", "gauge", "cvec", "timer", "strinst"}

// Names of clients: unrelated, one continuing another, and differing in little.
var (
	plainNames   = []string{"client0", "client1", "client2", "client3"}
	relatedNames = []string{"app", "app.1", "app.1.tmp", "app-2"}
	otherNames   = []string{"app", "App", "app ", ".app"}
)

func genC22(t *rapid.T) CaseC22 {
	x := CaseC22{Erase: chance(t, "erase", 4)}
	n := rapid.IntRange(1, 2).Draw(t, "nd")
	for i := 0; i < n; i++ {
		d := genIndom(t, i, pick(t, "long", 1000000, 4))
		d.Name = QStr(fmt.Sprintf("dom%d", i))
		if chance(t, "big", 4) {
			for j := 0; j < 30; j++ {
				d.Insts = append(d.Insts, QStr(fmt.Sprintf("instance-%d", j)))
			}
		}
		x.Indoms = append(x.Indoms, d)
	}
	nc := rapid.IntRange(2, 4).Draw(t, "nc")
	names := pick(t, "names", plainNames, plainNames, relatedNames, otherNames)
	for i := 0; i < nc; i++ {
		cs := ClientSpec{Name: QStr(names[i])}
		for range x.Indoms {
			cs.Reg = append(cs.Reg, chance(t, "reg", 2))
		}
		k := rapid.IntRange(0, 4).Draw(t, "nm")
		for j := 0; j < k; j++ {
			m := genMetric(t, j, len(x.Indoms), 1000000, sharedKinds)
			if m.Kind != "strinst" {
				m.Name = QStr(fmt.Sprintf("m%d", j)) // the same names in all clients
			}
			cs.Metrics = append(cs.Metrics, m)
		}
		if chance(t, "late", 2) {
			m := genMetric(t, 9, len(x.Indoms), 1000000, sharedKinds)
			if m.Kind != "strinst" {
				m.Name = "late"
			}
			cs.Late = append(cs.Late, m)
		}
		x.Clients = append(x.Clients, cs)
	}
	k := rapid.IntRange(2, pick(t, "len", 14, 14, 14, 40)).Draw(t, "nops")
	for i := 0; i < k; i++ {
		o := MOp{C: rapid.IntRange(0, nc-1).Draw(t, "c"), A: pick(t, "a", "start", "start", "stop", "update", "update", "update", "register", "flag", "cstart", "cstart", "cstop", "cupdate")}
		if o.A == "update" || o.A == "cupdate" {
			ms := append(append([]MetricSpec{}, x.Clients[o.C].Metrics...), x.Clients[o.C].Late...)
			if len(ms) == 0 {
				o.A = "start"
			} else {
				op := genOp(t, ms)
				o.Op = &op
			}
		}
		x.Ops = append(x.Ops, o)
	}
	return x
}

func init() {
	register(Prop{ID: "C22", Race: true, Tries: 20,
		Rule:   "case: a history over two to four clients with own metrics on shared domain objects and the built-in histogram domain, with single and simultaneous starts, stops and updates, built with the race detector; after every step all files, states and reported values are compared with one model per client. Non-trivial: two clients using a common domain were active at the same time",
		Assume: []string{"simultaneous operations are interleaved by the scheduler of eight cores and the race detector's perturbation"},
		Quick:  Budget{Cases: 1500, Shards: 6}, Deep: Budget{Cases: 60000, Shards: 6},
	}, genC22, runC22)
}

// lookAt compares what a shared domain says about itself with what it was made from.
func lookAt(c *Ctx, in *LIndom) {
	if in == nil {
		return
	}
	if n, d := in.Obj.Name(), in.Obj.Description(); n != in.Name || d != in.Short+"\n"+in.Long {
		c.Failf("the shared domain %q is called %q and describes itself as %q", in.Name, n, d)
	}
	if n := in.Obj.InstanceCount(); n != len(in.Insts) || !in.Obj.MatchInstances(in.Insts) {
		c.Failf("the shared domain %q has %d instances, expected %q", in.Name, n, in.Insts)
	}
}

type multi struct {
	*Session
	late   []MetricSpec
	bytes  []byte // last known content of the file, nil: no file
	usesIn map[string]bool
}

func (m *multi) file() []byte {
	b, err := os.ReadFile(m.Path)
	if err != nil {
		return nil
	}
	return b
}

// verify compares everything about one client with its model.
func (m *multi) verify(c *Ctx, at string) {
	if m.Active {
		d := m.read()
		im, err := parseImage(d)
		if err != nil {
			c.Failf("%s: the file of %s is not a valid image: %v", at, m.Name, err)
		}
		m.Img = im
		if m.Slots, err = m.decode(im); err != nil {
			c.Failf("%s: the file of %s: %v", at, m.Name, err)
		}
		if err := m.checkValues(im, m.Slots); err != nil {
			c.Failf("%s: the file of %s: %v", at, m.Name, err)
		}
		if im.Cluster != fnvBits(m.Name, 12) || im.Flag != m.Flag {
			c.Failf("%s: the file of %s has cluster %d and flag %d", at, m.Name, im.Cluster, im.Flag)
		}
		m.bytes = d
	}
	if err := m.checkReported(); err != nil {
		c.Failf("%s: %s: %v", at, m.Name, err)
	}
	if got := m.Client.Registry().MetricCount(); got != len(m.Metrics) {
		c.Failf("%s: %s has %d metrics, %d registered", at, m.Name, got, len(m.Metrics))
	}
	if got := m.Client.Registry().InstanceDomainCount(); got != len(m.Indoms) {
		c.Failf("%s: %s has %d domains, %d registered", at, m.Name, got, len(m.Indoms))
	}
}

func runC22(c *Ctx, x CaseC22) {
	speed.EraseFileOnStop = x.Erase
	c.Defer(func() { speed.EraseFileOnStop = false })
	var objs []*LIndom
	for _, sp := range x.Indoms {
		in := makeIndom(sp)
		if in == nil {
			return
		}
		objs = append(objs, in)
	}
	var cl []*multi
	for _, cs := range x.Clients {
		s := newSession(c, string(cs.Name))
		s.Objs = objs
		for i, r := range cs.Reg {
			if r && i < len(objs) {
				if err := s.Client.RegisterIndom(objs[i].Obj); err != nil {
					c.Failf("RegisterIndom: %v", err)
				}
				s.Indoms = append(s.Indoms, objs[i])
			}
		}
		for _, sp := range cs.Metrics {
			s.addMetric(sp)
		}
		cl = append(cl, &multi{Session: s, late: cs.Late})
	}
	common := func() {
		seen := map[string]int{}
		for _, m := range cl {
			if m.Active {
				for _, i := range m.Indoms {
					if len(i.Insts) > 0 {
						seen[i.Name]++
					}
				}
			}
		}
		for _, n := range seen {
			if n > 1 {
				c.Nontrivial()
				c.Label("shared while active")
				return
			}
		}
	}
	apply := func(m *multi, op Op) error {
		if len(m.All) == 0 {
			return nil
		}
		lm := m.All[op.M%len(m.All)]
		if lm == nil {
			return nil
		}
		if lm.Spec.Kind == "timer" && op.A != "set" {
			op.A = "inc"
		}
		return lm.commit(lm.update(op))
	}
	for i, o := range x.Ops {
		at := fmt.Sprintf("step %d (%s %d)", i, o.A, o.C)
		m := cl[o.C%len(cl)]
		touched := map[*multi]bool{m: true}
		wasActive := map[*multi]bool{}
		for _, m := range cl {
			wasActive[m] = m.Active
		}
		start := func(m *multi) error {
			err := m.Client.Start()
			if err != nil {
				return fmt.Errorf("Start of %s: %v", m.Name, err)
			}
			m.Active = true
			return nil
		}
		stop := func(m *multi) error {
			err := m.Client.Stop()
			if err != nil {
				return fmt.Errorf("Stop of %s: %v", m.Name, err)
			}
			m.Active = false
			return nil
		}
		var err error
		together := func(pick func(*multi) bool, f func(*multi) error) {
			var wg sync.WaitGroup
			var mu sync.Mutex
			gate := make(chan struct{})
			fails := make([]interface{}, len(cl))
			for k, m := range cl {
				touched[m] = true
				if !pick(m) {
					continue
				}
				wg.Add(1)
				go func(k int, m *multi) {
					defer wg.Done()
					defer catch(&fails[k])
					<-gate
					if e := f(m); e != nil {
						mu.Lock()
						err = e
						mu.Unlock()
					}
				}(k, m)
			}
			// what the shared domains say is read meanwhile
			var looked interface{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer catch(&looked)
				<-gate
				for r := 0; r < 5; r++ {
					for _, in := range objs {
						lookAt(c, in)
					}
				}
			}()
			close(gate)
			wg.Wait()
			if looked != nil {
				panic(looked)
			}
			for _, f := range fails {
				if f != nil {
					panic(f)
				}
			}
			c.Label(o.A)
		}
		switch o.A {
		case "start":
			if m.Active {
				continue
			}
			err = start(m)
		case "stop":
			if m.Active {
				err = stop(m)
			} else if e := m.Client.Stop(); e == nil {
				c.Failf("%s: stopping an inactive client succeeded", at)
			}
		case "update":
			err = apply(m, *o.Op)
		case "register":
			for _, sp := range m.late {
				if m.Active {
					if sp.Kind == "strinst" {
						if _, e := m.registerString(sp); e == nil {
							c.Failf("%s: registration with an active client succeeded", at)
						}
					} else if lm := makeMetric(sp, objs); lm != nil {
						if e := m.Client.Register(lm.Obj); e == nil {
							c.Failf("%s: registration with an active client succeeded", at)
						}
					}
				} else {
					m.addMetric(sp)
					m.late = nil
				}
			}
		case "flag":
			e := m.Client.SetFlag(speed.NoPrefixFlag)
			if (e == nil) == m.Active {
				c.Failf("%s: SetFlag: %v, active: %v", at, e, m.Active)
			}
			if e == nil {
				m.Flag = int32(speed.NoPrefixFlag)
			}
		case "cstart":
			together(func(m *multi) bool { return !m.Active }, start)
		case "cstop":
			together(func(m *multi) bool { return m.Active }, stop)
		case "cupdate":
			together(func(m *multi) bool { return true }, func(m *multi) error {
				for r := 0; r < 10; r++ {
					if e := apply(m, *o.Op); e != nil {
						return e
					}
				}
				return nil
			})
		}
		if err != nil {
			c.Failf("%s: %v", at, err)
		}
		for _, m := range cl {
			was := m.bytes
			now := m.file()
			if !touched[m] && !bytes.Equal(was, now) {
				c.Failf("%s: the file of %s changed", at, m.Name)
			}
			m.verify(c, at)
			if x.Erase && !m.Active && now != nil {
				c.Failf("%s: %s is stopped and its file is still there", at, m.Name)
			}
			if !m.Active && !wasActive[m] && !bytes.Equal(was, now) {
				c.Failf("%s: the kept file of %s changed", at, m.Name)
			}
			m.bytes = now
		}
		common()
	}
}
