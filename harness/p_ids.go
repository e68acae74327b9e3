package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"

	"github.com/performancecopilot/speed/v4"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ C14

type CaseC14 struct {
	Client  QStr         `json:"client"`
	Second  QStr         `json:"second"`
	Metrics []QStr       `json:"metrics"`
	Indoms  []IndomSpec  `json:"indoms"` // each with an instance metric on it
	Order   []int        `json:"order"`
	Sub     bool         `json:"sub"` // ask another process as well
	Extra   []MetricSpec `json:"extra,omitempty"`
}

func genC14(t *rapid.T) CaseC14 {
	x := CaseC14{Client: genClientName(t)}
	x.Second = QStr(strings.TrimSuffix(string(x.Client), "2") + "2")
	n := rapid.IntRange(1, 6).Draw(t, "n")
	if chance(t, "many", 6) {
		n = rapid.IntRange(20, 60).Draw(t, "nmany")
	}
	seen := map[QStr]bool{}
	for i := 0; i < n; i++ {
		s := genName(t, "name", 8)
		if s == "" || seen[s] {
			s = QStr(fmt.Sprintf("%s.%d", pick(t, "stem", "a", "http.requests", "x", "disk.dev.read"), i))
		}
		if !seen[s] {
			seen[s] = true
			x.Metrics = append(x.Metrics, s)
		}
	}
	nd := rapid.IntRange(0, 3).Draw(t, "nd")
	for i := 0; i < nd; i++ {
		in := genIndom(t, i, 8)
		if len(in.Insts) == 0 || seen["d."+in.Name] {
			continue
		}
		seen["d."+in.Name] = true
		x.Indoms = append(x.Indoms, in)
	}
	if chance(t, "clash", 60) {
		x.Indoms = append(x.Indoms, clashing...)
	}
	idx := make([]int, len(x.Metrics))
	for i := range idx {
		idx[i] = i
	}
	x.Order = rapid.Permutation(idx).Draw(t, "order")
	x.Sub = chance(t, "sub", 10)
	if chance(t, "kinds", 4) {
		for _, k := range []string{"counter", "gauge", "timer", "cvec", "gvec", "hist"} {
			x.Extra = append(x.Extra, MetricSpec{Kind: k, Name: QStr("kind." + k), Insts: []QStr{"i", "j"}, Hi: 100, Sig: 1, TU: rapid.IntRange(0, 5).Draw(t, "tu")})
		}
	}
	return x
}

// clashing are two domains, and a domain with two instances, whose FNV-1a hashes agree in the bits of an id.
var clashing = []IndomSpec{
	{Name: "disk.9579", Insts: []QStr{"a"}}, {Name: "disk.16812", Insts: []QStr{"b", "c"}},
	{Name: "cpus", Insts: []QStr{"cpu92998442", "cpu1531698"}},
}

// objectIDs builds the objects of the case and lists their ids by kind and name.
func (x CaseC14) objectIDs() (map[string]uint32, []speed.PCPMetric, error) {
	ids := map[string]uint32{}
	var ms []speed.PCPMetric
	for _, i := range x.Order {
		m, err := speed.NewPCPSingletonMetric(1, string(x.Metrics[i]), speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
		if err != nil {
			return nil, nil, err
		}
		ms = append(ms, m)
	}
	for i, sp := range x.Indoms {
		in := makeIndom(sp)
		if in == nil {
			return nil, nil, fmt.Errorf("domain %q was refused", sp.Name)
		}
		vs := speed.Instances{}
		for _, n := range in.Insts {
			vs[n] = 1
		}
		m, err := speed.NewPCPInstanceMetric(vs, fmt.Sprintf("on.domain.%d", i), in.Obj, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
		if err != nil {
			return nil, nil, err
		}
		ms = append(ms, m)
	}
	for _, sp := range x.Extra {
		m := makeMetric(sp, nil)
		if m == nil {
			return nil, nil, fmt.Errorf("%s metric was refused", sp.Kind)
		}
		ms = append(ms, m.Obj)
	}
	for _, m := range ms {
		ids["metric "+m.Name()] = m.ID()
		if in := m.Indom(); in != nil {
			ids["domain "+in.Name()] = in.ID()
		}
	}
	return ids, ms, nil
}

// ownFNV is the 32-bit FNV-1a hash from its definition.
func ownFNV(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func init() {
	subcommands["ids"] = func(a []string) {
		var x CaseC14
		if err := json.NewDecoder(os.Stdin).Decode(&x); err != nil {
			panic(err)
		}
		ids, _, err := x.objectIDs()
		if err != nil {
			panic(err)
		}
		q := map[string]uint32{}
		for k, v := range ids {
			q[strconv.QuoteToASCII(k)] = v
		}
		_ = json.NewEncoder(os.Stdout).Encode(q)
	}
	register(Prop{ID: "C14",
		Rule:  "case: two client names and a set of metric, domain and instance names, published by both in different orders, sometimes computed by a fresh process too; non-trivial with at least three names",
		Quick: Budget{Cases: 6000},
		Fixed: func() []interface{} {
			return []interface{}{CaseC14{Client: "ids1", Second: "ids2", Indoms: clashing}}
		},
	}, genC14, runC14)
}

func runC14(c *Ctx, x CaseC14) {
	cut := func(s string, b uint) uint32 {
		h := fnv.New32a()
		h.Write([]byte(s))
		if h.Sum32() != ownFNV(s) {
			c.Infraf("two FNV-1a implementations disagree on %q", s)
		}
		return ownFNV(s) & uint32(1<<b-1)
	}
	ids, ms, err := x.objectIDs()
	if err != nil {
		c.Failf("%v", err)
	}
	expect := func(at string, ids map[string]uint32) {
		var ks []string
		for k := range ids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			want := uint32(0)
			if n := strings.TrimPrefix(k, "metric "); n != k {
				want = cut(n, 10)
			} else {
				want = cut(strings.TrimPrefix(k, "domain "), 22)
			}
			if ids[k] != want {
				c.Failf("%s: %s has id %d, expected %d", at, k, ids[k], want)
			}
		}
	}
	expect("objects", ids)
	if x.Sub {
		c.Label("another process")
		b, _ := json.Marshal(x)
		cmd := exec.Command(os.Getenv("VH_BIN"), "ids")
		cmd.Stdin = strings.NewReader(string(b))
		out, err := cmd.Output()
		if e, ok := err.(*exec.ExitError); ok {
			c.Failf("the same construction in another process: %v\n%s", err, clip(string(e.Stderr), 3000))
		}
		if err != nil {
			c.Infraf("ids process: %v", err)
		}
		quoted, other := map[string]uint32{}, map[string]uint32{}
		if err := json.Unmarshal(out, &quoted); err != nil {
			c.Infraf("ids process: %v", err)
		}
		for k, v := range quoted {
			n, err := strconv.Unquote(k)
			if err != nil {
				c.Infraf("ids process: %v", err)
			}
			other[n] = v
		}
		if len(other) != len(ids) {
			c.Failf("another process: %d ids, expected %d", len(other), len(ids))
		}
		expect("another process", other)
	}
	// published by two clients, registered in opposite orders
	for k, name := range []string{string(x.Client), string(x.Second)} {
		s := newSession(c, name)
		objs := ms
		if k == 1 {
			var err error
			if _, objs, err = x.objectIDs(); err != nil {
				c.Failf("%v", err)
			}
			for i, j := 0, len(objs)-1; i < j; i, j = i+1, j-1 {
				objs[i], objs[j] = objs[j], objs[i]
			}
		}
		for _, m := range objs {
			if err := s.Client.Register(m); err != nil {
				c.Failf("Register(%q): %v", m.Name(), err)
			}
		}
		s.start()
		at := fmt.Sprintf("file of client %q", name)
		if want := cut(name, 12); uint32(s.Img.Cluster) != want {
			c.Failf("%s: cluster %d, expected %d", at, s.Img.Cluster, want)
		}
		byID := map[uint32]string{}
		for _, r := range s.Img.Metrics {
			if want := cut(r.Name, 10); r.Item != want {
				c.Failf("%s: metric %q has id %d, expected %d", at, r.Name, r.Item, want)
			}
			if o, ok := byID[r.Item]; ok && o != r.Name {
				c.Label("colliding metric ids")
				c.Known("fnv10-collision", fmt.Sprintf("metrics %q and %q share id %d", o, r.Name, r.Item))
			}
			byID[r.Item] = r.Name
		}
		serials, domains := map[uint32]bool{}, map[string]bool{}
		for _, m := range objs {
			if in := m.Indom(); in != nil {
				serials[cut(in.Name(), 22)] = true
				domains[in.Name()] = true
			}
		}
		for _, r := range s.Img.Indoms {
			if !serials[uint32(r.Serial)] {
				c.Failf("%s: domain id %d belongs to no domain", at, r.Serial)
			}
		}
		if len(s.Img.Indoms) != len(domains) {
			c.Failf("%s: %d domains, expected %d", at, len(s.Img.Indoms), len(domains))
		}
		byDomain := map[uint32]string{}
		for _, m := range objs {
			in := m.Indom()
			if in == nil {
				continue
			}
			if o, ok := byDomain[in.ID()]; ok && o != in.Name() {
				c.Label("colliding domain ids")
				c.Known("fnv22-collision", fmt.Sprintf("domains %q and %q share id %d", o, in.Name(), in.ID()))
			}
			byDomain[in.ID()] = in.Name()
		}
		type key struct {
			indom uint64
			id    uint32
		}
		byInst := map[key]string{}
		for _, r := range s.Img.Insts {
			if want := cut(r.Name, 32); r.Internal != want {
				c.Failf("%s: instance %q has id %d, expected %d", at, r.Name, r.Internal, want)
			}
			k := key{r.Indom, r.Internal}
			if o, ok := byInst[k]; ok {
				c.Label("colliding instance ids")
				c.Known("fnv32-collision", fmt.Sprintf("instances %q and %q of a domain share id %d", o, r.Name, r.Internal))
			}
			byInst[k] = r.Name
		}
		for _, m := range objs {
			if m.ID() != cut(m.Name(), 10) {
				c.Failf("%s: after Start metric %q has id %d", at, m.Name(), m.ID())
			}
		}
		if err := s.Client.Stop(); err != nil {
			c.Failf("Stop: %v", err)
		}
		s.Active = false
	}
	if len(ids) >= 3 {
		c.Nontrivial()
	}
}
