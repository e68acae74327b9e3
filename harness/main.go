// Command vh decides the properties in /verif/properties.jsonl for the code in
// /repo by generated-input search. See /verif/DESIGN.md.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const verif = "/verif"

func setRapid(seed, cases int) {
	if seed == 0 {
		seed = 0x5eed
	}
	testing.Init()
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
	flag.CommandLine.Parse(nil)
	set("rapid.checks", fmt.Sprint(cases))
	set("rapid.seed", fmt.Sprint(uint64(seed)))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "25s")
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check|replay|gen|list ...")
		os.Exit(2)
	}
	a := os.Args[2:]
	switch os.Args[1] {
	case "worker":
		workerMain(a[0])
	case "shard": // id dir seed cases secs out
		shardMain(a[0], a[1], atoi(a[2], 1), atoi(a[3], 1), atoi(a[4], 60), a[5])
	case "check": // id tier seed
		os.Exit(checkMain(a[0], a[1], atoi(a[2], 1)))
	case "replay": // id file
		os.Exit(replayMain(a[0], a[1]))
	case "gen": // id n seed
		genMain(a[0], atoi(a[1], 3), atoi(a[2], 1))
	case "list":
		var ids []string
		for id, p := range props {
			ids = append(ids, fmt.Sprintf("%s race=%v", id, p.Race))
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "bits":
		fmt.Println(strconv.IntSize)
	case "needsfuzz":
		if p := props[a[0]]; p == nil || !p.Fuzz {
			os.Exit(1)
		}
	case "needsrace":
		if p := props[a[0]]; p == nil || !p.Race {
			os.Exit(1)
		}
	default:
		if f := subcommands[os.Args[1]]; f != nil {
			f(a)
			return
		}
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

// subcommands are helper processes some cases start.
var subcommands = map[string]func(args []string){}

func genMain(id string, n, seed int) {
	p := props[id]
	setRapid(seed, n)
	rapid.Check(&tbStub{}, func(t *rapid.T) {
		b, err := json.Marshal(p.Gen(t))
		if err != nil {
			panic(err)
		}
		fmt.Println(string(b))
	})
}

// known findings -----------------------------------------------------------

type finding struct{ prop, key, what string }

func knownFindings() ([]finding, error) {
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var r []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		fs := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "known:")), " ", 3)
		if len(fs) != 3 || !strings.HasPrefix(fs[0], "property=") || !strings.HasPrefix(fs[1], "key=") {
			return nil, fmt.Errorf("known-findings.txt: cannot read %q", l)
		}
		r = append(r, finding{strings.TrimPrefix(fs[0], "property="), strings.TrimPrefix(fs[1], "key="), fs[2]})
	}
	return r, sc.Err()
}

// check --------------------------------------------------------------------

func checkMain(id, tier string, seed int) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	if tier != "thorough" {
		tier = "quick"
	}
	b := p.Quick
	if tier == "thorough" {
		b = p.Deep
	}
	if s := os.Getenv("VH_CASES"); s != "" {
		b.Cases = atoi(s, b.Cases)
	}
	if s := os.Getenv("VH_SCALE"); s != "" { // tools/mutants.py uses a fraction of the budget
		b.Cases = b.Cases/atoi(s, 1) + 1
	}
	known, err := knownFindings()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	type viol struct {
		raw       json.RawMessage
		msg, conf string
		arch      string
	}
	var viols []viol
	merged := ShardResult{Labels: map[string]int{}, Known: map[string]string{}, KnownCase: map[string]json.RawMessage{}}
	hashes := map[string]bool{}
	var infra []string

	// 1. the committed regression cases and the fixed cases
	sh := &Shard{p: p, dir: dir, cache: map[[32]byte]Verdict{}}
	var fixed []json.RawMessage
	files, _ := filepath.Glob(filepath.Join(verif, "corpus", id, "*.json"))
	sort.Strings(files)
	for _, f := range files {
		raw, err := readReplay(id, f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fixed = append(fixed, raw)
	}
	if p.Fixed != nil {
		for _, c := range p.Fixed() {
			raw, err := json.Marshal(c)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			fixed = append(fixed, raw)
		}
	}
	note := func(raw json.RawMessage, v Verdict) {
		merged.Evaluations++
		if v.Nontriv {
			h := sha256.Sum256(raw)
			hashes[fmt.Sprintf("%x", h[:8])] = true
		}
		for k, n := range v.Labels {
			merged.Labels[k] += n
		}
		for k, w := range v.Known {
			if _, ok := merged.KnownCase[k]; !ok {
				merged.Known[k], merged.KnownCase[k] = w, raw
			}
		}
	}
	for _, raw := range fixed {
		for i := 0; i < p.Tries; i++ {
			sh.cache = map[[32]byte]Verdict{}
			v := sh.exec(raw)
			if v.Infra != "" {
				infra = append(infra, v.Infra+"\ncase: "+clip(string(raw), 3000))
				break
			}
			if i == 0 {
				note(raw, v)
			}
			if v.Fail != "" {
				viols = append(viols, viol{raw, v.Fail, "regression case", ""})
				break
			}
		}
	}
	sh.fresh()

	// 2. generated cases
	shards := b.Shards
	if small := os.Getenv("VH_BIN32"); small != "" && !p.No32 {
		// one more shard, in 32-bit processes, where the machine can run them
		if o, err := exec.Command(small, "bits").Output(); err == nil && string(o) == "32\n" {
			shards++
		}
	}
	results := make([]ShardResult, shards)
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for i := 0; i < shards && len(viols) == 0; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sd := filepath.Join(dir, fmt.Sprintf("s%d", i))
			_ = os.MkdirAll(sd, 0755)
			out := filepath.Join(sd, "result.json")
			bin := self
			if i == b.Shards {
				bin = os.Getenv("VH_BIN32")
			}
			cmd := exec.Command(bin, "shard", id, sd, fmt.Sprint(seed*1000+i+1), fmt.Sprint(b.Cases), fmt.Sprint(b.Secs), out)
			cmd.Dir = sd
			cmd.Env = append(os.Environ(), "VH_BIN="+self)
			o, err := cmd.CombinedOutput()
			raw, rerr := os.ReadFile(out)
			if rerr != nil || json.Unmarshal(raw, &results[i]) != nil {
				results[i].Infra = fmt.Sprintf("shard failed: %v\n%s", err, clip(string(o), 4000))
			}
		}(i)
	}
	wg.Wait()
	timedOut := 0
	for i, r := range results {
		arch := ""
		if i == b.Shards {
			arch = "386"
			merged.Labels["cases in 32-bit processes"] = r.Evaluations
		}
		merged.Evaluations += r.Evaluations
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		for k, n := range r.Labels {
			merged.Labels[k] += n
		}
		for k, w := range r.Known {
			if o, ok := merged.KnownCase[k]; !ok || len(r.KnownCase[k]) < len(o) {
				merged.Known[k], merged.KnownCase[k] = w, r.KnownCase[k]
			}
		}
		if len(merged.Samples) < 6 {
			merged.Samples = append(merged.Samples, r.Samples...)
		}
		if r.Infra != "" {
			infra = append(infra, r.Infra)
		}
		if r.TimedOut {
			timedOut++
		}
		if r.FailCase != nil {
			viols = append(viols, viol{r.FailCase, r.FailMsg, r.Confirmed, arch})
		}
	}
	if len(merged.Samples) > 6 {
		merged.Samples = merged.Samples[:6]
	}
	if len(merged.Samples) == 0 && len(fixed) > 0 {
		merged.Samples = fixed[:1]
	}

	fuzzed := 0
	if bin := os.Getenv("VH_FUZZBIN"); p.Fuzz && tier == "thorough" && bin != "" && len(viols) == 0 {
		secs := atoi(os.Getenv("VH_FUZZSECS"), 150)
		fails, msgs, n, odd := fuzzStage(p, dir, bin, 8, secs)
		for i := range fails {
			viols = append(viols, viol{fails[i], msgs[i], "found by coverage-guided search, repeated by a worker", ""})
		}
		fuzzed = n
		for _, o := range odd {
			fmt.Fprintln(os.Stderr, o)
		}
		merged.Labels["coverage-guided executions"] = n
	}

	// 3. known findings
	listed := map[string]string{}
	for _, k := range known {
		if k.prop == id {
			listed[k.key] = k.what
		}
	}
	var keys []string
	for k := range merged.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if what, ok := listed[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen: %s)\n", id, what, clip(merged.Known[k], 200))
		} else {
			viols = append(viols, viol{merged.KnownCase[k], merged.Known[k], "not listed as a known finding", ""})
		}
	}
	for k, what := range listed {
		if _, seen := merged.Known[k]; !seen && len(viols) == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (listed; not met in this run)\n", id, what)
		}
	}

	// 4. verdict
	var replay string
	if len(viols) > 0 {
		sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].raw) < len(viols[j].raw) })
		v := viols[0]
		h := sha256.Sum256(v.raw)
		_ = os.MkdirAll(filepath.Join(verif, "replays"), 0755)
		replay = filepath.Join(verif, "replays", fmt.Sprintf("%s-%x.json", id, h[:5]))
		doc := map[string]interface{}{"property": id, "case": v.raw, "message": v.msg, "confirmed": v.conf, "seed": seed, "tier": tier}
		if v.arch != "" {
			doc["arch"] = v.arch
			fmt.Println("in a 32-bit process:")
		}
		writeJSON(replay, doc)
		fmt.Printf("%s\nminimal case: %s\nconfirmed: %s\n", clip(v.msg, 6000), clip(string(v.raw), 3000), v.conf)
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]interface{}{
			"evaluations": merged.Evaluations, "distinct_nontrivial": len(hashes), "rule": p.Rule,
			"samples": merged.Samples, "features": merged.Labels, "regression_cases": len(fixed), "shards": b.Shards, "shards_stopped_by_clock": timedOut,
		},
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viols),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	writeJSON(filepath.Join(verif, "evidence", id+".json"), ev)
	if len(viols) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	if len(infra) > 0 {
		fmt.Fprintf(os.Stderr, "the check could not be carried out:\n%s\n", strings.Join(infra, "\n---\n"))
		return 2
	}
	if fuzzed > 0 {
		fmt.Printf("coverage-guided executions: %d\n", fuzzed)
	}
	fmt.Printf("ok property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", id, merged.Evaluations, len(hashes), time.Since(start).Seconds())
	return 0
}

func readReplay(id, f string) (json.RawMessage, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	var r struct {
		Property string          `json:"property"`
		Case     json.RawMessage `json:"case"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, fmt.Errorf("%s: %v", f, err)
	}
	if r.Property != id {
		return nil, fmt.Errorf("%s is a case of %s, not %s", f, r.Property, id)
	}
	var c strings.Builder
	d := json.NewEncoder(&c)
	d.SetEscapeHTML(false)
	var x interface{}
	dec := json.NewDecoder(strings.NewReader(string(r.Case)))
	dec.UseNumber()
	if err := dec.Decode(&x); err != nil {
		return nil, err
	}
	if err := d.Encode(x); err != nil {
		return nil, err
	}
	return json.RawMessage(strings.TrimSpace(c.String())), nil
}

// replayArch: the platform a replay was found on, if it matters.
func replayArch(f string) string {
	b, _ := os.ReadFile(f)
	var r struct{ Arch string }
	_ = json.Unmarshal(b, &r)
	return r.Arch
}

func replayMain(id, f string) int {
	p := props[id]
	raw, err := readReplay(id, f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "vh-replay-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	if small := os.Getenv("VH_BIN32"); replayArch(f) == "386" && strconv.IntSize == 64 {
		cmd := exec.Command(small, "replay", id, f)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Run(); err != nil {
			if cmd.ProcessState == nil {
				fmt.Fprintln(os.Stderr, "cannot run the 32-bit build:", err)
				return 2
			}
			return cmd.ProcessState.ExitCode()
		}
		return 0
	}
	tries := p.Tries * 10
	sh := &Shard{p: p, dir: dir, cache: map[[32]byte]Verdict{}, replay: true}
	defer sh.fresh()
	for i := 0; i < tries; i++ {
		sh.cache = map[[32]byte]Verdict{}
		v := sh.exec(raw)
		if v.Infra != "" {
			fmt.Fprintln(os.Stderr, v.Infra)
			return 2
		}
		if v.Fail != "" {
			fmt.Printf("%s\n(attempt %d)\nVIOLATION property=%s replay=%s\n", v.Fail, i+1, id, f)
			return 1
		}
	}
	fmt.Printf("the case holds (%d attempts)\n", tries)
	return 0
}
