package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// fuzzStage runs the coverage-guided search of fuzz_test.go: one fuzzing process per lane, each with
// its own scratch directory. It returns failing cases, confirmed by a worker, and how many were executed.
func fuzzStage(p *Prop, dir, bin string, lanes, secs int) (fails []json.RawMessage, msgs []string, execs int, infra []string) {
	type res struct {
		raw   []byte
		out   string
		execs int
	}
	rs := make([]res, lanes)
	var wg sync.WaitGroup
	for i := 0; i < lanes; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			d := filepath.Join(dir, fmt.Sprintf("f%d", i))
			_ = os.MkdirAll(filepath.Join(d, "tmp"), 0755)
			cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^FuzzCase$", fmt.Sprintf("-test.fuzztime=%ds", secs),
				"-test.fuzzminimizetime=15s", "-test.fuzzcachedir="+filepath.Join(d, "corpus"), "-test.parallel=1")
			cmd.Dir = d
			cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + d, "VH_PROP=" + p.ID, "VH_FUZZ=" + d, "VH_SCRATCH=" + d, "VH_BIN=" + os.Getenv("VH_BIN"),
				"TMPDIR=" + filepath.Join(d, "tmp"), "PCP_CONF=" + filepath.Join(d, "no-such-pcp.conf"), "PCP_DIR=" + d, "GOMAXPROCS=2"}
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			var b strings.Builder
			cmd.Stdout, cmd.Stderr = &b, &b
			if err := cmd.Start(); err != nil {
				rs[i].out = err.Error()
				return
			}
			t := time.AfterFunc(time.Duration(secs+90)*time.Second, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
			err := cmd.Wait()
			t.Stop()
			rs[i].out = b.String()
			for _, l := range strings.Split(rs[i].out, "\n") {
				if k := strings.Index(l, "execs: "); k >= 0 {
					if n, e := strconv.Atoi(strings.Fields(l[k+7:])[0]); e == nil {
						rs[i].execs = n
					}
				}
			}
			if err != nil {
				if rs[i].raw, err = os.ReadFile(filepath.Join(d, "fail")); err != nil {
					rs[i].raw, _ = os.ReadFile(filepath.Join(d, "cur")) // it died in this one
				}
			}
		}(i)
	}
	wg.Wait()
	s := &Shard{p: p, dir: dir}
	for _, r := range rs {
		execs += r.execs
		if r.raw == nil {
			continue
		}
		ok := false
		for n := 0; n < 3*p.Tries && !ok; n++ {
			s.cache = map[[32]byte]Verdict{}
			if v := s.exec(r.raw); v.Fail != "" {
				fails, msgs, ok = append(fails, r.raw), append(msgs, v.Fail), true
			}
		}
		if !ok {
			infra = append(infra, "a failure of the fuzzer could not be repeated: "+clip(r.out, 2000)+"\ncase: "+clip(string(r.raw), 2000))
		}
	}
	s.fresh()
	return
}
