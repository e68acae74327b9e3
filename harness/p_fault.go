package main

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/performancecopilot/speed/v4"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ C23

// An FStep is one step of a history of starts and stops in a hostile file system.
type FStep struct {
	K    string `json:"k"`              // block clear start stop reg update flag
	What string `json:"what,omitempty"` // block: the obstacle
	F    string `json:"f,omitempty"`    // start, stop: a fault injected for the duration of the call
	N    int    `json:"n,omitempty"`
	Op   *Op    `json:"op,omitempty"`
	Must bool   `json:"must,omitempty"` // start, stop: the form that panics
}

type CaseC23 struct {
	Reg   RegSpec `json:"reg"`
	Steps []FStep `json:"steps"`
}

// obstacles nothing can start through
var hardObstacles = map[string]bool{"mmvfile": true, "tmpfile": true, "dir+": true}

func genC23(t *rapid.T) CaseC23 {
	x := CaseC23{Reg: genReg(t, allKinds, 0)}
	if chance(t, "bulk", 4) {
		x.Reg.BulkM = pick(t, "bulkm", 3, 40, 400, 2500)
	}
	ms := x.Reg.expand().Metrics
	n := rapid.IntRange(2, 14).Draw(t, "n")
	for i := 0; i < n; i++ {
		s := FStep{K: pick(t, "k", "start", "start", "start", "start", "stop", "stop", "stop", "block", "block", "clear", "clear", "reg", "update", "flag")}
		switch s.K {
		case "block":
			s.What = pick(t, "what", "mmvfile", "tmpfile", "dir+", "dir+", "dir", "dangling", "loop", "link", "file", "tmpmissing", "mmvmissing", "fifo")
		case "start":
			s.Must = chance(t, "must", 4)
			if chance(t, "fault", 2) {
				s.F = pick(t, "f", "fsize", "fsize", "nofile", "as", "uid", "uid", "full", "full")
				s.N = rapid.IntRange(0, 1000).Draw(t, "fn")
			}
		case "stop":
			s.N = rapid.IntRange(0, 1).Draw(t, "erase")
			s.Must = chance(t, "must", 4)
			if chance(t, "sfault", 4) {
				s.F = "uid"
				s.N += 2 * rapid.IntRange(0, 3).Draw(t, "fn")
			}
		case "update":
			if len(ms) > 0 {
				op := genOp(t, ms)
				s.Op = &op
			}
		case "flag":
			s.N = rapid.IntRange(0, 7).Draw(t, "flag")
		}
		x.Steps = append(x.Steps, s)
	}
	if chance(t, "mapfault", 20) {
		// only a large file cannot be mapped for want of address space
		x.Reg.BulkM = 2500
		x.Steps = append(x.Steps[:len(x.Steps)/3], FStep{K: "start", F: "as"}, FStep{K: "start"}, FStep{K: "stop", N: 1}, FStep{K: "start", F: "as"})
	}
	return x
}

func init() {
	register(Prop{ID: "C23", Level: "fault_enumeration",
		Rule: "case: a registry and a history of starts (also of an active client), stops, registrations and updates between changes of the file system (obstacles at or above the file's place) and faults for the length of one call (file size, descriptor and address space limits, lost permissions, a full file system); after every step the descriptors and mappings of the process are counted and the client's state is probed. Non-trivial: a Start failed or a Stop could not remove the file, and a later Start succeeded",
		Assume: []string{
			"the operating system's own limits (RLIMIT_FSIZE, RLIMIT_NOFILE, RLIMIT_AS), file permissions and a small file system in memory stand for what can go wrong; munmap and close are never made to fail",
			"obstacles that an implementation may or may not get around (symbolic links, empty directories, permissions) only bind it to report what happened",
		},
		OwnFS: true,
		Quick: Budget{Cases: 700}, Deep: Budget{Cases: 25000}, Hang: 60 * time.Second,
	}, genC23, runC23)
}

type lst struct {
	kind string
	data string
}

func lstat(p string) lst {
	i, err := os.Lstat(p)
	if err != nil {
		return lst{}
	}
	switch {
	case i.Mode().IsRegular():
		b, _ := os.ReadFile(p)
		return lst{"file", string(b)}
	case i.IsDir():
		return lst{"directory", ""}
	case i.Mode()&os.ModeSymlink != 0:
		l, _ := os.Readlink(p)
		return lst{"link", l}
	}
	return lst{i.Mode().String(), ""}
}

// withFault calls f while the fault lasts.
func withFault(c *Ctx, kind string, n, size int, dir string, f func()) {
	set := func(what int, cur uint64, g func()) {
		var old syscall.Rlimit
		if err := syscall.Getrlimit(what, &old); err != nil {
			c.Infraf("getrlimit: %v", err)
		}
		lim := syscall.Rlimit{Cur: cur, Max: old.Max}
		if err := syscall.Setrlimit(what, &lim); err != nil {
			c.Infraf("setrlimit: %v", err)
		}
		defer func() {
			if err := syscall.Setrlimit(what, &old); err != nil {
				c.Infraf("setrlimit: %v", err)
			}
		}()
		g()
	}
	switch kind {
	case "":
		f()
	case "fsize":
		signal.Ignore(syscall.SIGXFSZ)
		set(syscall.RLIMIT_FSIZE, uint64(size)*uint64(n)/1001, f)
	case "full":
		// leave less room than the file needs
		var st syscall.Statfs_t
		if err := syscall.Statfs(ownFS, &st); err != nil || st.Bsize != 4096 {
			c.Infraf("statfs: %v %+v", err, st)
		}
		left := int64(size) * int64(n) / 1001 / 4096
		filler := filepath.Join(ownFS, "c23-filler")
		h, err := os.Create(filler)
		if err != nil {
			c.Infraf("%v", err)
		}
		defer os.Remove(filler)
		if fill := (int64(st.Bavail) - left) * 4096; fill > 0 {
			err = syscall.Fallocate(int(h.Fd()), 0, 0, fill)
		}
		h.Close()
		if err != nil {
			c.Infraf("filling the file system: %v", err)
		}
		f()
	case "nofile":
		// the lowest free descriptor
		fd, err := syscall.Dup(0)
		if err != nil {
			c.Infraf("dup: %v", err)
		}
		syscall.Close(fd)
		set(syscall.RLIMIT_NOFILE, uint64(fd), f)
	case "as":
		gc := debug.SetGCPercent(-1)
		defer debug.SetGCPercent(gc)
		b := make([]byte, 4*size+1<<20)
		for i := 0; i < len(b); i += 4096 {
			b[i] = 1
		}
		runtime.KeepAlive(b)
		b = nil
		runtime.GC()
		st, err := os.ReadFile("/proc/self/statm")
		if err != nil {
			c.Infraf("%v", err)
		}
		var pages uint64
		if _, err := fmt.Sscan(string(st), &pages); err != nil {
			c.Infraf("%v", err)
		}
		set(syscall.RLIMIT_AS, pages*4096+uint64(size)/2, f)
	case "uid":
		modes := []os.FileMode{0755, 0555, 0777, 0777 | os.ModeSticky, 0700, 0711}
		if i, err := os.Stat(dir); err == nil && i.IsDir() {
			_ = os.Chmod(dir, modes[n%len(modes)])
			defer func() { _ = os.Chmod(dir, 0755) }()
		}
		runtime.LockOSThread()
		if err := syscall.Setfsuid(65534); err != nil {
			c.Infraf("setfsuid: %v", err)
		}
		defer func() {
			_ = syscall.Setfsuid(0)
			runtime.UnlockOSThread()
		}()
		f()
	}
}

func runC23(c *Ctx, x CaseC23) {
	for d := c.Dir; strings.HasPrefix(d, "/tmp/"); d = filepath.Dir(d) {
		_ = os.Chmod(d, 0755)
	}
	tmp := filepath.Join(c.Dir, "tmp")
	mmv := filepath.Join(tmp, "mmv")
	victims := filepath.Join(c.Dir, "c23-victims")
	reset := func() {
		if i, err := os.Lstat(tmp); err == nil && !i.IsDir() {
			_ = os.Remove(tmp)
		}
		_ = os.MkdirAll(tmp, 0755)
		if i, err := os.Lstat(mmv); err == nil && !i.IsDir() {
			_ = os.Remove(mmv)
		}
		_ = os.MkdirAll(mmv, 0755)
	}
	reset()
	_ = os.RemoveAll(victims)
	if err := os.MkdirAll(victims, 0755); err != nil {
		c.Infraf("%v", err)
	}
	c.Defer(func() {
		reset()
		_ = os.RemoveAll(victims)
		_ = os.RemoveAll(mmv)
	})
	speed.EraseFileOnStop = false
	c.Defer(func() { speed.EraseFileOnStop = false })
	victim := filepath.Join(victims, "victim")
	_ = os.WriteFile(victim, []byte("precious"), 0644)

	s := newSession(c, string(x.Reg.Client))
	c.Defer(func() {
		// after a failure only
		_ = s.Client.Stop()
	})
	s.build(x.Reg)
	fds0, maps0 := countFDs(c), countMaps(c, c.Dir)
	obstacle := ""
	maybe := false // the client failed to start over, whether it is active is its own choice
	failed, recovered := false, false
	regs := 0

	goroutines := runtime.NumGoroutine()
	probe := func(when string) {
		f, m := countFDs(c)-fds0, countMaps(c, c.Dir)-maps0
		want := 0
		if s.Active || maybe {
			want = 1
		}
		if f > want || m > want {
			c.Failf("%s: %d open descriptors and %d mappings of the client's files are left, at most %d expected", when, f, m, want)
		}
	}
	registerOne := func(when string) {
		regs++
		name := fmt.Sprintf("c23.extra.%d", regs)
		sp := MetricSpec{Kind: "singleton", Name: QStr(name), Type: int(speed.Int64Type), Sem: int(speed.CounterSemantics), Vals: []Val{{K: "int64", V: QStr(fmt.Sprint(regs))}}}
		m := makeMetric(sp, nil)
		if m == nil {
			c.Failf("cannot make a plain metric %q", name)
		}
		if err := s.Client.Register(m.Obj); err != nil {
			c.Failf("%s: the inactive client refuses to register a metric: %v", when, err)
		}
		s.All = append(s.All, m)
		s.noteRegistered(m)
	}
	inactive := func(when string) {
		if err := s.Client.Stop(); err == nil {
			c.Failf("%s: a further Stop reports success, so the client was still active", when)
		}
		if len(x.Steps)%2 == 0 {
			registerOne(when)
		}
		if err := s.checkReported(); err != nil {
			c.Failf("%s: %v", when, err)
		}
		probe(when)
		for end := time.Now().Add(5 * time.Second); runtime.NumGoroutine() > goroutines; time.Sleep(time.Millisecond) {
			if time.Now().After(end) {
				b := make([]byte, 1<<16)
				c.Failf("%s: %d goroutines are left where %d were at first:\n%s", when, runtime.NumGoroutine(), goroutines, clip(string(b[:runtime.Stack(b, true)]), 3000))
			}
		}
	}
	clear := func() {
		reset()
		if s.Active && obstacle == "" {
			return
		}
		_ = os.RemoveAll(s.Path)
		obstacle = ""
		if s.Active || maybe {
			obstacle = "gone"
		}
	}

	for i, st := range x.Steps {
		when := fmt.Sprintf("step %d (%s %s%s)", i, st.K, st.What, st.F)
		switch st.K {
		case "clear":
			clear()
		case "block":
			clear()
			_ = os.RemoveAll(s.Path)
			obstacle = st.What
			var err error
			switch st.What {
			case "mmvfile":
				_ = os.RemoveAll(mmv)
				err = os.WriteFile(mmv, []byte("in the way"), 0644)
			case "tmpfile":
				_ = os.RemoveAll(tmp)
				err = os.WriteFile(tmp, []byte("in the way"), 0644)
			case "dir+":
				err = os.MkdirAll(filepath.Join(s.Path, "something"), 0755)
			case "dir":
				err = os.Mkdir(s.Path, 0755)
			case "dangling":
				err = os.Symlink(filepath.Join(victims, "nothing"), s.Path)
			case "loop":
				err = os.Symlink(filepath.Base(s.Path), s.Path)
			case "link":
				err = os.Symlink(victim, s.Path)
			case "file":
				err = os.WriteFile(s.Path, bytes.Repeat([]byte("stale"), 2000), 0600)
			case "fifo":
				err = syscall.Mkfifo(s.Path, 0644)
			case "mmvmissing":
				err = os.RemoveAll(mmv)
			case "tmpmissing":
				err = os.RemoveAll(tmp)
			}
			if err != nil {
				c.Infraf("block %s: %v", st.What, err)
			}
		case "reg":
			if !s.Active && !maybe {
				registerOne(when)
			}
		case "flag":
			if !s.Active && !maybe {
				if err := s.Client.SetFlag(speed.MMVFlag(st.N)); err != nil {
					c.Failf("%s: SetFlag on an inactive client: %v", when, err)
				}
				s.Flag = int32(st.N)
			}
		case "update":
			if st.Op != nil && len(s.All) > 0 {
				if m := s.All[st.Op.M%len(s.All)]; m != nil {
					_ = m.commit(m.update(*st.Op))
				}
			}
		case "start":
			size := s.Client.Length()
			f := st.F
			if f == "as" && size < 400<<10 {
				f = ""
			}
			before := lstat(s.Path)
			again := s.Active || maybe
			if f == "full" && ownFS == "" {
				c.Label("no file system of its own to fill")
				f = ""
			}
			// the room of a file that nobody has mapped is free once it is removed
			tooFull := f == "full" && (before.kind != "file" || before.data == "" || again && obstacle == "")
			var err error
			withFault(c, f, st.N, size, mmv, func() { err = via(st.Must, s.Client.Start, s.Client.MustStart) })
			after := lstat(s.Path)
			if b, e := os.ReadFile(victim); e != nil || string(b) != "precious" {
				c.Failf("%s: Start changed a file that was only linked to: %q %v", when, clip(string(b), 100), e)
			}
			if _, e := os.Lstat(filepath.Join(victims, "nothing")); e == nil {
				c.Failf("%s: Start created a file elsewhere, through a link", when)
			}
			switch {
			case err == nil:
				if hardObstacles[obstacle] || f == "fsize" || f == "nofile" || tooFull {
					c.Failf("%s: Start reports success although its file cannot be created (%s)", when, obstacle)
				}
				s.Active, maybe = true, false
				switch obstacle {
				case "gone", "dir", "dangling", "loop", "link", "file", "fifo", "mmvmissing", "tmpmissing":
					obstacle = "" // whatever was there has been replaced
				}
				if after.kind != "file" {
					c.Failf("%s: Start reports success but leaves a %q at its place", when, after.kind)
				}
				s.load()
				if !s.serialClash() {
					s.syncSlots()
					if err := s.checkValues(s.Img, s.Slots); err != nil {
						c.Failf("%s: %v", when, err)
					}
				}
				if failed {
					recovered = true
				}
				if again {
					c.Label("started over")
				}
				probe(when)
			default:
				c.Label("start failed: " + f + " " + obstacle)
				if f == "" && obstacle == "" {
					c.Failf("%s: Start failed without an obstacle: %v", when, err)
				}
				failed = true
				if again {
					s.Active, maybe = false, true
					// a started-over client's old file may be kept or gone
					if after.kind == "file" && after.data != before.data {
						c.Failf("%s: the failed Start leaves a changed file behind", when)
					}
					if obstacle == "" {
						obstacle = "gone"
					}
					probe(when)
					break
				}
				if after.kind != "" && after != before {
					c.Failf("%s: the failed Start (%v) leaves a %s of %d bytes at its place, before it there was %q", when, err, after.kind, len(after.data), before.kind)
				}
				if after.kind == "" && obstacle != "mmvfile" && obstacle != "tmpfile" {
					obstacle = ""
				}
				inactive(when)
			}
		case "stop":
			if !s.Active && !maybe {
				if err := s.Client.Stop(); err == nil {
					c.Failf("%s: Stop of an inactive client reports success", when)
				}
				break
			}
			erase := st.N%2 == 1
			speed.EraseFileOnStop = erase
			before := lstat(s.Path)
			var err error
			withFault(c, st.F, st.N/2, 0, mmv, func() { err = via(st.Must, s.Client.Stop, s.Client.MustStop) })
			speed.EraseFileOnStop = false
			after := lstat(s.Path)
			was := maybe
			s.Active, maybe = false, false
			switch {
			case was:
			case !erase && err != nil:
				c.Failf("%s: Stop without erasing: %v", when, err)
			case !erase && before != after && !(before.kind == "file" && after.kind == "file"):
				c.Failf("%s: Stop without erasing turned the %q at the file's place into %q", when, before.kind, after.kind)
			case erase && err == nil && (after.kind != "" || hardObstacles[obstacle]):
				c.Failf("%s: Stop reports success but did not remove the file (%s %q)", when, obstacle, after.kind)
			case erase && err != nil && obstacle == "" && st.F == "":
				c.Failf("%s: Stop: %v", when, err)
			}
			if err != nil {
				c.Label("stop failed: " + st.F + " " + obstacle)
				failed = true
			}
			if after.kind == "" && !hardObstacles[obstacle] {
				obstacle = ""
			}
			if after.kind == "file" && obstacle == "" {
				obstacle = "file"
			}
			inactive(when)
		}
	}
	if s.Active || maybe {
		err := s.Client.Stop()
		if err != nil && !maybe {
			c.Failf("final Stop: %v", err)
		}
		s.Active, maybe = false, false
		inactive("after the final Stop")
	}
	clear()
	s.start()
	if !s.serialClash() {
		s.syncSlots()
		if err := s.checkValues(s.Img, s.Slots); err != nil {
			c.Failf("final start: %v", err)
		}
	}
	if failed {
		recovered = true
	}
	if recovered {
		c.Nontrivial()
	}
	if err := s.Client.Stop(); err != nil {
		c.Failf("final Stop: %v", err)
	}
	s.Active = false
	inactive("at the end")
}
