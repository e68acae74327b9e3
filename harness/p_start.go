package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ C05

type CaseC05 struct {
	Reg      RegSpec `json:"reg"`
	Restarts int     `json:"restarts"`
	Pre      []Op    `json:"pre,omitempty"` // made between the runs
}

func init() {
	register(Prop{ID: "C05",
		Rule:   "case: a registry (mostly several hundred metrics) started and restarted while a second thread opens, maps and polls the file; every snapshot that looks complete is compared with the final image. Non-trivial: the poller saw the file of at least one start in its incomplete state",
		Assume: []string{"a crash leaves what the shared mapping held at that instant, so polling the mapping from another thread samples the crash points"},
		Quick:  Budget{Cases: 1000, Shards: 4}, Deep: Budget{Cases: 4000, Shards: 4}, Tries: 5,
	}, func(t *rapid.T) CaseC05 {
		x := CaseC05{Reg: genReg(t, allKinds, 0), Restarts: rapid.IntRange(2, 8).Draw(t, "restarts")}
		if !chance(t, "small", 3) {
			x.Reg.BulkM = rapid.IntRange(1, 500).Draw(t, "bulkm")
			x.Reg.BulkI = pick(t, "bulki", 0, 10, 200)
			x.Reg.BulkLen = pick(t, "bulklen", 0, 0, 0, 80, 210, 255)
		}
		if ms := x.Reg.expand().Metrics; len(ms) > 0 {
			for i := 0; i < 2; i++ {
				x.Pre = append(x.Pre, genOp(t, ms))
			}
		}
		return x
	}, runC05)
}

type poller struct {
	path    string
	size    int
	oldIno  uint64
	stop    int32
	ready   int32
	done    chan struct{}
	partial int    // polls that found the new file incomplete
	snap    []byte // copy taken when the file first looked complete
}

func (p *poller) run() {
	defer close(p.done)
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	snap := make([]byte, p.size)
	atomic.StoreInt32(&p.ready, 1)
	stopped := func() bool { return atomic.LoadInt32(&p.stop) != 0 }
	for !stopped() {
		fd, err := syscall.Open(p.path, syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
		if err != nil {
			continue
		}
		var st syscall.Stat_t
		if syscall.Fstat(fd, &st) != nil || st.Ino == p.oldIno {
			syscall.Close(fd)
			continue
		}
		mem, err := syscall.Mmap(fd, 0, p.size, syscall.PROT_READ, syscall.MAP_SHARED)
		if err != nil {
			syscall.Close(fd)
			continue
		}
		for st.Size < int64(p.size) && !stopped() {
			if syscall.Fstat(fd, &st) != nil {
				break
			}
		}
		if st.Size >= int64(p.size) {
			word := func(i int) uint64 { return atomic.LoadUint64((*uint64)(unsafe.Pointer(&mem[i]))) }
			for !stopped() {
				if word(0)&0xffffff == 0x564d4d && word(8) == word(16) {
					copy(snap, mem)
					p.snap = snap
					break
				}
				p.partial++
			}
		}
		_ = syscall.Munmap(mem)
		syscall.Close(fd)
		if p.snap != nil {
			return
		}
	}
}

func runC05(c *Ctx, x CaseC05) {
	s := newSession(c, string(x.Reg.Client))
	s.build(x.Reg)
	size := s.Client.Length()
	var old *os.File
	var oldData []byte
	defer func() {
		if old != nil {
			old.Close()
		}
	}()
	for r := 0; r < x.Restarts; r++ {
		p := &poller{path: s.Path, size: size, done: make(chan struct{})}
		if old != nil {
			st, err := old.Stat()
			if err != nil {
				c.Infraf("stat: %v", err)
			}
			p.oldIno = st.Sys().(*syscall.Stat_t).Ino
		}
		go p.run()
		for atomic.LoadInt32(&p.ready) == 0 {
			runtime.Gosched()
		}
		err := s.Client.Start()
		if err == nil {
			s.Active = true
		}
		final, rerr := os.ReadFile(s.Path)
		atomic.StoreInt32(&p.stop, 1)
		<-p.done
		if err != nil {
			c.Failf("run %d: Start: %v", r, err)
		}
		if rerr != nil {
			c.Failf("run %d: %v", r, rerr)
		}
		if !looksComplete(final) {
			c.Failf("run %d: the image of the started client does not look complete", r)
		}
		if p.partial > 0 {
			c.Nontrivial()
			c.Label("seen incomplete")
		}
		if p.snap != nil {
			c.Label("seen complete")
			if !bytes.Equal(p.snap, final) {
				n, first := 0, -1
				for i := range final {
					if p.snap[i] != final[i] {
						n++
						if first < 0 {
							first = i
						}
					}
				}
				c.Failf("run %d: a reader found magic and equal generations (%d, %d) while %d bytes, first at offset %d of %d, did not have their final value yet", r, u64(p.snap[8:]), u64(p.snap[16:]), n, first, len(final))
			}
		}
		// nothing is left to be written once Start has returned
		if r == 0 || r == x.Restarts-1 {
			time.Sleep(200 * time.Microsecond)
		}
		if later, err := os.ReadFile(s.Path); err != nil || !bytes.Equal(later, final) {
			c.Failf("run %d: the file changed after Start had returned (%v)", r, err)
		}
		if r == 0 && !s.serialClash() {
			s.load()
			s.syncSlots()
			if err := s.allFileVals(final); err != nil {
				c.Failf("run %d: the image that looks complete: %v", r, err)
			}
		}
		if old != nil {
			now := make([]byte, len(oldData)+1)
			n, _ := old.ReadAt(now, 0)
			if !bytes.Equal(now[:n], oldData) {
				c.Failf("run %d: starting changed the file of the previous run in place", r)
			}
			old.Close()
			old = nil
		}
		if r == x.Restarts-1 {
			break
		}
		if err := s.Client.Stop(); err != nil {
			c.Failf("Stop: %v", err)
		}
		s.Active = false
		if len(s.All) > 0 && len(x.Pre) > 0 {
			op := x.Pre[r%len(x.Pre)]
			if m := s.All[op.M%len(s.All)]; m != nil {
				_ = m.commit(m.update(op))
			}
		}
		f, err := os.Open(s.Path)
		if err != nil {
			c.Failf("run %d: the kept file is gone: %v", r, err)
		}
		old = f
		oldData, err = os.ReadFile(s.Path)
		if err != nil {
			c.Failf("run %d: the kept file cannot be read: %v", r, err)
		}
	}
	c.Label(fmt.Sprintf("size<=%dK", (size/65536+1)*64))
}
