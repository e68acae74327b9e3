package main

// Coverage-guided search for the thorough tier: the fuzzer's bytes drive the
// property's own generator (rapid.MakeFuzz), the case runs in the fuzzing
// process. The parent (fuzz.go) confirms and shrinks what is found.

import (
	"encoding/json"
	"os"
	"path/filepath"
	"testing"

	"pgregory.net/rapid"
)

func FuzzCase(f *testing.F) {
	p := props[os.Getenv("VH_PROP")]
	dir := os.Getenv("VH_FUZZ")
	if p == nil || dir == "" {
		f.Skip("run by vh")
	}
	cur := filepath.Join(dir, "cur")
	n := 0
	for i := 0; i < 64; i++ {
		b := make([]byte, 64<<uint(i%7))
		x := uint64(i)*0x9e3779b97f4a7c15 + 1
		for j := range b {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			b[j] = byte(x)
		}
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
		raw, err := json.Marshal(p.Gen(t))
		if err != nil {
			t.Skip(err)
		}
		_ = os.WriteFile(cur, raw, 0644)
		n++
		v := runCase(p, raw, n)
		if v.Fail != "" {
			out := filepath.Join(dir, "fail")
			if old, err := os.ReadFile(out); err != nil || len(raw) <= len(old) {
				_ = os.WriteFile(out, raw, 0644)
			}
			t.Fatalf("%s", v.Fail)
		}
	}))
}
