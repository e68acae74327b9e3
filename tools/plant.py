#!/usr/bin/env python3
"""plant.py BUGS.py [ID...]: make /verif/seeded/<id> from bug definitions, and confirm each one.

BUGS.py defines BUGS: id -> dict(property, needs, breaks, edits=[(file, old, new)], test=go code or
tests={file: code} placed as <pkg>/zz_demo_test.go, pkg)."""
import json, os, re, shutil, subprocess, sys, tempfile

PRELUDE = r'''package speed

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/performancecopilot/speed/v4/bytewriter"
	"github.com/performancecopilot/speed/v4/mmvdump"
)

var _ = bytes.Equal
var _ = fmt.Sprint
var _ = math.Inf
var _ = strings.Repeat
var _ sync.Mutex
var _ = time.Now
var _ = bytewriter.NewByteWriter
var _ = exec.Command
var _ unsafe.Pointer

func demoOK(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func demoPath(name string) string { return filepath.Join(os.TempDir(), "mmv", name) }

func demoRead(t *testing.T, name string) []byte {
	t.Helper()
	b, err := os.ReadFile(demoPath(name))
	demoOK(t, err)
	return b
}

func demoStr(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

// demoVals decodes an image into metric or metric[instance] and value
func demoVals(t *testing.T, data []byte) map[string]interface{} {
	t.Helper()
	data = append([]byte(nil), data...)
	_, _, ms, vs, is, _, ss, err := mmvdump.Dump(data)
	demoOK(t, err)
	r := map[string]interface{}{}
	for _, v := range vs {
		var name, inst string
		m := ms[v.Metric]
		switch x := m.(type) {
		case *mmvdump.Metric1:
			name = demoStr(x.Name[:])
		case *mmvdump.Metric2:
			name = demoStr(ss[x.Name].Payload[:])
		default:
			t.Fatal("value without metric")
		}
		if v.Instance != 0 {
			switch x := is[v.Instance].(type) {
			case *mmvdump.Instance1:
				inst = demoStr(x.External[:])
			case *mmvdump.Instance2:
				inst = demoStr(ss[x.External].Payload[:])
			default:
				t.Fatal("value without instance")
			}
			name += "[" + inst + "]"
		}
		if m.Typ() == mmvdump.StringType {
			r[name] = demoStr(ss[uint64(v.Extra)].Payload[:])
		} else {
			r[name], err = mmvdump.FixedVal(v.Val, m.Typ())
			demoOK(t, err)
		}
	}
	return r
}
'''

DEMO = r'''#!/bin/bash
# exit 0 when the property holds in the scenario of the demonstration, 1 when it does not
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/tmp"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
export TMPDIR="$work/tmp" PCP_CONF="$work/none"
printf '{"Replace": {"%s/PKG/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$here" > "$work/overlay.json"
timeout 250 go test RACE-vet=off -count=1 -overlay "$work/overlay.json" -run '^TestDemo$' ./PKG > "$work/out" 2>&1
rc=$?
tail -n 60 "$work/out"
[ $rc = 0 ] && exit 0
exit 1
'''

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, capture_output=True, text=True, errors='replace', **k)

def stable(copy):
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    with tempfile.TemporaryDirectory() as t:
        e = dict(os.environ, TMPDIR=t, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
        r = sh('go test -json -vet=off -count=1 ./...', copy, env=e)
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('Action') == 'pass' and d.get('Test'):
            ok.add(d['Package'] + '/' + d['Test'])
    return sorted(want - ok), r

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = ns['BUGS']
    ids = sys.argv[2:] or list(bugs)
    for i in ids:
        b = bugs[i]
        copy = '/tmp/plant/copy'
        shutil.rmtree(copy, ignore_errors=True)
        sh(['cp', '-a', '/repo', copy])
        bad = None
        orig = False
        for f, old, new in b['edits']:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = '%s: %d matches for %r' % (f, s.count(old), old[:60]); break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            print(i, 'EDIT', bad); continue
        sh('gofmt -l .', copy)
        diff = sh('git diff', copy).stdout
        # at least one removed line is of the original repository
        cur, ln = None, 0
        touched = []
        for l in diff.splitlines():
            m = re.match(r'--- a/(.*)', l)
            if m: cur = m.group(1); continue
            m = re.match(r'@@ -(\d+)', l)
            if m: ln = int(m.group(1)); continue
            if l.startswith('-'): touched.append((cur, ln)); ln += 1
            elif l.startswith(' '): ln += 1
        blames = {}
        n_orig = 0
        for f, k in touched:
            if f not in blames:
                blames[f] = sh('git blame -s HEAD -- ' + f, '/repo').stdout.splitlines()
            if blames[f][k-1].startswith('^'): n_orig += 1
        d = '/verif/seeded/' + i
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        pkg = b.get('pkg', '')
        code = b['test'] if b.get('raw') else PRELUDE + b['test']
        open(d + '/demo_test.go.txt', 'w').write(code)
        sh(['gofmt', '-w', d + '/demo_test.go.txt'])
        demo = DEMO.replace('/PKG', '/' + pkg if pkg else '').replace('./PKG', './' + pkg).replace('RACE', '-race ' if b.get('race') else '')
        open(d + '/demo.sh', 'w').write(demo)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        miss, r = stable(copy)
        if miss:
            print(i, 'TESTS FAIL', miss[:5], r.stdout[-300:] if len(miss) > 30 else ''); shutil.rmtree(d); continue
        def demo_run(cwd):
            return sh(['bash', d + '/demo.sh'], cwd, timeout=300)
        g = [demo_run('/repo') for _ in range(3)]
        if any(x.returncode for x in g):
            print(i, 'DEMO FAILS ON CLEAN', [x.returncode for x in g], g[0].stdout[-1500:]); continue
        w = [demo_run(copy) for _ in range(3)]
        print(i, b['property'], 'orig-lines', n_orig, '/', len(touched), 'demo patched', [x.returncode for x in w])
        if not all(x.returncode for x in w):
            print('   NOT ALWAYS', w[0].stdout[-800:])
        elif '-v' in os.environ.get('PLANT', ''):
            print(w[0].stdout[-500:])
        shutil.rmtree(copy, ignore_errors=True)

main()
