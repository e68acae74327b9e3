#!/usr/bin/env python3
"""mutants.py LANE NLANES SCALE IN.jsonl OUT.jsonl: run the checks against mutants that pass the existing tests.

Run under 'unshare -m' with private copies bind-mounted on /repo and /verif (see mutants.sh)."""
import json, os, subprocess, sys, time, shutil
lane, nl, scale, inp, outp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4], sys.argv[5]
FULL = len(sys.argv) > 6
ALL = ['C%02d' % i for i in range(1, 27)]
RACE = {'C17', 'C18', 'C19', 'C22', 'C25'}
def order(m):
    f, fn = m['file'], m['func']
    if f == 'client.go': o = 'C04 C02 C01 C03 C23 C05 C22 C25 C21 C20 C19 C14 C06'
    elif f == 'registry.go': o = 'C06 C13 C19 C02 C04 C22 C14'
    elif f in ('instance_domain.go', 'instance.go'): o = 'C24 C02 C14 C22 C06'
    elif f in ('config.go', 'speed.go'): o = 'C21 C14'
    elif f.startswith('bytewriter'): o = 'C17 C26 C23 C05 C03 C25'
    elif f.startswith('mmvdump'): o = 'C16 C15'
    elif f == 'metrics.go':
        o = 'C07 C03 C24 C06 C02 C04 C18 C25'
        if 'Counter' in fn: o = 'C08 C06 C18 C03 C24 C04'
        if 'Gauge' in fn: o = 'C09 C06 C18 C03 C24 C04'
        if 'Histogram' in fn or fn == 'normalize': o = 'C10 C07 C06 C18 C25 C03'
        if 'Timer' in fn: o = 'C11 C18 C25 C03'
        if 'Unit' in fn or fn == 'decl': o = 'C12 C02 C07'
    else: o = 'C12 C02'
    o = o.split()
    return o if FULL else o + [c for c in ALL if c not in o]
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off', PCP_CONF='/dev/null', VH_SCALE=scale)
ms = [json.loads(l) for l in open(inp)]
out = open(outp + '.%d' % lane, 'a')
done = set()
for l in open(outp + '.%d' % lane): done.add(json.loads(l)['i'])
for k, m in enumerate(ms):
    if k % nl != lane or m['i'] in done: continue
    p = '/repo/' + m['file']
    orig = open(p, 'rb').read()
    s = orig
    for e in sorted(m['edits'], key=lambda e: -e['s']):
        s = s[:e['s']] + e['r'].encode() + s[e['e']:]
    b = '/tmp/mt/bin%d' % lane
    shutil.rmtree(b, ignore_errors=True); os.makedirs(b)
    t0 = time.time(); res = {}; caught = None
    try:
        open(p, 'wb').write(s)
        r = subprocess.run(['go', 'build', '-o', b + '/vh', '.'], cwd='/verif/harness', env=dict(env, CGO_ENABLED='0'), capture_output=True, text=True)
        if r.returncode: res['build'] = r.stderr[-500:]
        else:
            raced = False
            for c in order(m):
                if c in RACE and not raced:
                    subprocess.run(['go', 'build', '-race', '-o', b + '/vh.race', '.'], cwd='/verif/harness', env=env, check=True); raced = True
                if c == 'C16':
                    subprocess.run(['go', 'build', '-mod=readonly', '-o', b + '/mmvdump', './mmvdump/cmd/mmvdump'], cwd='/repo', env=env, check=True)
                t1 = time.time()
                try:
                    r = subprocess.run([b + '/vh', 'check', c, 'quick', '1'], cwd='/verif/harness', env=dict(env, VH_BIN=b + '/vh'), capture_output=True, text=True, errors='replace', timeout=600)
                    rc, o = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, o = 'timeout', ''
                if rc == 1 and 'VIOLATION property=' + c in o:
                    caught = c; res['why'] = o[:300]; break
                if rc != 0: res[c] = [rc, (o + r.stderr)[-400:]]
    finally:
        open(p, 'wb').write(orig)
    out.write(json.dumps(dict(m, caught=caught, res=res, secs=round(time.time() - t0, 1))) + '\n'); out.flush()
