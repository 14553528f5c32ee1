#!/usr/bin/env python3
"""Planted bugs. tools/plants/*.py define them; this writes /verif/seeded/<id>/ and tries them.

plant.py make [ID...]     write seeded/<id>/ (patch made in a scratch copy of /repo)
plant.py verify [ID...]   in a scratch copy: applies, builds, passes the stable tests, demo 0 without and non-zero with it
plant.py check [-j] [ID...]  runs the check of the property against /repo with the patch applied (and undoes it)
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
REPO = '/repo'

PRELUDE = '''package main

import (
	"fmt"
	"os"
%s
	"github.com/consensys/gurvy/bn256/fr"
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func u(x uint64) fr.Element {
	var r fr.Element
	r.SetUint64(x)
	return r
}

// vals returns n pairwise different elements that are not small
func vals(n int, seed uint64) []fr.Element {
	r := make([]fr.Element, n)
	x := u(seed + 3)
	y := u(seed*7 + 5)
	for i := range r {
		x.Mul(&x, &x)
		x.Add(&x, &y)
		r[i] = x
	}
	return r
}

// split splits a table in interleaved chunks
func split(tab []fr.Element, n int) [][]fr.Element {
	r := make([][]fr.Element, n)
	for i, x := range tab {
		r[i%%n] = append(r[i%%n], x)
	}
	return r
}

var _ = vals
var _ = split

'''

DEMO = '''#!/bin/bash
# cwd: /repo, built. Exit 0: the property held on this case.
dir=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/zz_demo/main.go" "$dir/demo.go" > "$tmp/overlay.json"
go build@FLAGS@ -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 1
cd "$tmp"
timeout @TIMEOUT@ ./demo
rc=$?
[ $rc = 0 ] || echo "demo exits with $rc"
exit $rc
'''

def load():
    plants = {}
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools/plants/*.py'))):
        spec = importlib.util.spec_from_file_location('m', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for p in m.PLANTS:
            assert p['id'] not in plants, p['id']
            plants[p['id']] = p
    return plants

def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    return r.returncode, r.stdout

def scratch():
    d = tempfile.mkdtemp(prefix='plant')
    sh(['cp', '-a', REPO, d + '/repo'])
    return d

def make(p):
    d = scratch()
    try:
        w = d + '/repo'
        sh(['git', 'checkout', '-q', '--', '.'], cwd=w)
        for f, old, new in p['edits']:
            s = open(w + '/' + f).read()
            if s.count(old) != 1:
                raise SystemExit('%s: %d matches in %s of %r' % (p['id'], s.count(old), f, old))
            open(w + '/' + f, 'w').write(s.replace(old, new))
        rc, out = sh(['bash', '-c', '. /opt/vp/env.sh; gofmt -l $(git diff --name-only)'], cwd=w)
        if out.strip():
            sh(['bash', '-c', '. /opt/vp/env.sh; gofmt -w $(git diff --name-only)'], cwd=w)
        rc, diff = sh(['git', 'diff'], cwd=w)
        o = os.path.join(SEED, p['id'])
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        imports = ''.join('\t%s "%s"\n' % tuple(i.split('|')) if '|' in i else '\t"%s"\n' % i for i in p.get('imports', []))
        open(o + '/demo.go', 'w').write(PRELUDE % imports + p['demo'].strip() + '\n')
        sh(['bash', '-c', '. /opt/vp/env.sh; gofmt -w ' + o + '/demo.go'])
        open(o + '/demo.sh', 'w').write(DEMO.replace('@FLAGS@', p.get('flags', '')).replace('@TIMEOUT@', str(p.get('timeout', 120))))
        os.chmod(o + '/demo.sh', 0o755)
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        open(o + '/meta.json', 'a').write('\n')
    finally:
        shutil.rmtree(d)

# In the scratch copy the scripts of /opt/vp are replayed with /repo replaced by it
TESTS = '''. /opt/vp/env.sh
go build ./... || { echo BUILD FAILED; exit 2; }
go test -json -vet=off -count=1 -timeout 10m ./... > %s/log
python3 /opt/vp/results.py %s/out.json gojson:%s/log
'''

def verify(p):
    d = scratch()
    try:
        w, o = d + '/repo', os.path.join(SEED, p['id'])
        sh(['git', 'checkout', '-q', '--', '.'], cwd=w)
        c = d + '/elsewhere'
        os.makedirs(c)
        for f in ('demo.sh', 'demo.go'):
            shutil.copy(o + '/' + f, c)
        rc, out = sh(['bash', c + '/demo.sh'], cwd=w)
        if rc != 0:
            return 'demo fails on the unchanged tree: ' + out[-1500:]
        rc, out = sh(['git', 'apply', o + '/patch.diff'], cwd=w)
        if rc != 0:
            return 'patch: ' + out
        rc, out = sh(['bash', '-c', TESTS % (d, d, d)], cwd=w)
        if rc != 0:
            return 'tests: ' + out[-1500:]
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        res = json.load(open(d + '/out.json'))
        passed = set(res['passed'] if 'passed' in res else [k for k, v in res.items() if v in ('pass', 'passed')])
        if stable - passed:
            return 'stable tests fail: %s' % sorted(stable - passed)
        rc, out = sh(['bash', c + '/demo.sh'], cwd=w)
        if rc == 0:
            return 'demo passes with the patch: ' + out[-800:]
        return 'ok: ' + out.strip()[-160:].replace('\n', ' | ')
    finally:
        shutil.rmtree(d)

def check(p, props=None):
    rc, out = sh(['git', '-C', REPO, 'status', '--porcelain'])
    if out.strip():
        raise SystemExit('/repo is not clean')
    res = []
    rc, out = sh(['git', '-C', REPO, 'apply', os.path.join(SEED, p['id'], 'patch.diff')])
    if rc != 0:
        return 'patch: ' + out
    try:
        for c in props or [p['property']]:
            t = time.time()
            env = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
            rc, out = sh([ROOT + '/check', c], cwd=ROOT, env=env, timeout=1000)
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            res.append('%s rc=%d %.0fs %s' % (c, rc, time.time() - t, v[0] if v else 'MISSED ' + out[-300:]))
    finally:
        sh(['git', '-C', REPO, 'checkout', '--', '.'])
        sh(['git', '-C', REPO, 'clean', '-fdq'])
    return '; '.join(res)

def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    plants = load()
    props = None
    if args and args[0].startswith('--props='):
        props = args.pop(0)[8:].split(',')
    ids = args or list(plants)
    if cmd == 'verify':
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            for i, r in zip(ids, ex.map(lambda i: verify(plants[i]), ids)):
                print(i, r, flush=True)
        return
    for i in ids:
        r = {'make': make, 'check': lambda p: check(p, props)}[cmd](plants[i])
        print(i, r or '', flush=True)

main()
