#!/usr/bin/env python3
"""Makes and confirms planted bugs from dev/seeds.py (development aid; not used by any check).
usage: seed.py [ID ...]"""
import os, sys, subprocess, tempfile, shutil, json
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod -buildvcs=false', GOPROXY='off', GOWORK='off')
DEMO = '''#!/bin/bash
# exit 0: behaves as it should
export HOME=/root GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOWORK=off
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp) || exit 2
trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo.go.txt\\"}}" > "$o"
%(pre)sgo test %(flags)s-vet=off -overlay "$o" -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def one(s):
    out = '/verif/seeded/' + s['id']
    d = tempfile.mkdtemp(prefix='seed')
    try:
        r = d + '/repo'
        shutil.copytree('/repo', r, symlinks=True)
        os.makedirs(out, exist_ok=True)
        for n, body in s['files'].items():
            open(out + '/' + n, 'w').write(body)
        open(out + '/demo.sh', 'w').write(s.get('demo') or DEMO % s)
        os.chmod(out + '/demo.sh', 0o755)
        c = sh(['bash', out + '/demo.sh'], r)
        if c.returncode != 0:
            return 'demo fails on the clean tree\n' + c.stdout[-3000:] + c.stderr[-2000:]
        for f, old, new in s['edits']:
            p = r + '/' + f
            t = open(p).read()
            if t.count(old) < 1:
                return 'edit does not apply: ' + f + ' ' + old
            open(p, 'w').write(t.replace(old, new, 1))
        df = sh(['git', 'diff'], r).stdout
        open(out + '/patch.diff', 'w').write(df)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        b = sh(['go', 'build', './...'], r)
        if b.returncode:
            return 'does not build\n' + b.stderr
        t = sh(['go', 'test', '-vet=off', '-count=1', '-tags', 'test', './...'], r)
        if t.returncode:
            return 'TESTS FAIL\n' + t.stdout[-2500:]
        c = sh(['bash', out + '/demo.sh'], r)
        if c.returncode == 0:
            return 'demo passes with the patch\n' + c.stdout[-2000:]
        v = d + '/v'
        os.makedirs(v + '/evidence')
        shutil.copy('/verif/known_findings.txt', v)
        o = subprocess.run([os.environ.get('HC', '/tmp/hc2'), 'check', 'all'], env=dict(ENV, HIERA_REPO=r, HIERA_VERIF=v, HC_SHARED='1', GOGC='400'), capture_output=True, text=True)
        bad = sorted({l.split('property=')[1].split()[0] for l in o.stdout.splitlines() if l.startswith('VIOLATION')})
        return ('caught' if s['prop'] in bad else 'MISSED') + ' by %s; demo: %s' % (bad, [l for l in (c.stdout + c.stderr).splitlines() if l.strip()][:4])
    finally:
        shutil.rmtree(d)


for s in SEEDS:
    if len(sys.argv) == 1 or s['id'] in sys.argv[1:]:
        print(s['id'] + ': ' + one(s), flush=True)
