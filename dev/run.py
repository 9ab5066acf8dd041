#!/usr/bin/env python3
"""Runs the analyser against small edits of /repo (development aid; not used by any check).
usage: run.py [ID-or-mutant-name ...]   Each mutant lists the checks that must report it; everything else must stay quiet."""
import os, sys, subprocess, tempfile, shutil, concurrent.futures as cf
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import MUTANTS
HC = os.environ.get('HC', '/tmp/hc2')
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod -buildvcs=false', GOPROXY='off', GOWORK='off')


def one(m, only):
    d = tempfile.mkdtemp(prefix='mut')
    try:
        r = d + '/repo'
        shutil.copytree(os.environ.get('BASE', '/repo'), r, ignore=shutil.ignore_patterns('.git'))
        for f, old, new in m['edits']:
            p = r + '/' + f
            s = open(p).read() if os.path.exists(p) else ''
            if old and s.count(old) < 1:
                return m['name'], 'EDIT DOES NOT APPLY: %s %r' % (f, old), False
            s = s.replace(old, new, 1) if old else s + new
            open(p, 'w').write(s)
        b = subprocess.run(['go', 'vet', './...'] if m.get('vet') else ['go', 'build', '-o', '/dev/null', './...'], cwd=r, env=ENV, capture_output=True, text=True)
        if b.returncode != 0:
            return m['name'], 'DOES NOT BUILD: ' + b.stderr[:600], False
        v = d + '/v'
        os.makedirs(v + '/evidence')
        shutil.copy('/verif/known_findings.txt', v)
        out = subprocess.run([HC, 'check', only or 'all'], env=dict(ENV, HIERA_REPO=r, HIERA_VERIF=v, HC_SHARED='1', GOGC='400'), capture_output=True, text=True)
        bad = sorted({l.split('property=')[1].split()[0] for l in out.stdout.splitlines() if l.startswith('VIOLATION')})
        want = sorted(m['want'])
        if only:
            want = [w for w in want if w == only]
        ok = set(want) <= set(bad) and (bool(want) or not bad)
        why = [l for l in out.stdout.splitlines() if 'VIOLATION' not in l and ('|' in l or 'finding' in l.lower())]
        return m['name'], 'want %s got %s' % (want, bad), ok, out.stdout if not ok or os.environ.get('V') else ''
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    ms = MUTANTS
    only = None
    if args:
        ms = [m for m in MUTANTS if m['name'] in args or any(a in m['want'] for a in args) or m['name'].split('-')[0] in args]
        ids = [a for a in args if len(a) == 3 and a[0] == 'C']
        if len(ids) == 1 and len(args) == 1:
            only = ids[0]
    if 'ONLY' in os.environ:
        only = os.environ['ONLY']
    with cf.ThreadPoolExecutor(4) as ex:
        n = 0
        for res in ex.map(lambda m: one(m, only), ms):
            if not res[2]:
                n += 1
            print(('ok   ' if res[2] else 'FAIL ') + res[0] + ': ' + res[1])
            if len(res) > 3 and res[3]:
                print('\n'.join('      ' + l for l in res[3].splitlines() if ' rule ' in l or 'panic' in l or 'goroutine' in l)[:3000])
        print('%d mutants, %d unexpected' % (len(ms), n))


main()
