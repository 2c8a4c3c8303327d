#!/usr/bin/env python3
"""Applies each behaviour preserving edit of the given files to a copy of /repo and expects silence.

usage: run.py FILE.py... [id=NAME[,NAME]] [prop=C01] [tests]
"""
import os, shutil, subprocess, sys, concurrent.futures as cf, re

BASE = '/tmp/rf'
GV = os.environ.get('GV', '/tmp/gv')
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')

def load(path):
    env = {}
    exec(compile(open(path).read(), path, 'exec'), env)
    return env['R']

def one(r, prop, tests):
    d = f'{BASE}/{r["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', os.environ.get('REPO0', '/repo'), d], check=True)
    try:
        for f, old, new in r['edits']:
            p = f'{d}/{f}'
            s = open(p).read()
            if old is None:
                s += new
            else:
                if s.count(old) < 1:
                    return r['id'], 'EDIT not found in ' + f + ': ' + old[:60]
                s = s.replace(old, new) if r.get('all') else s.replace(old, new, 1)
            open(p, 'w').write(s)
        b = subprocess.run(['go', 'build', './orc/...', './bench'], cwd=d, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return r['id'], 'BUILD ' + b.stdout + b.stderr
        if tests:
            b = subprocess.run(['go', 'test', './orc/...'], cwd=d, env=ENV, capture_output=True, text=True)
            fails = [l for l in b.stdout.splitlines() if l.startswith('--- FAIL') and 'TestColumnTimestampWithPresents' not in l]
            if fails:
                return r['id'], 'TESTS ' + ' '.join(fails)
        ev = f'{d}.ev'
        os.makedirs(ev, exist_ok=True)
        shutil.copy('/verif/known-findings.txt', ev)
        g = subprocess.run([GV, prop], cwd=d, env=dict(ENV, GOORCVET_REPO=d, GOORCVET_DEBUG='1', GOORCVET_VERIF=ev), capture_output=True, text=True)
        bad = [l for l in g.stdout.splitlines() + g.stderr.splitlines() if not re.match(r'^(C\d\d: \d+ obligations, |KNOWN-FINDING)', l)]
        bad = [l.replace(d + '/', '') for l in bad if not l.startswith('VIOLATION') or 'property' not in l or True]
        und = [l for l in g.stdout.splitlines() if re.match(r'^C\d\d: ', l) and (lambda m: m and m.group(1) != m.group(2))(re.match(r'^C\d\d: (\d+) obligations, (\d+) ', l)) and not l.startswith('C02')]
        shutil.rmtree(ev, ignore_errors=True)
        if g.returncode or bad or und:
            return r['id'], f'ALARM rc={g.returncode}\n  ' + '\n  '.join(x[:400] for x in bad[:14])
        return r['id'], 'ok'
    finally:
      if not os.environ.get('KEEP'):
        shutil.rmtree(d, ignore_errors=True)

def main():
    rs, ids, prop, tests = [], None, 'all', False
    for a in sys.argv[1:]:
        if a.startswith('id='):
            ids = a[3:].split(',')
        elif a.startswith('prop='):
            prop = a[5:]
        elif a == 'tests':
            tests = True
        else:
            rs += load(a)
    if ids:
        rs = [r for r in rs if r['id'] in ids]
    os.makedirs(BASE, exist_ok=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for f in cf.as_completed([ex.submit(one, r, prop, tests) for r in rs]):
            i, m = f.result()
            print(f'{i}: {m}', flush=True)

main()
