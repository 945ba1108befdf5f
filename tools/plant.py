#!/usr/bin/env python3
"""
Development tool: plant bugs in scratch copies of /repo.

plant.py new FILE.py      FILE.py defines ID, PROP, NEEDS, BREAKS, EDITS (list
                          of (file, old, new)) and DEMO (text of demo.py); makes
                          seeded/ID after confirming it.
plant.py verify [ID...]   confirm again: applies, tests pass, demo fails/passes
plant.py run [ID...] [--checks C01,C02] [--seed n]
                          run the property's check (or those given) on it
"""
import concurrent.futures, json, os, re, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, 'seeded')
TMP = '/tmp/plant'
PY = '/opt/venv/bin/python'
BASE = '026f026'

def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), text=True,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', **(env or {})))

def copy(name, patch=None):
    d = os.path.join(TMP, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(TMP, exist_ok=True)
    sh(['cp', '-a', '/repo', d])
    if patch:
        p = sh(['git', 'apply', patch], d)
        if p.returncode:
            raise SystemExit('%s does not apply: %s' % (name, p.stdout))
    return d

def tests(d):
    p = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], d,
        dict(PYTHONPATH=d))
    sh('git status --short', d)
    return p.returncode == 0, p.stdout[-600:]

def demo(id, d):
    dd = os.path.join(TMP, 'demo-' + id + os.path.basename(d))
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(os.path.join(SEEDED, id), dd)
    for f in os.listdir(dd):
        if f.endswith('.diff') or f == 'meta.json':
            os.remove(os.path.join(dd, f))
    p = sh(['bash', os.path.join(dd, 'demo.sh')], d, timeout=300)
    shutil.rmtree(dd)
    return p

def blame_ok(d, f, old):
    """are the lines that the edit changes original?"""
    b = sh(['git', 'blame', '-s', f], '/repo').stdout.split('\n')
    text = open(os.path.join('/repo', f)).read()
    at = text.index(old)
    first = text[:at].count('\n')
    return b, first

def new(fn):
    g = runpy.run_path(fn)
    for b in g['BUGS'] if 'BUGS' in g else [g]:
        new1(b)

def new1(g):
    id = g['ID']
    d = copy('new-' + id)
    for f, old, nw in g['EDITS']:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(id, 'edit text found', t.count(old), 'times in', f)
            return
        open(p, 'w').write(t.replace(old, nw))
    diff = sh(['git', 'diff'], d).stdout
    # changed lines must be original ones
    base = {}
    for f, _, _ in g['EDITS']:
        base[f] = set(sh(['git', 'show', BASE + ':' + f], '/repo').stdout.split('\n'))
    removed = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
    if not any(any(l in b for b in base.values()) and l.strip() for l in removed):
        print(id, 'WARNING: no original line is changed')
    sd = os.path.join(SEEDED, id)
    os.makedirs(sd, exist_ok=True)
    open(os.path.join(sd, 'patch.diff'), 'w').write(diff)
    open(os.path.join(sd, 'demo.py'), 'w').write(g['DEMO'].lstrip('\n'))
    open(os.path.join(sd, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds in the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
cd "$scratch"
PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$scratch" \\
    timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
rc=$?
cd /
rm -rf "$scratch"
exit $rc
''')
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']),
        open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
    ok, why = tests(d)
    shutil.rmtree(d)
    if not ok:
        print(id, 'TESTS FAIL', why)
        shutil.rmtree(sd)
        return
    d0, d1 = copy('clean'), copy('bug-' + id, os.path.join(sd, 'patch.diff'))
    a, b = demo(id, d0), demo(id, d1)
    good = a.returncode == 0 and b.returncode != 0
    print(id, 'OK' if good else 'BAD demo: clean %d %s | bug %d %s' % (a.returncode,
        a.stdout[-800:], b.returncode, b.stdout[-800:]))
    if not good:
        shutil.rmtree(sd)
    shutil.rmtree(d0); shutil.rmtree(d1)

def verify1(id):
    sd = os.path.join(SEEDED, id)
    d0, d1 = copy('clean' + id), copy('bug-' + id, os.path.join(sd, 'patch.diff'))
    ok, why = tests(d1)
    a, b = demo(id, d0), demo(id, d1)
    shutil.rmtree(d0); shutil.rmtree(d1)
    good = ok and a.returncode == 0 and b.returncode != 0
    return id, good, '' if good else '%s clean %d bug %d' % (why if not ok else '', a.returncode, b.returncode)

def run1(id, checks, seed):
    sd = os.path.join(SEEDED, id)
    meta = json.load(open(os.path.join(sd, 'meta.json')))
    d = copy('run-' + id, os.path.join(sd, 'patch.diff'))
    res = []
    for c in checks or [meta['property']]:
        ev = os.path.join(TMP, 'ev-' + id)
        p = sh(['./check.py', c, '--seed', str(seed)], V, dict(VERIF_REPO=d, VERIF_EVID=ev))
        shutil.rmtree(ev, ignore_errors=True)
        line = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
        res.append((c, p.returncode, line[0][:200] if line else p.stdout[-300:]))
    shutil.rmtree(d)
    return id, meta['property'], res

def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    opts = dict(a[2:].split('=') for a in args if a.startswith('--'))
    ids = [a for a in args if not a.startswith('--')]
    if cmd == 'new':
        for f in ids:
            new(f)
        return
    ids = ids or sorted(os.listdir(SEEDED))
    ids = [i for i in sorted(os.listdir(SEEDED)) if any(re.fullmatch(x, i) for x in ids)]
    with concurrent.futures.ThreadPoolExecutor(3 if cmd == 'run' else 6) as ex:
        if cmd == 'verify':
            for r in ex.map(verify1, ids):
                print(*r)
        else:
            ck = opts.get('checks', '').split(',') if opts.get('checks') else None
            for id, prop, res in ex.map(lambda i: run1(i, ck, int(opts.get('seed', 1))), ids):
                for c, rc, line in res:
                    print(id, c, 'CAUGHT' if rc == 1 else 'missed(%d)' % rc, line, flush=True)

main()
