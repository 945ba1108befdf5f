"""
Common machinery of the checks: model-check the design specification, make
scenarios, run them on the real code (in subprocesses that import it from
/repo), and have TLC judge the recorded traces against the specification.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, random

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


class Scratch(object):
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------- TLC
def tlc_cmd(meta, mem='3g', jopts=()):
    return ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m',
        '-Djava.io.tmpdir=' + os.path.dirname(meta)] + list(jopts) + \
        ['-cp', CP, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE']


def spec_dir(scratch):
    """A copy of the specifications, so that TLC leaves nothing in ours."""
    d = scratch.path('spec')
    if not os.path.isdir(d):
        shutil.copytree(SPEC, d)
    return d


def parse_stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    return 0, 0


def model_check(scratch, module, cfg, workers=8, timeout=840):
    """Exhaustive check of a bounded design model. A violated invariant here is
    an error in the specification, not in the code."""
    d = spec_dir(scratch)
    t0 = time.time()
    p = subprocess.run(tlc_cmd(scratch.path('meta-' + cfg), '6g') +
        ['-workers', str(workers), '-config', cfg + '.cfg', module + '.tla'],
        cwd=d, capture_output=True, text=True, timeout=timeout)
    gen, dist = parse_stats(p.stdout)
    if p.returncode != 0 or 'No error has been found' not in p.stdout:
        raise MachineryError('model checking %s/%s failed:\n%s' % (module, cfg,
            p.stdout[-3000:] + p.stderr[-1000:]))
    return dict(module=module, cfg=cfg, states=dist, transitions=gen,
        wall_s=round(time.time() - t0, 1))


def simulate(scratch, module, cfg, num, depth, sd, timeout=300):
    """Behaviours of the design model, from TLC's simulation."""
    d = spec_dir(scratch)
    p = subprocess.run(tlc_cmd(scratch.path('sim-' + cfg), '3g') +
        ['-workers', '1', '-simulate', 'num=%d' % num, '-depth', str(depth),
         '-seed', str(sd), '-config', cfg + '.cfg', module + '.tla'],
        cwd=d, capture_output=True, text=True, timeout=timeout)
    res = []
    for line in p.stdout.split('\n'):
        if line.startswith('"BEHAVIOUR '):
            res.append(json.loads(json.loads(line)[len('BEHAVIOUR '):]))
    if not res:
        raise MachineryError('no behaviours from %s/%s:\n%s' % (module, cfg,
            p.stdout[-3000:] + p.stderr[-1000:]))
    return res


def enumerate_behaviours(scratch, module, cfg, timeout=600):
    """All behaviours that the model prints in exhaustive exploration."""
    d = spec_dir(scratch)
    p = subprocess.run(tlc_cmd(scratch.path('enum-' + cfg), '4g') +
        ['-workers', '4', '-config', cfg + '.cfg', module + '.tla'],
        cwd=d, capture_output=True, text=True, timeout=timeout)
    res, seen = [], set()
    for line in p.stdout.split('\n'):
        if line.startswith('"BEHAVIOUR ') and line not in seen:
            seen.add(line)
            res.append(json.loads(json.loads(line)[len('BEHAVIOUR '):]))
    if p.returncode != 0 or not res:
        raise MachineryError('no behaviours from %s/%s:\n%s' % (module, cfg,
            p.stdout[-3000:] + p.stderr[-1000:]))
    res.sort(key=lambda b: json.dumps(b, sort_keys=True))
    return res


def clean(x):
    """TLC's JSON knows no null, and no fractions (they are never judged)."""
    if x is None or isinstance(x, float):
        return str(x)
    if isinstance(x, dict):
        return dict((k, clean(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    return x


def judge(scratch, module, traces, jobs=4, timeout=800, tag=''):
    """
    Have TLC validate traces. Returns a list of sets of (clause, event number),
    one for each trace, and the number of states.
    """
    d = spec_dir(scratch)
    if not os.path.exists(os.path.join(d, module + '.cfg')):
        with open(os.path.join(d, module + '.cfg'), 'w') as f:
            f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n')
    verdicts = [None] * len(traces)
    gen = dist = 0
    end = time.time() + timeout
    todo = sorted(range(len(traces)), key=lambda i: -len(json.dumps(traces[i])))
    for again in range(6):
        n = max(1, min(jobs, len(todo) // 4 + 1))
        procs = []
        for k in range(n):
            ch = todo[k::n]
            name = '%s-%d-%s-%d' % (tag, again, module, k)
            fn = scratch.path('traces%s.json' % name)
            with open(fn, 'w') as f:
                json.dump([clean(traces[i]) for i in ch], f)
            env = dict(os.environ, TRACE_FILE=fn)
            out = open(scratch.path('judge%s.out' % name), 'w+')
            procs.append((ch, out, subprocess.Popen(
                tlc_cmd(scratch.path('judge%s' % name), '3g',
                    ['-XX:ParallelGCThreads=2']) +
                ['-workers', '2', '-config', module + '.cfg', module + '.tla'],
                cwd=d, env=env, stdout=out, stderr=subprocess.STDOUT)))
        todo, odd = [], ''
        for ch, out, p in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for _, _, q in procs:
                    q.kill()
                raise MachineryError('judging by %s took too long' % module)
            out.seek(0)
            text = out.read()
            out.close()
            for m in re.finditer(r'^"VERDICT (\d+) (.*)"$', text, re.M):
                bad = re.findall(r'<<\\"([\w-]+)\\", (\d+)>>', m.group(2))
                verdicts[ch[int(m.group(1)) - 1]] = \
                    set((c, int(e)) for c, e in bad)
            g, s = parse_stats(text)
            gen += g
            dist += s
            missing = [i for i in ch if verdicts[i] is None]
            if p.returncode == 0 and s > 0:
                # The specification has no step for something in the trace:
                # it is not one of its behaviours.
                for i in missing:
                    verdicts[i] = {('refused', 0)}
                continue
            # An observation that the specification can't even evaluate, of
            # one trace. The others have to be judged without it.
            odd = text[text.find('Error:'):][:3000]
            m = re.findall(r'^/\\ tr = (\d+)', text, re.M)
            if not m or not missing:
                raise MachineryError('%s could not judge (%d of %d traces):\n%s'
                    % (module, len(missing), len(ch), odd))
            verdicts[ch[int(m[-1]) - 1]] = {('not-evaluable', 0)}
            todo += [i for i in missing if verdicts[i] is None]
        if not todo:
            break
    # enough of them.
    for i in todo:
        verdicts[i] = {('not-evaluable', 0)}
    return verdicts, dist, gen


# ---------------------------------------------------------------- the code
def code_env(home):
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE='1',
        PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=home, HOME=home,
        PYTHONPYCACHEPREFIX=os.path.join(home, 'pyc'),
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1',
        PYTHONWARNINGS='ignore')
    return env


def execute(scratch, driver, scenarios, jobs=6, timeout=700, limit=60):
    """
    Run scenarios on the real code. Returns their traces. A scenario that kills
    or hangs its process has a trace that says so.
    """
    n = max(1, min(jobs, len(scenarios)))
    traces = [None] * len(scenarios)
    todo = [list(range(k, len(scenarios), n)) for k in range(n)]
    end = time.time() + timeout
    procs = {}

    def start(k):
        home = tempfile.mkdtemp(prefix='run-', dir=scratch.dir)
        fin = os.path.join(home, 'in.json')
        fout = os.path.join(home, 'out.jsonl')
        with open(fin, 'w') as f:
            json.dump([scenarios[i] for i in todo[k]], f)
        log = open(os.path.join(home, 'log'), 'w+')
        procs[k] = (subprocess.Popen([PY, '-B', os.path.join(HERE, 'runner.py'),
            driver, fin, fout, str(limit)], cwd=home, env=code_env(home),
            stdout=log, stderr=subprocess.STDOUT), fout, log)

    for k in range(n):
        start(k)
    while procs:
        for k in list(procs):
            p, fout, log = procs[k]
            try:
                p.wait(0.05)
            except subprocess.TimeoutExpired:
                if time.time() > end:
                    for q, _, _ in procs.values():
                        q.kill()
                    raise MachineryError('driver %s took too long' % driver)
                continue
            got = []
            if os.path.exists(fout):
                with open(fout) as f:
                    for line in f:
                        if line.endswith('\n'):
                            got.append(json.loads(line))
            for i, t in zip(todo[k], got):
                traces[i] = t
            rest = todo[k][len(got):]
            log.seek(0)
            text = log.read()
            log.close()
            del procs[k]
            if rest:
                if 'HARNESS-ERROR' in text:
                    raise MachineryError('driver %s:\n%s' % (driver, text[-4000:]))
                if p.returncode == 3:   # the code can't even be imported.
                    for i in rest:
                        traces[i] = dict(dead='import: ' + text[-500:])
                    continue
                # died in the first of the remaining.
                traces[rest[0]] = dict(dead='process ended: ' + text[-500:])
                todo[k] = rest[1:]
                if todo[k]:
                    start(k)
    return traces
