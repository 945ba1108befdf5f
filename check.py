#!/opt/venv/bin/python
"""
check.py ID [--tier quick|thorough]    decide property ID on /repo
check.py ID --replay FILE              re-run one recorded violation
"""
import argparse, json, os, random, sys, time, traceback
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import core, gen_store
from registry import CHECKS, gen

FINDINGS = os.path.join(VERIF, 'known_findings.txt')


def known_findings(pid):
    """Lines `known: property=<id> scenario=<name> clauses=<a,b> <what fails>`"""
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if not line.startswith('known: property=%s ' % pid):
                continue
            words = line.split()
            kv = dict(w.split('=', 1) for w in words[1:4])
            res[kv['scenario']] = (set(kv['clauses'].split(',')),
                ' '.join(words[4:]))
    return res


def make_scenarios(chk, tier, rng, scratch, models):
    """-> list of (driver, trace module, scenarios)"""
    out = []
    cache = {}
    for driver, module, makers in chk['sources']:
        scs = []
        for mk in makers:
            n = mk[-2] if tier == 'quick' else mk[-1]
            if mk[0] == 'random':
                f = gen(mk[1])
                for _ in range(n):
                    sub = random.Random(rng.getrandbits(64))
                    scs.append(f(sub, tier))
            elif mk[0] == 'big':
                # few scenarios, of sizes where buffers, chunks, widths of
                # numbers etc. overflow.
                f = gen(mk[1])
                for k in range(n):
                    gen_store.FORCE[:] = [mk[2][k % len(mk[2])]]
                    sub = random.Random(rng.getrandbits(64))
                    scs.append(f(sub, tier))
                gen_store.FORCE[:] = []
            elif mk[0] == 'simulate':
                _, mod, cfg, depth, conc = mk[:5]
                behs = core.simulate(scratch, mod, cfg, n, depth,
                    rng.getrandbits(31))
                models.append(dict(module=mod, cfg=cfg, behaviours=len(behs)))
                f = gen(conc)
                for b in behs:
                    scs.append(f(random.Random(rng.getrandbits(64)), b))
            elif mk[0] == 'enumerate':
                _, mod, cfg, conc = mk[:4]
                behs = core.enumerate_behaviours(scratch, mod, cfg)
                models.append(dict(module=mod, cfg=cfg, behaviours=len(behs)))
                if n and n < len(behs):
                    behs = rng.sample(behs, n)
                f = gen(conc)
                for b in behs:
                    scs.append(f(random.Random(rng.getrandbits(64)), b))
            elif mk[0] == 'corpus':
                scs.extend(gen(mk[1])(tier))
            else:
                raise core.MachineryError('unknown maker %r' % (mk,))
        out.append((driver, module, scs))
    return out


def judge_all(scratch, driver, module, scs, tag, tier):
    traces = core.execute(scratch, driver, scs, jobs=8,
        timeout=600 if tier == 'quick' else 6000)
    alive = [i for i, t in enumerate(traces) if 'dead' not in t]
    verdicts = [None] * len(scs)
    for i, t in enumerate(traces):
        if 'dead' in t:
            verdicts[i] = {('dead', 0)}
    dist = trans = 0
    step = 4000
    for k in range(0, len(alive), step):
        part = alive[k:k + step]
        vs, d, g = core.judge(scratch, module, [traces[i] for i in part],
            jobs=4 if tier == 'quick' else 8, tag='%s%d' % (tag, k),
            timeout=600 if tier == 'quick' else 6000)
        for i, v in zip(part, vs):
            verdicts[i] = v
        dist += d
        trans += g
    return traces, verdicts, dist, trans


def describe(trace, verdict):
    c, e = sorted(verdict, key=lambda x: x[1])[0]
    if 'dead' in trace:
        return c, trace['dead']
    if e == 0:
        return c, 'the trace is no behaviour of the specification'
    ev = trace['ev'][e - 1]
    return c, 'event %d (%s)%s' % (e, ev.get('op'),
        ': ' + ev['err'] if ev.get('err') else '')


def run_check(pid, tier, seed):
    chk = CHECKS[pid]
    t0 = time.time()
    scratch = core.Scratch()
    models = []
    rng = random.Random('%s-%d-%s' % (pid, seed, tier))
    known = known_findings(pid)
    try:
        design = [core.model_check(scratch, m, c,
                    timeout=600 if tier == 'quick' else 7200)
            for m, c in chk['models'][tier]]
        nviol = ntr = nev = 0
        tstates = ttrans = 0
        samples, ops, kf_seen = [], {}, {}
        viol = []
        for n, (driver, module, scs) in enumerate(
                make_scenarios(chk, tier, rng, scratch, models)):
            traces, verdicts, d, g = judge_all(scratch, driver, module, scs,
                str(n), tier)
            tstates += d
            ttrans += g
            ntr += len(traces)
            for sc, t, v in zip(scs, traces, verdicts):
                for e in t.get('ev', []):
                    ops[e['op']] = ops.get(e['op'], 0) + 1
                    nev += 1
                if not v:
                    continue
                name = sc.get('known')
                if name in known and set(c for c, _ in v) <= known[name][0]:
                    kf_seen[name] = known[name][1]
                    continue
                viol.append((driver, module, sc, t, v))
            if traces:
                k = rng.randrange(len(traces))
                samples.append(dict(driver=driver,
                    scenario=json.dumps(scs[k])[:1500],
                    trace=json.dumps(traces[k])[:1500],
                    verdict=sorted(verdicts[k])))
        rdir = os.path.join(core.EVID, 'replay')
        lines = []
        # the shortest few
        viol.sort(key=lambda x: len(json.dumps(x[2])))
        for n, (driver, module, sc, t, v) in enumerate(viol[:3]):
            os.makedirs(rdir, exist_ok=True)
            fn = os.path.join(rdir, '%s-%d.json' % (pid, n))
            with open(fn, 'w') as f:
                json.dump(dict(property=pid, driver=driver, module=module,
                    scenario=sc, trace=t, violated=sorted(v)), f, indent=1)
            c, what = describe(t, v)
            lines.append('VIOLATION property=%s replay=%s clause=%s %s' % (pid,
                os.path.relpath(fn, VERIF), c, what.replace('\n', ' ')))
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
            wall_s=round(time.time() - t0, 2),
            coverage=dict(
                states=sum(m['states'] for m in design) + tstates,
                transitions=sum(m['transitions'] for m in design) + ttrans,
                traces_validated_against_impl=ntr,
                design_models=design, generated_behaviours=models,
                trace_spec_states=tstates, events=nev, operations=ops,
                violating_traces=len(viol), known_findings=sorted(kf_seen),
                samples=samples))
        os.makedirs(core.EVID, exist_ok=True)
        with open(os.path.join(core.EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(kf_seen):
            print('KNOWN-FINDING: property=%s %s' % (pid, kf_seen[k]))
        if lines:
            for x in lines:
                print(x)
            return 1
        print('OK property=%s traces=%d events=%d states=%d %.1fs' % (pid, ntr,
            nev, ev['coverage']['states'], time.time() - t0))
        return 0
    finally:
        scratch.close()


def replay(pid, fn):
    rec = json.load(open(fn))
    scratch = core.Scratch()
    try:
        traces, verdicts, _, _ = judge_all(scratch, rec['driver'],
            rec['module'], [rec['scenario']], 'r', 'quick')
        if not verdicts[0]:
            print('OK property=%s: does not reproduce' % pid)
            return 0
        c, what = describe(traces[0], verdicts[0])
        print(json.dumps(traces[0])[:6000])
        print(sorted(verdicts[0]))
        print('VIOLATION property=%s replay=%s clause=%s %s' % (pid, fn, c, what))
        return 1
    finally:
        scratch.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', choices=['quick', 'thorough'],
        default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=core.seed())
    a = ap.parse_args()
    try:
        if a.replay:
            return replay(a.property, a.replay)
        return run_check(a.property, a.tier, a.seed)
    except core.MachineryError as e:
        print('ERROR of the check itself:', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

if __name__ == '__main__':
    sys.exit(main())
