"""Scenarios for the Snap and Pairs specifications."""
import random
import gen_store
from gen_store import Table, size


def lists(rng, tab, coincide=0.3):
    """Trajectories without holes, some of which are at the same places."""
    res = []
    for i in tab.ids:
        tj = tab.traj(i)
        if tj:
            res.append(dict(id=i, t0=tj[0]['t'], pts=[p['v'] for p in tj]))
    k = rng.random()
    if k < coincide and len(res) > 1:
        for _ in range(rng.randint(1, 4)):
            a, b = rng.sample(res, 2)
            ts = [t for t in range(a['t0'], a['t0'] + len(a['pts']))
                  if b['t0'] <= t < b['t0'] + len(b['pts'])]
            if not ts:
                continue
            if rng.random() < 0.7:
                ts = [rng.choice(ts)]
            for t in ts:
                p = list(b['pts'][t - b['t0']])
                p[0] = list(a['pts'][t - a['t0']][0])
                if rng.random() < 0.2:    # near, but not at it.
                    p[0][rng.randrange(3)] += rng.choice([1e-9, -1e-3, 1.])
                    tab.extra_vals.extend(p[0])
                b['pts'][t - b['t0']] = p
    # at the very same component, but not at the same place.
    if rng.random() < 0.3 and len(res) > 1:
        a, b = rng.sample(res, 2)
        j = rng.randrange(3)
        for t in range(a['t0'], a['t0'] + len(a['pts'])):
            if b['t0'] <= t < b['t0'] + len(b['pts']):
                p = list(b['pts'][t - b['t0']])
                p[0] = list(p[0])
                p[0][j] = a['pts'][t - a['t0']][0][j]
                b['pts'][t - b['t0']] = p
    return res


def mk_table(rng, tier, **kw):
    n, f = size(rng, tier)
    tab = Table(rng, n, f, holes=0, **kw)
    while max(tab.ids) >= 2**53:      # IDs are in a table of floats.
        tab = Table(rng, n, f, holes=0, **kw)
    tab.extra_vals = []
    # no negative zeros: they are the same place as zeros.
    for v in tab.rows.values():
        v[0] = [x + 0. if x == 0 else x for x in v[0]]
    return tab


def c22(rng, tier):
    k = rng.random()
    if k < 0.12:
        return frame_data(rng, tier)
    if k < 0.2:
        return mat(rng, tier)
    if k < 0.27:
        return unique(rng, tier)
    if k < 0.33:
        return holed(rng, tier)
    tab = mk_table(rng, tier)
    trs = lists(rng, tab)
    rng.shuffle(trs)
    mixed = rng.random() < .25
    if mixed:
        mix(rng, tab, trs)
    a = min(t['t0'] for t in trs)
    b = max(t['t0'] + len(t['pts']) for t in trs)
    ops = [dict(op='given', trajs=trs, tdtype=rng.choice(['int64', 'int64', 'float64', 'int32']))]
    for _ in range(rng.randint(3, 9)):
        t = rng.randint(a - 1, b)
        if rng.random() < 0.15:
            t = rng.choice([a, b - 1])
        has = [i for i, tj in enumerate(trs) if tj['t0'] <= t < tj['t0'] + len(tj['pts'])]
        kind = rng.choice(['active', 'active', 'snapshot', 'collect', 'collect'])
        seg = rng.random() < 0.5
        if kind == 'active':
            ops.append(dict(op='active', t=t, seg=seg, bounds=rng.random() < 0.5))
        elif kind == 'snapshot':
            sel = [i for i in has if rng.random() < 0.8]
            if rng.random() < 0.4:
                rng.shuffle(sel)
            if rng.random() < 0.1:
                sel = []
            ops.append(dict(op='snapshot', t=t, ixs=sel))
        else:
            ops.append(dict(op='collect', t=t, seg=seg, explicit=rng.random() < 0.5))
    return dict(tab.scenario(ops, tab.extra_vals), mixed=mixed)


def holed(rng, tier):
    """Tables of trajectories that miss some points."""
    tab = mk_table(rng, tier)
    trs = lists(rng, tab)
    for tj in trs:
        tj['holes'] = [i for i in range(1, len(tj['pts']) - 1) if rng.random() < .4]
    a = min(t['t0'] for t in trs)
    b = max(t['t0'] + len(t['pts']) for t in trs)
    ops = [dict(op='given', trajs=trs, tdtype=rng.choice(['int64', 'float64']))]
    ops += [dict(op='collect', t=rng.randint(a - 1, b), seg=rng.random() < 0.6, explicit=True)
        for _ in range(rng.randint(3, 9))]
    return dict(tab.scenario(ops, tab.extra_vals), mixed=False)


def mix(rng, tab, trs):
    """Some trajectories have a property in another type, that fits them."""
    for j, (k, w, dt) in enumerate(tab.keys):
        if dt not in ('float64', 'int64', 'int32') or rng.random() < .4:
            continue
        for tj in trs:
            if rng.random() < .5:
                continue
            ty = rng.choice({'float64': ['float32', 'int64', 'int32', 'int16'],
                'int64': ['int32', 'int16'], 'int32': ['int16']}[dt])
            c = (lambda: rng.randint(1, 120) + rng.choice([0, .5])) if ty == 'float32' else \
                (lambda: rng.randint(1, 120))
            pts = []
            for p in tj['pts']:
                p = list(p)
                p[j] = [c() for _ in range(w)] if w else c()
                tab.extra_vals += p[j] if w else [p[j]]
                pts.append(p)
            tj['pts'] = pts
            tj.setdefault('types', {})[k] = ty


def frame_data(rng, tier):
    tab = mk_table(rng, tier)
    trs = lists(rng, tab)
    ok = [t for t in trs if len(t['pts']) > 1]
    if not ok:
        t = trs[0]
        t['pts'] = t['pts'] * 2
        ok = [t]
    t = rng.choice(ok)
    t = t['t0'] + rng.randrange(len(t['pts']) - 1)
    def part(s):
        return [x for x in s if x['t0'] <= t + 2 and x['t0'] + len(x['pts']) > t]
    # both are parts of the same set of trajectories, so that it has each ID once.
    other = mk_table(rng, tier)
    other.keys = tab.keys
    mine = [x for x in trs if rng.random() < 0.6]
    if not any(x['t0'] <= t and x['t0'] + len(x['pts']) > t + 1 for x in mine):
        mine = trs
    rest = [x for x in trs if rng.random() < 0.7]
    if not any(x['t0'] <= t and x['t0'] + len(x['pts']) > t + 1 for x in rest):
        rest = trs
    op = dict(op='frame_data', trajs=mine, tracers=rest, t=t,
        form=rng.choice(['hdf', 'npz']),
        part=[rng.choice([1e-3, 0.5, 100.]), rng.choice([1000., 2450.5]), rng.choice([500., 1., 29.97])])
    return tab.scenario([op], tab.extra_vals)


def mat(rng, tier):
    n, f = size(rng, tier)
    ids = rng.sample(range(1, 40 + 3 * n), n)
    t0 = rng.choice([0, 5, 10001])
    trs, pool = [], []
    for i in ids:
        a = rng.randrange(f)
        m = rng.randint(1, f - a)
        def v():
            return [rng.randint(-20, 20) for _ in range(3)]
        pts = [[[rng.randint(-1, 1), rng.randint(-1, 1), rng.randint(-1, 1)]
                if rng.random() < 0.3 else v(), v(), v()] for _ in range(m)]
        trs.append(dict(id=i, t0=t0 + a, pts=pts))
        pool += [c / 1000. for p in pts for x in p for c in x]
    ops = [dict(op='given_mat', trajs=trs)]
    for _ in range(rng.randint(2, 4)):
        ops.append(dict(op='collect', mat=True, t=t0 + rng.randint(-1, f),
            seg=rng.random() < 0.5))
    return dict(keys=[['pos', 3, 'float64'], ['velocity', 3, 'float64'],
        ['accel', 3, 'float64']], ids=ids, pool=pool, ops=ops)


def unique(rng, tier):
    ops, pool = [], []
    for _ in range(4):
        n = rng.choice([0, 1, 2, 5, 9, 14])
        w = rng.choice([3, 3, 4, 8])
        hi = rng.choice([1, 2, 5])
        rows = [[float(rng.randint(0, hi)) for _ in range(3)] +
            [float(rng.randint(0, 9)) for _ in range(w - 3)] for _ in range(n)]
        if n == 0:
            continue
        pool += [x for r in rows for x in r[:3]]
        ops.append(dict(op='unique', rows=rows, layout=rng.choice(gen_store.LAYOUTS)))
    return dict(keys=[['pos', 3, 'float64'], ['velocity', 3, 'float64']], ids=[1],
        pool=pool or [0.], ops=ops)


def c18(rng, tier):
    np_ = rng.randint(1, 5 if tier == 'quick' else 9)
    ns = rng.randint(1, 6 if tier == 'quick' else 12)
    frames = rng.randint(2, 6 if tier == 'quick' else 12)
    if gen_store.FORCE:
        np_, frames = gen_store.FORCE[0]
        ns = rng.choice([1, 7, np_, 300])
    t0 = rng.choice([0, 3, 10001])
    span = rng.choice([2, 4, 30, 300, 9000])
    hi = 60 + 2 * max(np_, ns)
    ids = rng.sample(range(0, hi), max(np_, ns))
    sids = rng.sample(range(0, hi), ns) if rng.random() < 0.7 else ids[:ns]
    def tj(i, late):
        a = rng.randrange(late, frames)
        m = rng.randint(1, frames - a)
        x = [rng.randint(-span, span) for _ in range(3)]
        xs = []
        for _ in range(m):
            xs.append(list(x))
            x = [c + rng.randint(-2, 2) for c in x]
        return dict(id=i, t0=t0 + a, xs=xs)
    prim = [tj(i, 0) for i in ids[:np_]]
    late = rng.choice([0, 0, 0, 1])
    sec = [tj(i, late) for i in sids]
    if rng.random() < 0.3 and len(sec) > 1:   # the same place
        a, b = rng.sample(range(len(sec)), 2)
        sec[b] = dict(sec[b], t0=sec[a]['t0'], xs=[list(x) for x in sec[a]['xs']])
    if rng.random() < 0.3:
        p = rng.choice(prim)
        s = rng.randrange(len(sec))
        sec[s] = dict(sec[s], t0=p['t0'], xs=[list(x) for x in p['xs']])
    if rng.random() < 0.3 and len(sec) > 1:   # almost as far.
        p = rng.choice(prim)
        d = rng.choice([1, 7, 9999, 9999])
        rest = p['xs'][-1:] if rng.random() < 0.5 else []
        for s, off in zip(rng.sample(range(len(sec)), 2), rng.sample(
                [(d, 0, 0), (-d, 1, 0), (0, d, 1), (0, -1, -d), (1, 1, d)], 2)):
            sec[s] = dict(sec[s], t0=p['t0'],
                xs=[[c + o for c, o in zip(x, off)] for x in p['xs'] + rest])
    reqs = [[r, k] for r, p in enumerate(prim) for k in range(len(p['xs']))]
    style = rng.random()
    if style < 0.6:
        rng.shuffle(reqs)
    if rng.random() < 0.6:
        reqs = reqs[:rng.randint(1, len(reqs))]
    if len(reqs) > 1500:
        reqs = reqs[:1500]
    if rng.random() < 0.3:
        reqs = reqs + [rng.choice(reqs) for _ in range(3)]
    if rng.random() < 0.3:
        rng.shuffle(sec)
    big = max(prim[r]['id'] for r, _ in reqs)
    far = max(k for _, k in reqs)
    fits = lambda n: [t for t, m in (('int64', 2**63), ('int32', 2**31), ('uint32', 2**32),
        ('int16', 2**15), ('uint16', 2**16), ('uint64', 2**63), ('int8', 128), ('uint8', 256))
        if n < m]
    op = dict(op='pairs', idtype=rng.choice(['int64'] + fits(big)), ixtype=rng.choice(
        ['int64'] + fits(far)), prim=prim, sec=sec, reqs=reqs, extra=rng.random() < 0.4,
        scale=rng.choice([1., 0.25, 2.**-10, 1024., 2.**-30, 2.**30]), offset=rng.choice([0., 0., 1., -64.]),
        tdtype=rng.choice(['int64', 'int64', 'float64']), layout=rng.choice(gen_store.LAYOUTS))
    ops = [op]
    return dict(keys=[['pos', 3, 'float64'], ['velocity', 3, 'float64']],
        ids=sorted(set(ids + sids)), pool=[0.], ops=ops)
