"""Scenarios for the Analysis specification."""
import random, math
import gen_dual
from gen_dual import pair, rand_range, stream
from gen_store import Table

NAMES = ['fluid_vel', 'rel_vel', 'drag', 'diss', 'lag_acc', 'count', 'shear',
    'err_flag', 'tensor', 'near']


def columns(rng, taken=()):
    names = [n for n in NAMES if n not in taken]
    rng.shuffle(names)
    res = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        cs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if not names:
                break
            dt = rng.choice(['float64', 'float64', 'float64', 'float32', 'int64', 'int32'])
            cs.append([names.pop(), rng.choice([0, 0, 3, 3, 1 and 2, 9]), dt])
        if cs:
            res.append(cs)
    return res


def c07(rng, tier):
    tp, tq, same = pair(rng, tier)
    base = rand_range(rng, tp, tq, same)
    if same and rng.random() < 0.4:
        base = [[], []]
    tmp = [rand_range(rng, tp, tq, same)] if rng.random() < 0.4 else []
    if not tmp and not same and not (base[0] and base[1]):
        base = rand_range(rng, tp, tq, False)
    closed = base[0] and base[1]
    pool = [rng.gauss(0, 1) * 10**rng.randint(-3, 3) for _ in range(997)]
    if rng.random() < 0.3:
        pool[5:9] = [float('nan'), float('inf'), -0.0, 0.0]
    cols = columns(rng)
    if not cols and rng.random() < 0.8:
        cols = [[['fluid_vel', 3, 'float64']]]
    return dict(p=stream(rng, tp), q=stream(rng, tq), rng=base, cols=cols, pool=pool,
        big=rng.choice([0, 0, 2**53, 2**60, -2**62]),
        ops=[dict(op='analysis', tmp=tmp, kw=rng.random() < 0.5,
            conf=None if closed else 'some/config.cfg', exists=rng.random() < 0.3,
            style=dict(flat=rng.random() < 0.5, fortran=rng.random() < 0.3,
                reuse=rng.random() < 0.3, tuple=rng.random() < 0.3))])


def script(tier):
    """The program, each method, with and without parameters."""
    res = []
    combos = [dict(), dict(neighbs=3), dict(param='2'), dict(method='inv', param='2.5', neighbs=5, flag='-p'),
        dict(method='rbf', param='1e-3'), dict(method='inv', param='1')]
    for n, op in enumerate(combos if tier == 'quick' else combos * 6):
        rng = random.Random('script%d' % n)
        tp = Table(rng, 4, 5, extra=0, t0=10, bigids=False)
        tq = Table(rng, 9, 6, extra=0, t0=10, bigids=False)
        # many tracers that have room between them.
        tp.rows, tq.rows = {}, {}
        for tab, k in ((tp, 4), (tq, 9)):
            for i in tab.ids:
                for t in range(10, 15):
                    tab.rows[i, t] = [[rng.uniform(-1, 1) for _ in 'xyz'],
                        [rng.uniform(-1, 1) for _ in 'xyz']]
        res.append(dict(p=stream(rng, tp), q=stream(rng, tq), rng=[[10], [15]],
            cols=[], pool=[0.], ops=[dict(op, op='script')]))
    return res


def c08(rng, tier):
    tp, tq, same = pair(rng, tier)
    # particles in time order.
    tp = Table(rng, len(tp.ids), tp.frames, t0=tp.t0, holes=rng.choice([0, 0, .6]), extra=0,
        bigids=rng.random() < 0.3)
    tp.keys = [['pos', 3, 'float64'], ['velocity', 3, 'float64'],
        ['diam', 0, 'float64'], ['kind', 0, 'int64']]
    base = rng.choice([1.0, 1e-3, rng.uniform(1e-8, 1e8)])
    near = [base, math.nextafter(base, 9e99), math.nextafter(base, -9e99),
        base * (1 + 1e-7), base * (1 - 1e-7), -base, 0.0, base * 3]
    for kk in tp.rows:
        tp.rows[kk] = [[rng.gauss(0, 1) for _ in 'xyz'], [rng.gauss(0, 1) for _ in 'xyz'],
            rng.choice(near), rng.randint(-3, 3)]
    a, b = tp.times()[0], tp.times()[-1]
    if rng.random() < 0.5:
        rg = [[a], [b + 1]]
    else:
        lo = rng.randint(a - 1, b)
        rg = [[lo], [rng.randint(lo + 1, b + 3)]]
    if rng.random() < 0.85:
        cols = rng.choice([
            [[['slip', 0, 'float64'], ['fluid_vel', 3, 'float64']]],
            [[['slip', 0, 'float64']], [['count', 0, 'int64']]],
            [[['fluid_vel', 3, 'float64'], ['rel_vel', 3, 'float64']]],
            [[['drag', 3, 'float32'], ['slip', 0, 'float64'], ['count', 0, 'int64']]]])
    else:
        cols = columns(rng) or [[['slip', 0, 'float64']]]
    flat = [c for cs in cols for c in cs]
    full = rng.random() < 0.7
    pst = stream(rng, tp)
    op0 = pst['ops'][0]
    if op0['op'] == 'given':
        op0['rows'] = tp.row_list(rng.choice(['traj', 'frame', 'timely']))
    ops = []
    pool = [rng.choice(near + [rng.gauss(0, 1)]) for _ in range(53)]
    if rng.random() < 0.6:
        tmp = []
        if not full:
            lo = rng.randint(rg[0][0], rg[1][0])
            tmp = [[[lo], [rng.randint(lo, rg[1][0] + 1)]]]
        ops.append(dict(op='analysis', tmp=tmp, style={}))
    else:
        rows = []
        order = [(r['id'], r['t']) for r in op0['rows']] if op0['op'] == 'given' else \
            [(p['id'], f['t']) for f in op0['frames'] for p in f['pts']] \
            if op0['op'] == 'save_frames' else \
            [(t['id'], p['t']) for t in op0['trajs'] for p in t['pts']]
        for t in range(rg[0][0], rg[1][0] - 1):
            for i, u in order:
                if u == t and (i, t + 1) in tp.rows and (full or rng.random() < 0.8):
                    c = []
                    for nm, w, dt in flat:
                        one = lambda: rng.randint(-20, 20) if dt.startswith('int') else \
                            float(rng.randint(-9, 9)) if dt == 'float32' else rng.choice(pool)
                        c.append([one() for _ in range(w)] if w else one())
                    rows.append(dict(id=i, t=t, c=c))
        ops.append(dict(op='given_an', rows=rows, index=rng.random() < 0.7))
    ops.append(dict(op='join_keys'))
    scal = [(False, 3), (False, 4), (False, 0), (False, -1)] + [(True, n + 1)
        for n, c in enumerate(flat) if not c[1]] * 2
    for _ in range(rng.randint(3, 7)):
        conds, used = [], set()
        for an, key in rng.sample(scal, min(len(scal), rng.choice([0, 1, 1, 2, 2, 3]))):
            if (an, key) in used:
                continue
            used.add((an, key))
            if key == 0:
                bb = [rng.choice(tp.ids), rng.choice(tp.ids)]
            elif key == -1:
                bb = [rng.randint(a, b), rng.randint(a, b + 1)]
            elif not an and key == 3:
                bb = [rng.choice(near), rng.choice(near)]
            elif not an:
                bb = [float(rng.randint(-3, 3)), float(rng.randint(-3, 4))]
            elif flat[key - 1][2].startswith('int'):
                bb = [float(rng.randint(-25, 25)), float(rng.randint(-25, 25))]
            elif flat[key - 1][2] == 'float32':
                bb = [float(rng.randint(-9, 9)) + 0.5, float(rng.randint(-9, 9)) + 0.5]
            else:
                bb = [rng.choice(pool), rng.choice(pool)]
            if rng.random() < 0.15:
                bb[rng.randrange(2)] = rng.choice([float('inf'), float('-inf')])
            if rng.random() < 0.85:
                bb.sort()
            conds.append(dict(an=an, key=key, min=bb[0], max=bb[1],
                inv=rng.random() < 0.4))
        allk = [(False, k) for k in (1, 2, 3, 4)] + [(True, n + 1) for n in range(len(flat))]
        ks = [(False, 0), (False, -1)] if rng.random() < 0.75 else []
        ks += rng.sample(allk, rng.randint(0 if ks else 1, min(4, len(allk))))
        if rng.random() < .2:
            ks.append(rng.choice(ks))
        rng.shuffle(ks)
        ops.append(dict(op='join', ks=[list(k) for k in ks], conds=conds,
            nowhere=rng.random() < 0.5))
    ops.append(dict(op='join_trajs'))
    ids = [i for i in tp.ids if sum(rg[0][0] <= t < rg[1][0] and j == i
        for j, t in tp.rows) > 0]
    for i in ids[:3]:
        ops.append(dict(op='join_traj', id=i))
    rng.shuffle(ops[2:])
    near = near + [float(x) for x in range(-4, 5)] + [float('inf'), float('-inf')]
    pst['pool'] = list(pst['pool']) + near
    return dict(p=pst, q=stream(rng, tq), rng=rg, cols=cols, pool=pool, mod=40,
        lenient=True, ops=ops)
