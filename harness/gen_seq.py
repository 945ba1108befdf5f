"""Scenarios for the Seq specification."""
import random
import gen_store
from gen_store import Table, size


def distinct(rng, trs, used):
    """No two are at the same place in the same frame."""
    for tj in trs:
        for k, p in enumerate(tj['pts']):
            x = list(p[0])
            while (tj['t0'] + k, tuple(x)) in used or any(c == 0 for c in x):
                x = [rng.gauss(0, 1) for _ in range(3)]
            used.add((tj['t0'] + k, tuple(x)))
            p[0] = x
    return trs


def database(rng, tab):
    res = []
    for i in tab.ids:
        tj = tab.traj(i)
        if tj:
            res.append(dict(id=i, t0=tj[0]['t'], pts=[list(p['v']) for p in tj]))
    return distinct(rng, res, set())


def visible(db, rng_, minlen, ids=None):
    n = 0
    for tj in db:
        a = max(tj['t0'], rng_[0])
        b = min(tj['t0'] + len(tj['pts']) - 1, rng_[1])
        if b - a + 1 >= max(1, minlen) and (ids is None or tj['id'] in ids):
            n += 1
    return n


def base(rng, tier, linked=0.12):
    """-> scenario without operations"""
    while True:
        n, f = size(rng, tier)
        f = max(f, 2)
        if rng.random() < linked:
            sc = linked_base(rng, n, f)
            if sc:
                return sc
            continue
        tab = Table(rng, n, f, holes=0, early=True)
        other = Table(rng, rng.randint(1, n + 2), f, holes=0, t0=tab.t0)
        if rng.random() < .5:
            other.keys = tab.keys
        other.rows = dict(((i, t), [other.value(k) for k in other.keys]) for i, t in other.rows)
        p, q = database(rng, tab), database(rng, other)
        a = min(t['t0'] for t in p + q)
        b = max(t['t0'] + len(t['pts']) - 1 for t in p + q)
        rg = [a, b] if rng.random() < 0.3 else \
            sorted([rng.randint(a - 1, b + 1), rng.randint(a - 1, b + 2)])
        minlen = rng.choice([0, 0, 0, 1, 2, 2, 3])
        if not visible(p, rg, minlen) or not visible(q, rg, minlen):
            continue
        pool = [c for tj in p + q for v in tj['pts'] for x in v
            for c in (x if isinstance(x, list) else [x])]
        return dict(layout=rng.choice(gen_store.LAYOUTS), order=rng.choice([0, 1, 99]),
            keys=tab.keys, qkeys=other.keys, shown=[k[0] for k in tab.keys], pool=pool,
            ids=sorted(set(tab.ids + other.ids)), p=p, q=q, rng=rg, minlen=minlen,
            minlen_given=rng.random() < 0.5, frate=rng.choice([500., 1., 50]),
            form=[rng.choice(['hdf', 'npz']), rng.choice(['hdf', 'npz'])])


def linked_base(rng, n, f):
    """Databases of linked frames, all of whose chains end within them."""
    t0 = rng.choice([1, 10001])
    def db():
        res = []
        for _ in range(n):
            a = rng.randrange(f - 1)
            m = rng.randint(2, f - a)
            res.append(dict(t0=t0 + a, pts=[[[float(rng.randint(-500, 500)) for _ in range(3)]]
                for _ in range(m)]))
        # IDs are given in the order of appearance.
        res.sort(key=lambda x: x['t0'])
        for i, tj in enumerate(res):
            tj['id'] = i
        return distinct(rng, res, set())
    p, q = db(), db()
    for tj in p + q:
        for v in tj['pts']:
            v[0] = [round(c, 3) for c in v[0]]
    lo = min(t['t0'] for t in p + q)
    if min(t['t0'] for t in p) != lo or min(t['t0'] for t in q) != lo:
        return None   # the reader wants a first frame that is not empty.
    hi = max(t['t0'] + len(t['pts']) - 1 for t in p + q)
    minlen = rng.choice([2, 3])
    rg = [lo, hi]
    if not visible(p, rg, minlen) or not visible(q, rg, minlen):
        return None
    return dict(keys=[['pos', 3, 'float64']], shown=['pos'], ids=list(range(n)),
        pool=[c / 1000. for tj in p + q for v in tj['pts'] for c in v[0]], p=p, q=q, rng=rg,
        minlen=minlen, frate=rng.choice([500., 1.]), form=['ptvis', 'ptvis'],
        files=[lo, hi])


def sub(rng, sc):
    a, b = sc['rng']
    k = rng.random()
    if k < 0.15:
        return [a, b]
    lo, hi = sorted([rng.randint(a, b), rng.randint(a, b)])
    return [hi, lo] if k > .95 else [lo, hi]     # sometimes with nothing in it


def select(rng, sc):
    w = rng.choice('pq')
    db = sc[w]
    for _ in range(20):
        ids = [t['id'] for t in db if rng.random() < rng.choice([.3, .6, 1.])]
        if visible(db, sc['rng'], sc['minlen'], ids):
            return [dict(op='select', which=w, ids=ids, rev=rng.random() < 0.3,
                same=rng.random() < 0.5)]
    return []


def drained(rng, h, n):
    n = max(0, n)
    if rng.random() < 0.6:
        # and sometimes asked again, after its end.
        return [dict(op='next', h=h)] * (n + rng.choice([1, 1, 1, 2, 3]))
    return [dict(op='next', h=h)] * rng.randint(0, n) + [dict(op='abandon', h=h)]


def start(rng, sc, h):
    if h == 0:
        return dict(op='start', h=0, lo=sc['rng'][0], hi=sc['rng'][1], whole=True)
    lo, hi = sub(rng, sc)
    return dict(op='start', h=h, lo=lo, hi=hi, iter=rng.random() < 0.5)


def interleaved(rng, sc, slots):
    """Several iterations at a time."""
    todo = []
    for h in slots:
        st = start(rng, sc, h)
        todo.append([st] + drained(rng, h, st['hi'] - st['lo']))
    res = []
    while any(todo):
        k = rng.choice([i for i, t in enumerate(todo) if t])
        res.append(todo[k].pop(0))
        if rng.random() < 0.06:
            res.append(dict(op='ask'))
    return res


def c13(rng, tier):
    sc = base(rng, tier)
    ops = [dict(op='ask')] if rng.random() < 0.5 else []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.35:
            ops += select(rng, sc)
            if rng.random() < 0.5:
                ops.append(dict(op='ask'))
        slots = rng.sample([0, 1, 2, 3], rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.5:
            slots = [0]
        ops += interleaved(rng, sc, slots)
        if rng.random() < 0.2:
            ops.append(mapping(rng, sc, 9, False))
    if rng.random() < 0.7:
        ops += [start(rng, sc, 0)] + [dict(op='next', h=0)] * (sc['rng'][1] - sc['rng'][0] + 1)
    return dict(sc, ops=ops)


def smoothed(tier):
    """Tracers are to be smoothed: see known_findings.txt."""
    rng = random.Random(7)
    sc = dict(base(rng, tier, linked=0), smooth=True, known='smooth-tracers')
    return [dict(sc, ops=[start(rng, sc, 0)] + [dict(op='next', h=0)])]


def mapping(rng, sc, h, nest=True):
    s = sub(rng, sc) if rng.random() < 0.6 else []
    n = max(0, s[1] - s[0]) if s else sc['rng'][1] - sc['rng'][0]
    op = dict(op='map', h=h, sub=s, history=rng.random() < 0.5,
        nargs=rng.choice([0, 0, 1, 2]), value=rng.choice(['scalar', 'int', 'vec', 'big', 'ivec',
            'text', 'single', 'matrix', 'one']),
        intkeys=rng.random() < 0.5)
    if rng.random() < 0.15 and n:
        op['raise_at'] = rng.randrange(n)
    elif nest and n and rng.random() < 0.4:
        k = rng.randrange(n)
        r = rng.random()
        if r < 0.4:
            inner = [mapping(rng, sc, h + 10, False)]
        elif r < 0.7:
            inner = interleaved(rng, sc, [h + 20])
        else:
            inner = interleaved(rng, sc, [0])
        op['inner'] = [[k, inner]]
    return op


def c14(rng, tier):
    sc = base(rng, tier)
    ops = []
    if rng.random() < 0.4:
        ops += select(rng, sc)
    for k in range(rng.randint(1, 3)):
        ops.append(mapping(rng, sc, 100 + k))
        if rng.random() < 0.3:
            ops += interleaved(rng, sc, [rng.choice([0, 1])])
        if rng.random() < 0.3:
            ops += select(rng, sc)
        if rng.random() < 0.2:
            ops.append(dict(op='ask'))
    return dict(sc, ops=ops)


def concrete(rng, beh):
    mk = beh[0]
    t0 = rng.choice([0, 7, 10000])
    ids = rng.sample(range(1, 50), 2)
    val = {}
    def db(trs):
        res = []
        for tj in trs:
            res.append(dict(id=ids[tj['id'] - 1], t0=t0 + tj['t0'], pts=[
                [[rng.gauss(0, 1) for _ in range(3)], [rng.gauss(0, 1) for _ in range(3)]]
                for _ in tj['pts']]))
        return res
    p, q = db(mk['p']), db(mk['q'])
    ops = []
    sc = dict(keys=[['pos', 3, 'float64'], ['velocity', 3, 'float64']],
        shown=['pos', 'velocity'], ids=ids, p=p, q=q, rng=[t0 + x for x in mk['rng']],
        minlen=mk['minlen'], frate=500., form=[rng.choice(['hdf', 'npz'])] * 2,
        pool=[c for tj in p + q for v in tj['pts'] for x in v for c in x])
    for b in beh[1:]:
        if b['op'] == 'end':
            break
        b = dict(b)
        if b['op'] == 'select':
            have = set(tj['id'] for tj in (p if b['which'] == 'p' else q))
            b['ids'] = [ids[i - 1] for i in b['ids'] if ids[i - 1] in have]
        elif b['op'] == 'start':
            b['lo'] += t0
            b['hi'] += t0
            if rng.random() < 0.5:
                b['iter'] = True
        ops.append(b)
        if rng.random() < 0.1:
            ops.append(dict(op='ask'))
        if rng.random() < 0.1:
            ops.append(mapping(rng, sc, 100 + len(ops), False))
    return dict(sc, ops=ops)
