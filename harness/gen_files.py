"""Scenarios for the Files specification."""

EXC = ['Exception', 'ArithmeticError', 'ValueError', 'KeyError', 'IndexError', 'OSError',
    'TypeError', 'RuntimeError', 'AttributeError', 'EOFError', 'KeyboardInterrupt',
    'AssertionError', 'MemoryError', 'FloatingPointError', 'LookupError']

def trajs(rng, n, t0, f):
    ids = rng.sample(range(3 * n + 2), n)
    res = []
    for i in ids:
        a = rng.randrange(f)
        m = rng.randint(1, f - a)
        res.append(dict(id=i, t=t0 + a, vals=[rng.randint(-9999, 9999) for _ in range(m)]))
    return res

def frames(rng, n, t0):
    res = []
    for k in range(n):
        ids = rng.sample(range(7), rng.randint(1, 4))
        res.append(dict(t=t0 + k, ids=ids, vals=[rng.randint(-9999, 9999) for _ in ids]))
    return res

def write(rng, sc, f, kind, n, fail):
    """fail: after how many things; more than n for no failure."""
    fails = fail <= n
    if kind == 'analysis':
        lo, hi = sc['rng']
        a, b = sorted([rng.randint(lo, hi), rng.randint(lo, hi)])
        tmp = [a, b] if rng.random() < .5 and a < b else []
        if fails:
            # in a frame that there is: every one has something.
            fr = (tmp or sc['rng'])
            ns = fr[1] - fr[0] - 1
            if ns < 1:
                fails = False
            else:
                fail = min(fail, ns - 1)
        return dict(op='analysis', f=f, fail=rng.choice(['source', 'source', 'item'])
            if fails else '', at=fail, tmp=tmp, exc=rng.choice(EXC), two=rng.random() < .4, anew=rng.random() < .3)
    t0 = rng.choice([0, 7, 10001])
    things = trajs(rng, n, t0, rng.randint(1, 5)) if kind == 'trajs' else frames(rng, n, t0)
    how = ''
    item = 'none'
    if fails:
        how = rng.choice(['source', 'source', 'item'])
        if fail >= n:
            how = 'source'
        if fail > 0:
            item = rng.choice(['none', 'wide', 'extra', 'retyped', 'missing'])
    return dict(op='write', kind=kind, f=f, things=things, fail=how, at=fail, item=item,
        exc=rng.choice(EXC),
        list=rng.random() < .4)

def read(rng, f, n):
    hows = ['iter', 'frames', 'generic-iter', 'segments'] if n else \
        ['table', 'generic', 'generic-iter', 'by_id', 'iter', 'frames', 'collect']
    return dict(op='read', f=f, n=n, how=rng.choice(hows), stop=rng.choice(['break', 'raise']))

def base(rng):
    t0 = rng.choice([0, 10001, 5])
    f = rng.randint(2, 6)
    n = rng.randint(1, 4)
    p = trajs(rng, n, t0, f)
    # One is there all the time, so that there is something in each segment.
    p[0]['t'] = t0
    p[0]['vals'] = [rng.randint(-99, 99) for _ in range(f)]
    q = [dict(id=1, t=t0, vals=[rng.randint(-99, 99) for _ in range(f)])]
    return dict(p=p, q=q, rng=[t0, t0 + f], ops=[])

def c30(rng, tier):
    sc = base(rng)
    ops = sc['ops']
    for _ in range(rng.randint(3, 9)):
        f = rng.choice([1, 1, 2])
        if rng.random() < .6:
            n = rng.randint(1, 5)
            ops.append(write(rng, sc, f, rng.choice(['trajs', 'frames', 'analysis']), n,
                rng.choice([n + 1, n + 1, rng.randint(0, n)])))
        if rng.random() < .6:
            ops.append(read(rng, rng.choice([f, f, f, 0]), rng.choice([0, 0, 1, 2])))
    ops.append(write(rng, sc, 1, rng.choice(['trajs', 'frames', 'analysis']), 3, 4))
    ops.append(read(rng, 1, 0))
    return sc

def concrete(rng, beh):
    sc = base(rng)
    for b in beh:
        if b['op'] == 'write':
            sc['ops'].append(write(rng, sc, b['f'], b['kind'], b['n'], b['fail']))
        elif b['op'] == 'read':
            sc['ops'].append(read(rng, b['f'], b['n']))
    return sc
