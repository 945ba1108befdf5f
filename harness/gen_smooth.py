"""Scenarios for the Smooth specification."""
import gen_store


def series(rng, n):
    k = rng.choice(['noise', 'noise', 'poly', 'step', 'spike', 'const', 'jumpy'])
    if k == 'noise':
        return [rng.randint(-20, 20) for _ in range(n)]
    if k == 'poly':
        d = rng.randint(0, 4)
        c = [rng.randint(-2, 2) for _ in range(d + 1)]
        o = rng.randint(0, n)
        return [max(-200, min(200, sum(x * (j - o) ** i for i, x in enumerate(c))))
                for j in range(n)]
    if k == 'step':
        o = rng.randint(0, n)
        return [0 if j < o else 9 for j in range(n)]
    if k == 'spike':
        o = rng.randrange(n)
        return [20 if j == o else 0 for j in range(n)]
    if k == 'const':
        return [rng.randint(-9, 9)] * n
    return [rng.choice([-20, 20]) for _ in range(n)]


def c20(rng, tier):
    pool = [0.]
    w = rng.choice([3, 5, 5, 7, 7, 9, 11])
    order = rng.randint(0, min(5, w - 2))
    trajs = []
    big = gen_store.FORCE[0] if gen_store.FORCE else None
    for i in rng.sample(range(500), big[0] if big else rng.choice([0, 1, 2, 3, 5])):
        n = max(1, rng.choice([w, w + 1, w - 1, 1, 2, w + 4, w + 9]))
        if big:
            n = rng.choice([n, big[1], big[1]])
        props = []
        for k in rng.sample(['accel', 'accel', 'vel_pp', 'acc_pp', 'wall', 'count', 'xyz',
                             'label2', 'id', 'pos_err', 'time2', 'accel_std', 'velocity_ref', 'vel', 'acc',
                             'po', 'accelerated', 'x'], rng.randint(0, 4)):
            if k in [p[0] for p in props]:
                continue
            if k in ('accel', 'vel_pp', 'acc_pp', 'xyz'):
                v = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(n)]
                pool += [x for r in v for x in r]
                ty = 'float64'
            else:
                ty = rng.choice(['int64', 'float64'])
                v = [rng.randint(0, 99) for _ in range(n)]
                pool += [float(x) for x in v]
            props.append([k, v, ty])
        pos = list(zip(*[series(rng, n) for _ in range(3)]))
        t = [rng.randint(0, 20)]
        hole = rng.choice([0, 0, .1, .4])
        for _ in range(n - 1):
            t.append(t[-1] + 1 + (rng.randint(1, 3) if rng.random() < hole else 0))
        trajs.append(dict(id=i, times=t, pos=[list(p) for p in pos],
            vel=[[rng.uniform(-1, 1)] * 3 for _ in range(n)], props=props))
    ops = [dict(op='given', pdtype=rng.choice(['float64', 'float64', 'int64', 'int32', 'float32']), layout=rng.choice(gen_store.LAYOUTS), unit=rng.choice([1., .001, .5, 3.]), trajs=trajs,
        tdtype=rng.choice(['int64', 'float64', 'int32']))]
    fps = lambda: rng.choice([1, 1., 10, 100., 500., 250.5, .5])
    def sm(w, o):
        # NumPy numbers have limits.
        f, ty = rng.choice([(200, 'uint8'), (2000, 'int32'), (500, 'int16'),
            (40000, 'uint16'), (500., 'float32'), (100, 'int8')]) \
            if rng.random() < .25 else (fps(), '')
        return dict(op='smooth', window=w, order=o, fps=f, fty=ty, again=False)
    ops.append(sm(w, order))
    for _ in range(rng.randint(0, 3)):
        k = rng.random()
        if k < .3:     # not allowed.
            ops.append(sm(rng.choice([2, 4, 6, 8]), rng.randint(0, 1)) if rng.random() < .5
                       else sm(rng.choice([3, 5, 7]), rng.randint(2, 5)))
        else:
            w = rng.choice([3, 5, 7, 9, 11])
            ops.append(sm(w, rng.randint(0, min(5, w - 2))))
    return dict(pool=pool, ops=ops)
