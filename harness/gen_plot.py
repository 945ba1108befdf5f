"""Scenarios for the Hist and Plot specifications."""
import gen_store


def data(rng, tier, log, least=2):
    n = rng.choice([least, 3, 5, 8, 20, 60] + [300] * (tier != 'quick'))
    if gen_store.FORCE:
        n = gen_store.FORCE[0][0]
    k = rng.choice(['int', 'real', 'small', 'pow', 'wide', 'edge'])
    if k == 'int':
        d = [rng.randint(-20, 200) for _ in range(n)]
    elif k == 'real':
        d = [rng.gauss(0, 1) + rng.choice([0, 5]) for _ in range(n)]
    elif k == 'small':
        d = [rng.randint(0, 3) for _ in range(n)]
    elif k == 'pow':
        b = rng.choice([2, 3, 10])
        d = [b ** rng.randint(0, 7) for _ in range(n)]
    elif k == 'wide':
        d = [10. ** rng.uniform(-6, 6) for _ in range(n)]
    else:
        d = [rng.randint(0, 12) / 4. for _ in range(n)]
    d = [float(x) + 0. for x in d]
    if log and rng.random() < .7:
        d = [abs(x) if rng.random() < .9 else x for x in d]
    if log:
        d = [x for x in d] + [rng.uniform(.5, 2), rng.uniform(3, 9)]
    if len(set(d)) < 2:
        d += [d[0] + 1.5, d[0] + 1.5]
    rng.shuffle(d)
    scale = rng.choice([1., 1., 1., 1e-18, 1e-9, 1e-3, 1e12])
    return d if scale == 1. else [x * scale for x in d]


def bins(rng, tier):
    log = rng.random() < .5
    d = data(rng, tier, log)
    ty = 'int64' if all(x == int(x) and abs(x) < 1e6 for x in d) and rng.random() < .5 else 'float64'
    if rng.random() < .05 and not log:   # all the same.
        d = [d[0]] * len(d)
    return dict(op='bins', data=d, type=ty, n=rng.choice([1, 2, 3, 4, 5, 8, 10, 17, 30]),
        log=log, square=len(d) % 2 == 0 and rng.random() < .15)


def c25(rng, tier):
    return dict(kind='bins', ops=[bins(rng, tier) for _ in range(8)])


def c29(rng, tier):
    ops = []
    scale = (rng.random() < .4, rng.random() < .5)
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .4:
            if rng.random() < .2:
                scale = (not scale[0], scale[1])
            ops.append(dict(op='hist', data=data(rng, tier, scale[0], 5), n=rng.randint(1, 9),
                log=scale[0], logd=scale[1], reuse=rng.choice([0, 0, 1, 2]),
                call=rng.choice(['graph', 'graph', 'marker', 'disp'])))
        else:
            n = rng.choice([1, 2, 3, 6, 12])
            v = lambda: [[rng.choice([rng.uniform(-3, 3), rng.randint(-4, 4)])
                for _ in range(3)] for _ in range(n)]
            ops.append(dict(op='vectors', vecs=[[float(x) for x in r] for r in v()],
                xs=[rng.choice([float(i), i * .02]) for i in range(n)],
                arrows=v() if rng.random() < .4 else [],
                ticks=rng.choice([0, 0, 0, 2, 3, 5]), scale=rng.choice([0, 0, 1.5, 10.]),
                reuse=rng.choice([0, 0, 1, 2, 3]), label=rng.choice(['t', 'time [s]', 'frame']),
                marker=rng.choice(['', 'x', '-o'])))
    return dict(kind='plot', ops=ops)
