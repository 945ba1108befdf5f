"""Scenarios for the Spline specification."""
import gen_store

# steps of integer length.
STEPS = [(1, 0, 0), (0, 2, 0), (0, 0, 3), (3, 4, 0), (1, 2, 2), (2, 3, 6), (2, -1, 2),
         (-2, 2, 1), (4, 0, 3), (0, -3, 4), (5, 0, 0), (-1, 0, 0), (0, 0, -2)]


def c28(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 24])
        if gen_store.FORCE:
            n = rng.choice(gen_store.FORCE[0])
        k = rng.choice(['any', 'any', 'straight', 'turn', 'smooth'])
        pool = rng.sample(STEPS, dict(any=13, straight=1, turn=2, smooth=4)[k])
        p = [[rng.randint(-5, 5) for _ in range(3)]]
        s = rng.choice(pool)
        for _ in range(n - 1):
            if k in ('any', 'smooth') or rng.random() < .2:
                s = rng.choice(pool)
            p.append([a + b for a, b in zip(p[-1], s)])
        t = [rng.randint(0, 30)]
        hole = rng.random() < .3
        for _ in range(n - 1):
            t.append(t[-1] + 1 + (rng.random() < .2 if hole else 0))
        ops.append(dict(op='given', layout=rng.choice(gen_store.LAYOUTS), pos=p, ts=t, ttype=rng.choice(['int64', 'int64', 'float64']),
            id=rng.randint(0, 99), unit=rng.choice([1., .001, 1e-6, .5, 1000.]),
            accel=rng.random() < .3))
        for _ in range(rng.randint(1, 3)):
            ops.append(dict(op='smooth', order=rng.choice([1, 3, 3, 3, 5]),
                bound=rng.choice([0, 1, 2, 5, 10, 30, 100]), words=rng.random() < .3))
    return dict(ops=ops)
