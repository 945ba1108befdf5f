"""Scenarios for the Dual specification."""
import random
from gen_store import Table, given, save_trajs, size


def stream(rng, tab):
    k = rng.random()
    op = given(rng, tab, rng.choice(['traj', 'frame', 'timely', 'shuffled'])) if k < 0.6 \
        else save_trajs(rng, tab) if k < 0.8 else \
        dict(op='save_frames', frames=tab.frames_list(), lazy=False)
    return tab.scenario([op])


def pair(rng, tier, same=None):
    n, f = size(rng, tier)
    f = max(2, f)
    tp = Table(rng, n, f, extra=rng.choice([0, 0, 1]), holes=rng.choice([0, 0.2, 0.5]),
        early=True)
    tq = Table(rng, rng.randint(1, n + 3), f + rng.choice([0, 0, 0, 3]),
        extra=rng.choice([0, 0, 1]), holes=rng.choice([0, 0.2, 0.5]), t0=tp.t0)
    if rng.random() < 0.4:
        d = rng.choice([-2, -1, 1, 2])
        tq.rows = dict(((i, t + d), v) for (i, t), v in tq.rows.items())
    if same is None:
        same = rng.random() < 0.5
    if same:
        # equal-length streams.
        a = min(tp.times()[0], tq.times()[0])
        b = max(tp.times()[-1], tq.times()[-1])
        for tab in (tp, tq):
            i = rng.choice(tab.ids)
            for t in (a, b):
                if (i, t) not in tab.rows:
                    tab.rows[i, t] = [tab.value(k) for k in tab.keys]
    return tp, tq, same


def rand_range(rng, tp, tq, same):
    a = min(tp.times()[0], tq.times()[0])
    b = max(tp.times()[-1], tq.times()[-1])
    o = lambda x: [] if x is None else [x]
    if same and rng.random() < 0.3:
        lo = None if rng.random() < 0.6 else rng.randint(a - 1, b)
        hi = None if rng.random() < 0.6 else rng.randint(a, b + 2)
    else:
        lo = rng.randint(a - 2, b)
        hi = rng.randint(lo + 1, b + 3)
        if rng.random() < 0.07:
            lo, hi = hi, lo
    return [o(lo), o(hi)]


def length(rng, tp, kind):
    a = rng[0][0] if rng[0] else tp.times()[0]
    b = rng[1][0] if rng[1] else tp.times()[-1] + 1
    return max(0, b - a - (kind == 'seg'))


def c06(rng, tier):
    tp, tq, same = pair(rng, tier)
    base = rand_range(rng, tp, tq, same)
    if same and rng.random() < 0.4:
        base = [[], []]
    ops = [dict(op='ask')]
    for _ in range(rng.randint(1, 5)):
        kind = rng.choice(['frame', 'seg'])
        tmp = [rand_range(rng, tp, tq, same)] if rng.random() < 0.6 else []
        if not tmp and not same and not (base[0] and base[1]):
            tmp = [rand_range(rng, tp, tq, same)]
        ops.append(dict(op='start', kind=kind, tmp=tmp, kw=rng.random() < 0.5))
        n = length(tmp[0] if tmp else base, tp, kind)
        if rng.random() < 0.5:
            ops += [dict(op='next')] * (n + 1)
        else:
            ops += [dict(op='next')] * rng.randint(0, n)
            ops.append(dict(op='abandon', how=rng.choice(['del', 'close', 'throw'])))
        if rng.random() < 0.8:
            ops.append(dict(op='ask'))
    return dict(p=stream(rng, tp), q=stream(rng, tq), rng=base, ops=ops)


def concrete(rng, beh):
    t0 = rng.choice([0, 7, 10001])
    def tab(rows):
        tb = Table(rng, 2, 2, extra=0, t0=t0)
        tb.rows = dict(((tb.ids[r['id'] - 1], t0 + r['t']),
            [tb.value(k) for k in tb.keys]) for r in rows)
        return tb
    mk = beh[0]
    tp, tq = tab(mk['p']), tab(mk['t'])
    sh = lambda r: [[t0 + x for x in r[0]], [t0 + x for x in r[1]]]
    ops = [dict(op='ask')]
    is_open = False
    for b in beh[1:]:
        if b['op'] == 'end':
            break
        if b['op'] == 'start':
            ops.append(dict(op='start', kind=b['kind'],
                tmp=[sh(r) for r in b['tmp']], kw=False))
            is_open = True
        elif b['op'] == 'next':
            ops.append(dict(op='next'))
        else:
            ops += [dict(op='abandon', how=rng.choice(['del', 'close', 'throw'])),
                dict(op='ask')]
    return dict(p=stream(rng, tp), q=stream(rng, tq), rng=sh(mk['rng']), ops=ops)
