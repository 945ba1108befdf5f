"""Scenarios for the Store specification."""
import random, math

LAYOUTS = [None, None, 'f', 'strided', 'reversed', 'columns', 'readonly']

EXTRA = [
    ['accel', 3, 'float64'], ['diam', 0, 'float64'], ['companion', 0, 'int64'],
    ['uv', 2, 'float32'], ['kind', 0, 'int32'], ['grad', 9, 'float64'],
    ['pair', 2, 'int64'], ['err', 0, 'float32'], ['acc_pp', 3, 'float64'],
    ['flag', 0, 'bool'], ['cls', 0, 'uint8'], ['lev', 2, 'int16'], ['half', 0, 'float16'],
    ['stamp', 0, 'uint64'], ['marks', 3, 'bool'], ['w16', 0, 'uint16'], ['w8', 4, 'int8'],
    # names that the code may use for something else.
    ['t', 0, 'float64'], ['trid', 0, 'int64'], ['key', 2, 'float64'], ['first', 0, 'int32'],
]
SPECIAL = [float('nan'), float('inf'), float('-inf'), -0.0, 0.0, 5e-324,
    1.7976931348623157e308, 2.2250738585072014e-308, -1e-300]


def f32(x):
    import struct
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return 1.5


class Table(object):
    """A random table: keys, ids and rows {(id, t): [values by key]}."""
    def __init__(self, rng, nids=4, frames=6, special=False, holes=0.2,
            extra=None, pool=None, t0=None, bigids=True, neg=True, early=False):
        self.rng = rng
        n = rng.choice([0, 1, 2, 3]) if extra is None else extra
        self.keys = [['pos', 3, 'float64'], ['velocity', 3, 'float64']] + \
            rng.sample(EXTRA, n)
        style = rng.choice(['small', 'gaps', 'big'] if bigids else ['small', 'gaps'])
        if style == 'small':
            self.ids = list(range(nids))
        elif style == 'gaps':
            self.ids = rng.sample(range(0, 5 * nids + 7), nids)
        else:
            self.ids = rng.sample(range(2**31 - 3, 2**40), nids)
            if nids > 1:
                self.ids[0] = 0
            if nids > 1 and rng.random() < .5:
                # alike, if not in all their digits.
                d = rng.choice([1, 2**16, 2**31, 2**32, 2**32])
                a = 2**53 if d == 1 else rng.randint(0, 9)
                self.ids = [a + d * k for k in range(nids)]
        if neg and rng.random() < .15:
            # a number is a number.
            self.ids = rng.sample(range(-nids - 3, nids + 3), nids)
        rng.shuffle(self.ids)
        self.t0 = rng.choice([0, 1, 10001, 7, 99998, 20000001] + [-3] * early) \
            if t0 is None else t0
        self.frames = frames
        self.special = special
        self.pool = pool or self.make_pool()
        self.rows = {}
        for i in self.ids:
            a = rng.randrange(frames)
            b = rng.randrange(a, frames)
            if rng.random() < 0.25:
                a, b = 0, frames - 1
            times = list(range(a, b + 1))
            if rng.random() < holes and len(times) > 2:
                times = [t for t in times if rng.random() < 0.7] or times[:1]
            for t in times:
                self.rows[i, self.t0 + t] = [self.value(k) for k in self.keys]

    def make_pool(self):
        r = self.rng
        p = [r.gauss(0, 1) for _ in range(6)] + \
            [r.uniform(-1, 1) * 10**r.randint(-12, 12) for _ in range(4)] + \
            [float(r.randint(-5, 5)) for _ in range(3)]
        base = r.uniform(1e-3, 1)
        p += [base, base * (1 + 2.3e-16), base * (1 + 1e-9), base * (1 + 1e-6)]
        return p

    def value(self, key):
        name, w, dt = key
        r = self.rng
        def one():
            if dt == 'bool':
                return r.choice([0, 1])
            if dt == 'float16':
                return r.choice([0., 1.5, -0.25, 2048., r.randint(-99, 99) / 8.])
            if dt.startswith('uint') or dt in ('int8', 'int16'):
                b = int(dt.strip('uint'))
                lo, hi = (0, 2**b - 1) if dt[0] == 'u' else (-2**(b - 1), 2**(b - 1) - 1)
                return r.choice([0, 1, lo, hi, hi - 1, r.randint(0, 99), r.randint(lo, hi)])
            if dt.startswith('int'):
                return r.choice([0, 1, -1, r.randint(-9, 9), r.randint(-9, 9),
                    2**31 - 1 if dt == 'int32' else 2**33 + 1])
            x = r.choice(SPECIAL) if self.special and r.random() < 0.2 \
                else r.choice(self.pool) if r.random() < 0.6 else r.gauss(0, 1)
            return f32(x) if dt == 'float32' else x
        return [one() for _ in range(w)] if w else one()

    # ---
    def times(self):
        return sorted(set(t for _, t in self.rows))

    def traj(self, i):
        return [dict(t=t, v=self.rows[j, t]) for j, t in sorted(self.rows)
            if j == i]

    def trajs(self):
        return [dict(id=i, pts=self.traj(i)) for i in self.ids if self.traj(i)]

    def frames_list(self, shuffle=True, empties=True):
        res = []
        ts = self.times()
        lo, hi = ts[0], ts[-1]
        if empties and self.rng.random() < 0.5:
            lo, hi = lo - 1, hi + 1
        for t in range(lo, hi + 1):
            pts = [dict(id=i, v=self.rows[i, u]) for i, u in sorted(self.rows) if u == t]
            if shuffle:
                self.rng.shuffle(pts)
            if pts or empties:
                res.append(dict(t=t, pts=pts))
        return res

    def row_list(self, order='shuffled'):
        rs = [dict(id=i, t=t, v=v) for (i, t), v in self.rows.items()]
        if order == 'traj':
            rs.sort(key=lambda r: (self.ids.index(r['id']), r['t']))
        else:
            self.rng.shuffle(rs)
            if order == 'frame':
                rs.sort(key=lambda r: r['t'])
            elif order == 'timely':   # interleaved, but each one in time order
                rs.sort(key=lambda r: r['t'] + self.rng.uniform(0, .99))
        return rs

    def all_values(self):
        res = []
        for v in self.rows.values():
            for x in v:
                res.extend(x if isinstance(x, list) else [x])
        return res

    def scenario(self, ops, more=()):
        return dict(keys=self.keys, ids=self.ids,
            pool=self.all_values() + list(more), ops=ops,
            layout=self.rng.choice(LAYOUTS), order=self.rng.choice([0, self.rng.getrandbits(20)]))


def drain(h, kind, n):
    return [dict(op='start', kind=kind, h=h)] + [dict(op='next', h=h)] * n


def nframes(tab, lo, hi):
    a = lo if lo is not None else tab.times()[0]
    b = hi if hi is not None else tab.times()[-1] + 1
    return max(0, b - a)


def rand_range(rng, tab, wide=True):
    ts = tab.times()
    a, b = ts[0], ts[-1]
    o = lambda x: [] if x is None else [x]
    k = rng.random()
    if k < 0.15:
        return None, None
    lo = rng.randint(a - 2, b + 1) if rng.random() < 0.75 else None
    hi = rng.randint(a - 1, b + 3) if rng.random() < 0.75 else None
    if rng.random() < 0.2:
        lo = rng.choice([a, b])
    if rng.random() < 0.2:
        hi = rng.choice([a, b, b + 1])
    return lo, hi


def set_range(rng, tab, lo, hi):
    o = lambda x: [] if x is None else [x]
    return dict(op='set_range', lo=o(lo), hi=o(hi),
        how=rng.choice(['set', 'tuple', 'open']))


def save_trajs(rng, tab, trim=None):
    return dict(op='save_trajs', trajs=tab.trajs(), trim=trim,
        npid=rng.random() < 0.5,
        tdtype=rng.choice(['int64', 'int64', 'float64', 'int32']))


def given(rng, tab, order=None):
    rows = tab.row_list(order or rng.choice(['traj', 'frame', 'timely']))
    return dict(op='given', rows=rows, tags=rng.random() < 0.6,
        index=rng.random() < 0.6, chunk=rng.choice([None, None, [2], [7]]),
        tdtype=rng.choice(['i8', 'i8', 'f8', 'i4']))


def opt(x):
    return [] if x is None else [x]


def loads(rng, tab, n=2):
    res = [dict(op='load_table', first=[], last=[])]
    for _ in range(n):
        lo, hi = rand_range(rng, tab)
        res.append(dict(op='load_table', first=opt(lo), last=opt(hi)))
    return res


def full_reads(rng, tab):
    n = len(tab.ids)
    ops = drain(1, 'traj', n + 1) + drain(2, 'frame', nframes(tab, None, None) + 1)
    ops += [dict(op='traj_by_id', id=i) for i in rng.sample(tab.ids, min(3, n))
        if tab.traj(i)]
    ops.append(dict(op='collect', ks=[0, -1] + list(range(1, len(tab.keys) + 1)),
        conds=[], nowhere=rng.random() < 0.5))
    return ops


FORCE = []     # sizes to make, instead of random ones.

def size(rng, tier):
    """how many trajectories and frames."""
    if FORCE:
        return FORCE[0]
    k = rng.random()
    if k < 0.1:
        return 1, rng.choice([1, 2, 4])
    if k < 0.8:
        return rng.randint(2, 5), rng.randint(2, 7)
    if k < 0.97:
        return rng.randint(5, 14), rng.randint(4, 14)
    return rng.randint(20, 30), rng.randint(10, 20)


# ------------------------------------------------------------------ C01
def c01(rng, tier):
    n, f = size(rng, tier)
    tab = Table(rng, n, f, special=rng.random() < 0.4, early=True)
    ops = []
    pool = []
    for again in range(1 if rng.random() < 0.8 else 2):
        trim = rng.choice([None, None, 0, 1, 1, 2, 3])
        if trim and not any(len(tj['pts']) > 2 * trim for tj in tab.trajs()):
            trim = 0
        kept = [tj for tj in tab.trajs() if len(tj['pts']) > 2 * (trim or 0)]
        ops.append(save_trajs(rng, tab, trim))
        ops += [dict(op='ask_keys'), dict(op='ask_ids'), dict(op='ask_tags'),
            dict(op='ask_range')]
        ops += loads(rng, tab)
        ops += drain(1, 'traj', len(kept) + 1)
        ops += [dict(op='traj_by_id', id=tj['id']) for tj in
            rng.sample(kept, min(3, len(kept)))]
        ops.append(dict(op='collect', ks=[0, -1] + list(range(1, len(tab.keys) + 1)),
            conds=[], nowhere=rng.random() < 0.5))
        pool = pool + tab.all_values()
        if rng.random() < 0.5:
            nt = Table(rng, n, f, special=rng.random() < 0.4, early=True)
            nt.keys, nt.ids = tab.keys, tab.ids
            olds = list(tab.rows.items())
            tab2 = tab
            tab2.rows = dict((k, [tab.value(x) for x in tab.keys]) for k, v in olds
                if rng.random() < 0.7) or dict(olds)
    return tab.scenario(ops, pool)


# ------------------------------------------------------------------ C02
def c02(rng, tier):
    n, f = size(rng, tier)
    tab = Table(rng, n, f, special=False, holes=0.4, early=True)
    ops = [dict(op='save_frames', frames=tab.frames_list(), lazy=rng.random() < 0.5,
        itype=rng.choice(['int64', 'int64', 'float64']) if max(tab.ids) <= 2**53
            else 'int64'),
        dict(op='ask_keys'), dict(op='ask_ids'), dict(op='ask_tags'),
        dict(op='ask_box', all=True), dict(op='ask_range')]
    ops += loads(rng, tab, 1) + full_reads(rng, tab)
    lo, hi = rand_range(rng, tab)
    ops.append(set_range(rng, tab, lo, hi))
    ops += drain(3, 'frame', nframes(tab, lo, hi) + 1)
    return tab.scenario(ops)


# ------------------------------------------------------------------ C03
def c03(rng, tier):
    n, f = size(rng, tier)
    tab = Table(rng, n, f, extra=rng.choice([0, 1, 2]), early=True)
    k = rng.random()
    ops = [given(rng, tab) if k < 0.6 else save_trajs(rng, tab) if k < 0.8 else
        dict(op='save_frames', frames=tab.frames_list(), lazy=False)]
    ts = tab.times()
    ops.append(dict(op='ask_ids'))
    for rnd in range(rng.randint(1, 3)):
        lo, hi = (None, None) if rnd == 0 and rng.random() < 0.4 else rand_range(rng, tab)
        if rnd or lo is not None or hi is not None:
            ops.append(set_range(rng, tab, lo, hi))
        ops.append(dict(op='ask_range'))
        # Interleaved iterations, with other questions in between.
        nf = nframes(tab, lo, hi)
        steps = {}
        for h in range(rng.randint(1, 3)):
            kind = rng.choice(['frame', 'traj', 'seg'])
            ops.append(dict(op='start', kind=kind, h=h))
            steps[h] = (len(tab.ids) if kind == 'traj' else nf) + 1
            if rng.random() < 0.15:
                steps[h] = rng.randint(0, steps[h])
        while any(steps.values()):
            h = rng.choice([x for x in steps if steps[x]])
            ops.append(dict(op='next', h=h))
            steps[h] -= 1
            if rng.random() < 0.15:
                ops.append(rng.choice([
                    dict(op='frame_by_time', t=rng.choice(ts)),
                    dict(op='traj_by_id', id=rng.choice(sorted(set(i for i, _ in tab.rows)))),
                    dict(op='ask_range'),
                    dict(op='collect', ks=[0, -1], conds=[])]))
        for h in steps:
            ops.append(dict(op='close', h=h))
        ops.append(dict(op='collect', ks=[0, -1, 1], conds=[]))
        if rng.random() < 0.3:
            ops.append(dict(op='ask_box', all=False) if nf and lo is None and hi is None
                and not (0.8 <= k) else dict(op='ask_range'))
    return tab.scenario(ops)


# ------------------------------------------------------------------ C04
def c04(rng, tier):
    n, f = size(rng, tier)
    tab = Table(rng, max(2, n), max(2, f), extra=rng.choice([0, 1, 2]), early=True,
        holes=rng.choice([0, 0.3, 0.8]))
    k = rng.random()
    ops = [given(rng, tab, rng.choice(['frame', 'timely', 'traj', 'shuffled'])) if k < 0.6
        else save_trajs(rng, tab) if k < 0.8 else
        dict(op='save_frames', frames=tab.frames_list(), lazy=False)]
    for rnd in range(rng.randint(1, 3)):
        lo, hi = (None, None) if rnd == 0 else rand_range(rng, tab)
        if rnd:
            ops.append(set_range(rng, tab, lo, hi))
        ops += drain(1, 'seg', max(0, nframes(tab, lo, hi) - 1) + 1)
    return tab.scenario(ops)


# ------------------------------------------------------------------ C05
def c05(rng, tier):
    n, f = size(rng, tier)
    tab = Table(rng, n, f, extra=0, early=True)
    tab.keys = [['pos', 3, 'float64'], ['velocity', 3, 'float64'],
        ['diam', 0, 'float64'], ['companion', 0, 'int64'], ['err', 0, 'float64']]
    # whole numbers beyond those that floats have, and narrower columns
    kind = rng.choice(['int64', 'int64', 'big', 'big', 'int32', 'int16', 'int8', 'uint8',
        'uint16', 'uint32'])
    at = dict(big=rng.choice([2**53, 2**60, 2**62, -2**60, 2**53 - 1, 2**31]), int32=2**31 - 6,
        int16=-2**15 + 5, int8=122, uint8=250, uint16=65530, uint32=2**32 - 5).get(kind, 0) \
        if kind == 'big' or rng.random() < .6 else 5
    tab.keys[3][2] = 'int64' if kind == 'big' else kind
    half = kind != 'big'
    base = rng.choice([1.0, 1e-3, rng.uniform(1e-8, 1e8)])
    near = [base, math.nextafter(base, 9e99), math.nextafter(base, -9e99),
        base * (1 + 1e-7), base * (1 - 1e-7), -base, 0.0, base * 3]
    near = [x + 0.0 for x in near]
    if rng.random() < .2:
        near += [float('inf'), float('-inf')]
    for kk in tab.rows:
        tab.rows[kk] = [[rng.choice(near) for _ in range(3)],
            [rng.gauss(0, 1) for _ in range(3)], rng.choice(near),
            at + rng.randint(-3, 3), rng.choice(near + tab.pool)]
    ops = [given(rng, tab) if rng.random() < 0.6 else save_trajs(rng, tab)]
    ts = tab.times()
    more = list(near) + tab.pool + [float('inf'), float('-inf')] + [at + x for x in range(-5, 6)] + \
        [at + x + 0.5 for x in range(-5, 6) if half]
    ids = sorted(tab.ids)
    for rnd in range(rng.randint(4, 9)):
        if rng.random() < 0.3:
            lo, hi = rand_range(rng, tab)
            ops.append(set_range(rng, tab, lo, hi))
        conds = []
        for key in rng.sample([3, 3, 4, 5, 0, -1], rng.choice([0, 1, 1, 2, 3])):
            if key in [c['key'] for c in conds]:
                continue
            if key == 3:
                b = [rng.choice(near), rng.choice(near)]
            elif key == 4:
                b = [at + rng.randint(-4, 4) + rng.choice([0, 0, 0.5] if half else [0])
                    for _ in 'ab']
                if half and rng.random() < .5:
                    b = [float(x) for x in b]
            elif key == 5:
                b = [rng.choice(near + tab.pool), rng.choice(near + tab.pool)]
            elif key == 0:
                b = [rng.choice(ids), rng.choice(ids)]
            else:
                b = [rng.choice(ts), rng.choice(ts) + rng.choice([0, 1])]
            if rng.random() < 0.15:
                b[rng.randrange(2)] = rng.choice([float('inf'), float('-inf')])
            if rng.random() < 0.8:
                b.sort()
            conds.append(dict(key=key, min=b[0], max=b[1], inv=rng.random() < 0.4))
        ks = rng.choice([[0, -1], [3], [0, -1, 1, 3], [1], [4, 0, -1], [2, 0, -1, 5], [1, 3, 1], [0, 0, -1, 3, 3],
            [-1], [0], [1, 2, 3, 4, 5, 0, -1], [5, 3]])
        ops.append(dict(op='collect', ks=ks, conds=conds, nowhere=rng.random() < 0.5))
    return tab.scenario(ops, more)


# ------------------------------------------- behaviours of the TLC model
def concrete(rng, beh):
    """A behaviour of MCStore, with concrete ids, frames and values."""
    nid, nt, nv = 3, 3, 4
    ids = sorted(rng.sample(rng.choice([range(9), range(2**33, 2**33 + 50)]), nid + 1))
    t0 = rng.choice([0, 10000, 99])
    vals = sorted(rng.choice([[1., 2., 3., 4.],
        [rng.gauss(0, 1) for _ in range(4)],
        [1e-9, 1.0000001e-9, 1.00000010001e-9, 2e-9]]))
    keys = [['pos', 3, 'float64'], ['velocity', 3, 'float64'], ['diam', 0, 'float64']]
    pool = list(vals)
    ops = []
    mk = lambda r: [[vals[r['v'][0][0] - 1], float(r['id']), float(r['t'])],
        [float(r['t']), 0., float(r['id'])], vals[r['v'][0][0] - 1]]
    pool += [float(x) for x in range(0, 5)]
    rows = []
    for b in beh:
        o = b['op']
        if o in ('save_trajs', 'save_frames'):
            rows = b['rows']
            if o == 'save_trajs':
                trajs = []
                for i in sorted(set(r['id'] for r in rows)):
                    trajs.append(dict(id=ids[i], pts=[dict(t=t0 + r['t'], v=mk(r))
                        for r in sorted(rows, key=lambda r: r['t']) if r['id'] == i]))
                ops.append(dict(op=o, trajs=trajs, trim=b['trim'], npid=False))
            else:
                frames = [dict(t=t0 + t, pts=[dict(id=ids[r['id']], v=mk(r))
                    for r in rows if r['t'] == t]) for t in range(1, nt + 1)]
                ops.append(dict(op=o, frames=frames))
        elif o == 'set_range':
            ops.append(dict(op=o, lo=[t0 + x for x in b['lo']],
                hi=[t0 + x for x in b['hi']], how=rng.choice(['set', 'tuple', 'open'])))
        elif o == 'traj_by_id':
            ops.append(dict(op=o, id=ids[b['id']]))
        elif o == 'frame_by_time':
            ops.append(dict(op=o, t=t0 + b['t']))
        elif o == 'collect':
            ops.append(dict(op=o, ks=[0, -1, 1, 3], conds=[dict(key=3,
                min=vals[c['min'] - 1], max=vals[c['max'] - 1], inv=c['inv'])
                for c in b['conds']]))
        elif o == 'end':
            pass
        else:
            ops.append(dict(b))
    return dict(keys=keys, ids=ids, pool=pool, ops=ops)
