"""Scenarios for the Interp specification."""
import math
import gen_store


class Gen(object):
    def __init__(self, rng, tier, method=None, radius=None):
        self.rng = r = rng
        self.method = method or r.choice(['inv', 'inv', 'inv', 'corrfun', 'rbf'])
        self.g = r.choice([2, 3, 4]) if self.method != 'rbf' else r.choice([2, 3])
        self.force = gen_store.FORCE[0] if gen_store.FORCE and self.method != 'rbf' else None
        if self.force:
            self.g = 40     # so that there are few ties.
        self.maxn = 6 if self.method == 'rbf' else 9
        self.top = 9 if self.method == 'rbf' else 20
        k = r.choice([1, 2, 3, 4, 5] if self.method == 'rbf' else [1, 2, 3, 4, 4, 5, 7])
        self.default_k = r.random() < .15 and self.method != 'rbf'
        if self.default_k:
            k = 4
        hd = r.choice([1, 3])
        nb = r.randint(1, 4)
        self.hd = hd
        self.unit = r.choice([1., .001, .25, .1, 2., 1e-6, 1e-6, 1e3])
        # Distances may be exactly the radius or a bin's start, where they are
        # represented exactly.
        self.exact = self.unit not in (.001, .1, 1e-6) and r.random() < .7
        self.par = dict(method=self.method, k=k,
            r=[self.radius(self.g**2 // 4 if self.force else 3 * self.g)] if (r.random() < .3 if radius is None
                else radius) else [],
            # twice the power.
            p=r.choice([2, 2, 4, 6, 8, 1, 3, 5, 0]) if self.method == 'inv' else 2,
            bins=[0] + sorted(r.sample([2, 8, 18] if self.exact else [1, 3, 5, 7, 9, 13],
                nb - 1)) if nb > 1 else [0],
            hist=[[r.randint(1, 9) for _ in range(hd)] for _ in range(nb)])
        self.tr, self.pts, self.comp, self.data = [], [], [], []

    def sc(self, ops):
        r = self.rng
        return dict(layout=r.choice(gen_store.LAYOUTS), reuse=r.random() < .4, par=self.par, ops=ops, unit=self.unit, default_k=self.default_k,
            default_p=r.random() < .5, flat=r.random() < .5, eps=r.choice([.8, 1., 1.3]),
            origin=[r.choice([0., 0., 1.5, -3.]) for _ in range(3)],
            maxd2=3 * self.g**2, ctype=r.choice(['int64', 'int64', 'int32']))

    def radius(self, top):
        r = self.rng
        if self.exact and r.random() < .6:
            return r.choice([2, 8, 18, 18, 32])
        return 2 * r.randint(1, top) + 1

    def cell(self):
        return [self.rng.randint(0, self.g) for _ in range(3)]

    def field(self, empty=0.):
        r = self.rng
        if r.random() < empty:
            return []
        n = r.choice([1, 2, 3, 4, 5, 6, 6, 8, 9])
        n = self.force[0] if self.force else min(n, self.maxn)
        res = []
        while len(res) < n:
            c = self.cell()
            if c not in res:
                res.append(c)
        return res

    def points(self, tr):
        r = self.rng
        res = []
        for _ in range(self.force[1] if self.force else r.choice([1, 1, 2, 3, 5])):
            res.append(list(r.choice(tr)) if tr and r.random() < .15 else self.cell())
        return res

    def comps(self, n, m):
        r = self.rng
        if r.random() < .5 or n == 0:
            return []
        return [[r.choice([0, r.randint(1, n), r.randint(1, n), r.randint(1, n)])
                 for _ in range(m)]]

    def nearest_comps(self, tr, pts):
        """the closest tracer is the companion."""
        r = self.rng
        if not tr:
            return []
        out = []
        for p in pts:
            d = sorted((sum((a - b)**2 for a, b in zip(p, t)), r.random(), j)
                for j, t in enumerate(tr))
            out.append(d[min(len(d) - 1, r.choice([0, 0, 0, 1, 2]))][2] + 1
                       if r.random() < .85 else 0)
        return [out]

    def datas(self, n, dims):
        r = self.rng
        k = r.random()
        if k < .1:
            v = [r.randint(-self.top, self.top) for _ in range(dims)]
            return [list(v) for _ in range(n)]
        return [[r.randint(-self.top, self.top) for _ in range(dims)] for _ in range(n)]

    def dims(self):
        r = self.rng
        return 3 if self.method == 'corrfun' and self.hd == 3 else r.choice([3, 3, 3, 1, 2])

    def fva(self, empty=.05):
        r = self.rng
        tr = self.field(empty)
        pts = self.points(tr)
        ids = r.sample(range(1, 60 + 2 * len(tr)), len(tr))
        c = self.nearest_comps(tr, pts) if r.random() < .6 else self.comps(len(tr), len(pts))
        if c:
            # companions by ID, that may not be in the frame, or none.
            c = [[ids[j - 1] if j else r.choice([-1, 0, 77]) for j in c[0]]]
        # kept in any type that can hold the IDs (not the rows).
        cdt = r.choice(['int64', 'int64', 'int32', 'int8', 'uint8', 'uint16', 'uint32', 'float64'])
        if c and cdt != 'float64':
            b = int(cdt.strip('uint'))
            top, none = (2**b - 1, 0) if cdt[0] == 'u' else (2**(b - 1) - 1, -1)
            c = [[j if none <= j <= top else none for j in c[0]]]
        return dict(op='fva', tr=tr, pts=pts, ids=ids, comp=c, cdt=cdt, tvel=self.datas(len(tr), 3),
            pvel=self.datas(len(pts), 3))

    def off(self):
        tr = self.field()
        pts = self.points(tr)
        comp = self.comps(len(tr), len(pts)) if self.rng.random() < .5 \
            else self.nearest_comps(tr, pts)
        return tr, pts, comp

    def once(self):
        tr, pts, comp = self.off()
        d = self.dims()
        return dict(op='once', tr=tr, pts=pts, comp=comp, data=self.datas(len(tr), d), dims=d)

    def select(self):
        r = self.rng
        tr, pts, comp = self.off()
        return dict(op='select', tr=tr, pts=pts, comp=comp, data=[], k=r.randint(1, 6),
            r=[self.radius(2 * self.g**2)] if r.random() < .5 else [],
            give_k=r.random() < .5)

    def close(self):
        r = self.rng
        tr = self.field()
        at = [r.randint(1, len(tr)) for _ in range(r.randint(1, 4))]
        d = self.dims()
        return dict(op='close', tr=tr, at=at, comp=self.comps(len(tr), len(at)),
            data=self.datas(len(tr), d), dims=d, dir=r.randint(0, 2),
            once=self.method == 'rbf' and r.random() < .5)

    def ndists(self):
        tr, pts, comp = self.off()
        return dict(op='ndists', tr=tr, pts=pts, comp=comp, data=[])


def new_scene(g, empty=0., comp=None, data=True):
    tr = g.field(empty)
    pts = g.points(tr)
    d = g.dims()
    if comp is None:
        comp = g.rng.random() < .4
    c = g.nearest_comps(tr, pts) if comp else g.comps(len(tr), len(pts))
    dt = [g.datas(len(tr), d)] if data else []
    return dict(op='set_scene', tr=tr, pts=pts, comp=c, data=dt, dims=d,
        flat=(len(tr) == 1 or d == 1 and len(tr) > 1) and g.rng.random() < .5)


def ask(g, want, rng):
    w = [x for x in want]
    rng.shuffle(w)
    return dict(op='ask', want=w, local=rng.random() < .3)


def history(rng, tier, g, jac=True):
    ops = [new_scene(g, .05)]
    s = ops[0]
    n, m, d, nd = len(s['tr']), len(s['pts']), s['dims'], len(s['tr'])
    mc = max(s['comp'][0], default=0) if s['comp'] else 0
    r = rng
    for _ in range(r.randint(5, 14) * (1 if tier == 'quick' else 2)):
        k = r.choice(['ask', 'ask', 'ask', 'ask', 'subset', 'field', 'points', 'data', 'trim',
                      'scene', 'once', 'shown', 'fva', 'ndists'])
        fresh = n > 0
        if k == 'ask':
            w = []
            if nd == n:
                w += ['v'] * (r.random() < .7)
                # the general derivative is only for three components.
                if jac and n and (g.method == 'inv' or
                                  (g.method == 'corrfun' and d == 3 and not g.par['r'])):
                    w += ['jac'] * (r.random() < .4)
            if n:
                w += ['d'] * (r.random() < .4) + ['rel'] * (r.random() < .4)
            if not w:
                continue
            ops.append(ask(g, w, r))
        elif k == 'subset' and n and nd == n:
            ops.append(dict(op='subset', drop=[r.random() < .35 for _ in range(r.randint(3, 11))],
                positional=r.random() < .5))
        elif k == 'field':
            tr = g.field(.06)
            if r.random() < .4 and n:     # as many as there are.
                while len(tr) < n:
                    c = g.cell()
                    if c not in tr:
                        tr.append(c)
                tr = tr[:n]
            n = len(tr)
            ops.append(dict(op='set_field', tr=tr))
            if mc > n:      # companions must be of the present field.
                pts = g.points(tr)
                m, c = len(pts), g.comps(n, len(pts))
                mc = max(c[0], default=0) if c else 0
                ops.append(dict(op='set_points', pts=pts, comp=c))
            if r.random() < .6 and nd != n:
                d = g.dims()
                ops.append(dict(op='set_data', data=g.datas(n, d), dims=d, flat=False))
                nd = n
        elif k == 'points':
            pts = g.points([])
            m = len(pts)
            c = g.comps(n, m)
            mc = max(c[0], default=0) if c else 0
            ops.append(dict(op='set_points', pts=pts, comp=c))
        elif k == 'data' or (nd != n and k == 'subset'):
            d = g.dims()
            ops.append(dict(op='set_data', data=g.datas(n, d), dims=d,
                flat=(n == 1 or d == 1 and n > 1) and r.random() < .5))
            nd = n
        elif k == 'trim' and m:
            w = [r.random() < .3 for _ in range(m)]
            m -= sum(w)
            ops.append(dict(op='trim', which=w))
        elif k == 'scene':
            s = new_scene(g, .05, data=r.random() < .7)
            n, m = len(s['tr']), len(s['pts'])
            if s['data']:
                d, nd = s['dims'], n
            mc = max(s['comp'][0], default=0) if s['comp'] else 0
            ops.append(s)
        elif k == 'once' and g.method != 'inv':
            ops.append(g.once())
        elif k == 'shown':
            ops.append(dict(op='shown', data=nd == n))
        elif k == 'ndists':
            ops.append(g.ndists())
        elif k == 'fva' and r.random() < .5:
            s = g.fva(.0)
            n, m, d, nd = len(s['tr']), len(s['pts']), 3, len(s['tr'])
            mc = n if s['comp'] else 0
            ops.append(s)
    if nd != n:
        ops.append(dict(op='set_data', data=g.datas(n, 3), dims=3, flat=False))
    ops.append(ask(g, ['v'], r))
    return g.sc(ops)


def c15(rng, tier):
    return history(rng, tier, Gen(rng, tier))


def c16(rng, tier):
    g = Gen(rng, tier)
    ops = []
    for _ in range(rng.randint(2, 4)):
        k = rng.choice(['scene', 'scene', 'once', 'select', 'select', 'ndists'])
        if k == 'scene':
            ops += [new_scene(g), ask(g, ['v', 'd', 'rel'], rng)]
        elif k == 'once' and g.method != 'inv':
            ops.append(g.once())
        elif k == 'ndists':
            ops.append(g.ndists())
        elif g.method == 'inv' and g.par['p'] > 1 and rng.random() < .3:
            ops.append(g.close())
        else:
            ops.append(g.select())
    return g.sc(ops)


def c17(rng, tier):
    g = Gen(rng, tier)
    ops = []
    for _ in range(rng.randint(2, 4)):
        k = rng.choice(['fva', 'fva', 'scene', 'once', 'select', 'trim'])
        if k == 'fva':
            ops.append(g.fva())
        elif k == 'scene':
            ops += [new_scene(g, comp=True), ask(g, ['v', 'd'], rng)]
        elif k == 'trim':
            s = new_scene(g, comp=True)
            ops += [s, ask(g, ['v'], rng)] if rng.random() < .5 else [s]
            ops += [dict(op='trim', which=[rng.random() < .4 for _ in s['pts']]),
                    ask(g, ['v'], rng)]
        elif k == 'once' and g.method != 'inv':
            ops.append(g.once())
        else:
            ops.append(g.select())
    return g.sc(ops)


def c24(rng, tier):
    g = Gen(rng, tier, 'inv' if rng.random() < .9 else 'corrfun', False if rng.random() < .7 else None)
    if g.method == 'corrfun':
        g.par['r'] = []
    ops = []
    for _ in range(rng.randint(1, 4)):
        s = new_scene(g)
        if g.method == 'corrfun' and s['dims'] != 3:
            s['dims'], s['data'], s['flat'] = 3, [g.datas(len(s['tr']), 3)], False
        ops += [s, ask(g, ['jac'] + ['v'] * (rng.random() < .5), rng)]
        if rng.random() < .4:
            ops += [dict(op='trim', which=[rng.random() < .4 for _ in s['pts']]),
                    ask(g, ['jac'], rng)]
        if rng.random() < .3:
            ops += [dict(op='set_data', data=g.datas(len(s['tr']), 3), dims=3, flat=False),
                    ask(g, ['jac'], rng)]
    return g.sc(ops)


def c27(rng, tier):
    g = Gen(rng, tier, 'rbf')
    ops = []
    for _ in range(rng.randint(2, 4)):
        k = rng.choice(['scene', 'once', 'subset', 'close'])
        if k == 'once':
            ops.append(g.once())
        elif k == 'close':
            ops.append(g.close())
        else:
            ops += [new_scene(g), ask(g, ['v'], rng)]
            if k == 'subset':
                ops.append(dict(op='subset', drop=[rng.random() < .35 for _ in range(7)],
                    positional=rng.random() < .5))
    return g.sc(ops)
