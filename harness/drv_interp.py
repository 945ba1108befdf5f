"""
Executes scenarios of the Interp specification on the real interpolants.
"""
import math, os
import numpy as np
from flowtracks import interpolation
from flowtracks.analysis import FluidVelocitiesAnalyser
from flowtracks.trajectory import ParticleSnapshot, Frame
from vals import as_int, err, laid
from given import freeze, spoil

BAD = -999999999


def near(x, scale):
    v = float(x) * scale
    return int(round(v)) if math.isfinite(v) and abs(v) < 1e9 else BAD


class Run(object):
    def __init__(self, sc, tmp):
        self.sc, self.tmp = sc, tmp
        self.unit, self.origin = sc['unit'], np.array(sc['origin'])
        p = self.p = sc['par']
        kw = {}
        if p['r']:
            kw['radius'] = self.unit * math.sqrt(p['r'][0] / 2.)
        if not sc['default_k']:
            kw['num_neighbs'] = p['k']
        par = p['p'] // 2 if p['p'] % 2 == 0 else p['p'] / 2.
        if p['method'] == 'corrfun':
            par = os.path.join(tmp, 'corrs.npz')
            h = np.array(p['hist'], dtype=float)
            np.savez(par, corrs=h[:, 0] if h.shape[1] == 1 and sc['flat'] else h,
                bins=self.unit * np.sqrt(np.array(p['bins']) / 2.))
        elif p['method'] == 'rbf':
            par = sc['eps'] / self.unit**2
        if not (p['method'] == 'inv' and p['p'] == 2 and sc['default_p']):
            kw['param'] = par
        self.kw = kw

    def run(self):
        ev = []
        self.held = []
        self.bufs = {}
        for op in [dict(op='new')] + self.sc['ops']:
            e = dict(op=op['op'], err='')
            for k in ('tr', 'pts', 'comp', 'data', 'which', 'want', 'drop', 'k', 'r',
                      'ids', 'tvel', 'pvel', 'at'):
                if k in op:
                    e[k] = op[k]
            try:
                getattr(self, 'do_' + op['op'])(op, e)
            except Exception as exc:
                e['err'] = err(exc)
                e.pop('obs', None)
            # what was given, now or before, remains as it was.
            e['changed'] = [k for k, a, was in self.held if freeze(a) != was]
            if op['op'] != 'new' or e['err']:
                ev.append(e)
            if e['err']:
                break
        par = dict((k, v) for k, v in self.p.items())
        par['kernel'] = [int(round(4000 * math.exp(-self.sc['eps'] * d)))
            for d in range(self.sc['maxd2'] + 1)] if par['method'] == 'rbf' else []
        return dict(ev=ev, par=par)

    def hold(self, *arrs):
        for n, a in enumerate(arrs):
            if a is not None:
                self.held.append((str(n), a, freeze(a)))

    def again(self, role, a):
        """The same array as the last time, with other contents."""
        b = self.bufs.get(role)
        if not self.sc.get('reuse') or a is None:
            return a
        if b is None or b.shape != a.shape or b.dtype != a.dtype or not b.flags.writeable:
            self.bufs[role] = a
            return a
        b[...] = a
        self.held = [h for h in self.held if h[1] is not b]
        return b

    def do_new(self, op, e):
        self.i = interpolation.interpolant(self.p['method'], **self.kw)

    # Grid to real things and back.
    def pos(self, g):
        return laid(self.origin + self.unit * np.array(g, dtype=float).reshape(-1, 3),
            self.sc.get('layout'))

    def grid(self, p):
        return [[near(x, 1. / self.unit) for x in r] for r in np.asarray(p) - self.origin]

    def comp(self, c):
        return None if not c else laid(np.array(c[0], dtype=self.sc['ctype']) - 1,
            self.sc.get('layout'))

    def data(self, d, dims, flat=False):
        d = laid(np.array(d, dtype=float).reshape(-1, dims), self.sc.get('layout'))
        if flat:      # one number for each tracer, or one vector.
            d = d[0] if len(d) == 1 else d[:, 0]
        return d

    def d2(self, x):
        return -1 if np.isinf(x) else near((x / self.unit)**2, 1)

    def vals(self, v, scale=1000):
        return [[near(x, scale) for x in r] for r in v]

    def do_set_scene(self, op, e):
        args = [self.again('tr', self.pos(op['tr'])), self.again('pts', self.pos(op['pts']))]
        kw = {}
        if op['data']:
            args.append(self.again('data', self.data(op['data'][0], op['dims'], op.get('flat'))))
        c = self.again('comp', self.comp(op['comp']))
        if c is not None:
            kw['companionship'] = c
        self.hold(c, *args)
        self.i.set_scene(*args, **kw)

    def do_set_field(self, op, e):
        p = self.again('tr', self.pos(op['tr']))
        self.hold(p)
        self.i.set_field_positions(p)

    def do_set_points(self, op, e):
        c = self.again('comp', self.comp(op['comp']))
        p = self.again('pts', self.pos(op['pts']))
        self.hold(c, p)
        if c is None:
            self.i.set_interp_points(p)
        else:
            self.i.set_interp_points(p, c)

    def do_set_data(self, op, e):
        d = self.data(op['data'], op['dims'], op['flat'])
        d = self.again('data', d)
        self.hold(d)
        self.i.set_data_on_current_field(d)

    def do_trim(self, op, e):
        w = np.array(op['which'], dtype=bool)
        self.hold(w)
        self.i.trim_points(w)

    def nb(self):
        n = len(self.i.field_positions())
        return [[0 if j == n else as_int(j) + 1 for j in r]
            for r in self.i.current_active_neighbs()]

    def do_ask(self, op, e):
        o = {}
        for w in op['want']:
            if w == 'v':
                v = self.i.interpolate()
                o['v'] = self.vals(v)
                spoil(v)
            elif w == 'd':
                o['d'] = [[self.d2(x) for x in r] for r in self.i.current_dists()]
            elif w == 'rel':
                o['rel'] = [[[near(x, 1. / self.unit) for x in y] for y in r]
                    for r in self.i.current_relative_positions()]
            elif w == 'jac':
                # the default step is too long for small distances.
                kw = dict(eps=self.unit / 1000) if self.unit < 1e-2 else {}
                if op['local']:
                    j = self.i.eulerian_jacobian(self.i.interpolate(), **kw)
                else:
                    j = self.i.eulerian_jacobian(**kw)
                o['jac'] = [self.vals(r, 100 * self.unit) for r in j]
                spoil(j)
        if len(self.i.field_positions()):
            o['nb'] = self.nb()
        e['obs'] = o

    def do_shown(self, op, e):
        e['data'] = op['data']
        o = dict(field=self.grid(self.i.field_positions()), data=[])
        if op['data']:
            o['data'] = [[as_int(x) for x in r] for r in self.i.current_data()]
        e['obs'] = o

    def do_subset(self, op, e):
        act = self.i.current_active_neighbs()
        nb = self.nb()
        sub = np.array(act)
        m, k = sub.shape
        drop = [[op['drop'][(i * k + j) % len(op['drop'])] for j in range(k)] for i in range(m)]
        e['drop'] = drop
        sub[np.array(drop, dtype=bool).reshape(m, k)] = len(self.i.field_positions())
        self.hold(sub)
        v = self.i.interpolate(sub) if op['positional'] else self.i.interpolate(subset=sub)
        e['obs'] = dict(nb=nb, v=self.vals(v))
        spoil(v)

    def off(self, op):
        kw = {}
        c = self.again('off-comp', self.comp(op['comp']))
        if c is not None:
            kw['companionship'] = c
        tr = self.again('off-tr', self.pos(op['tr']))
        pts = self.again('off-pts', self.pos(op['pts']))
        self.hold(tr, pts, c)
        return tr, pts, kw

    def do_once(self, op, e):
        tr, pts, kw = self.off(op)
        d = self.data(op['data'], op['dims'])
        self.hold(d)
        v = self.i(tr, pts, d, **kw)
        e['obs'] = dict(v=self.vals(v))
        spoil(v)

    def do_close(self, op, e):
        """At tracers, almost: a tracer at the very position is not used."""
        i = interpolation.interpolant(self.p['method'], **self.kw)
        tr = self.pos(op['tr'])
        pts = tr[np.array(op['at']) - 1].copy()
        pts[:, op['dir']] += self.unit * 1e-8
        kw = {}
        c = self.comp(op['comp'])
        if c is not None:
            kw['companionship'] = c
        if op['once']:
            v = i(tr, pts, self.data(op['data'], op['dims']), **kw)
        else:
            i.set_scene(tr, pts, self.data(op['data'], op['dims']), **kw)
            v = i.interpolate()
        e['obs'] = dict(v=self.vals(v, 10**6))

    def do_select(self, op, e):
        tr, pts, kw = self.off(op)
        if op['r']:
            kw['radius'] = self.unit * math.sqrt(op['r'][0] / 2.)
        if op['give_k'] or not op['r']:
            kw['num_neighbs'] = op['k']
        d, use = interpolation.select_neighbs(tr, pts, **kw)
        e['obs'] = dict(use=[[bool(x) for x in r] for r in use],
            d=[[self.d2(x) for x in r] for r in d])

    def do_ndists(self, op, e):
        tr, pts, kw = self.off(op)
        r = self.i.neighb_dists(tr, pts, **kw)
        e['obs'] = dict(rows=[[self.d2(x) for x in y] for y in r])
        spoil(r)

    def do_fva(self, op, e):
        fr, nx = Frame(), Frame()
        n, m = len(op['tr']), len(op['pts'])
        fr.tracers = ParticleSnapshot(self.pos(op['tr']), self.data(op['tvel'], 3), 7,
            np.array(op['ids'], dtype=np.int64))
        kw = {}
        if op['comp']:
            kw['companion'] = np.array(op['comp'][0], dtype=op.get('cdt', 'int64'))
        fr.particles = ParticleSnapshot(self.pos(op['pts']), self.data(op['pvel'], 3), 7,
            np.arange(m) + 3, **kw)
        # the next frame has the same particles elsewhere, and other tracers.
        nx.tracers = ParticleSnapshot((self.pos(op['tr']) + 1)[::-1],
            self.data(op['tvel'], 3)[::-1] + 1, 8, np.array(op['ids'], dtype=np.int64)[::-1])
        nx.particles = ParticleSnapshot(self.pos(op['pts']) + 1, self.data(op['pvel'], 3) + 1,
            8, np.arange(m) + 3, **kw)
        if not hasattr(self, 'fva'):
            self.fva = FluidVelocitiesAnalyser(self.i)
        self.hold(fr.tracers, fr.particles, nx.tracers, nx.particles)
        r = self.fva.analyse(fr, nx)
        e['obs'] = dict(fluid=self.vals(r[0]), rel=self.vals(r[1]))
        spoil(r)


def run(sc, tmp):
    return Run(sc, tmp).run()
