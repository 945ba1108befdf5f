"""
Executes scenarios of the Spline specification on Trajectory.smoothed().
"""
import math
import warnings
import numpy as np
from flowtracks.trajectory import Trajectory
from vals import as_int, err, laid


def near(x, scale):
    v = float(x) * scale
    if not math.isfinite(v):
        return -999999999
    return int(round(min(max(v, -9e8), 9e8)))


class Run(object):
    def __init__(self, sc, tmp):
        self.sc = sc

    def run(self):
        ev = []
        for op in self.sc['ops']:
            e = dict(op=op['op'], err='')
            try:
                getattr(self, 'do_' + op['op'])(op, e)
            except Exception as exc:
                e['err'] = err(exc)
                e.pop('obs', None)
            ev.append(e)
            if e['err']:
                break
        return dict(ev=ev)

    def do_given(self, op, e):
        p = np.array(op['pos'], dtype=float)
        self.d = [int(round(math.sqrt(x))) for x in (np.diff(p, axis=0)**2).sum(axis=1)]
        self.unit, self.pos = op['unit'], p
        kw = dict(accel=p * 3.) if op['accel'] else {}
        self.t = Trajectory(laid(p * self.unit, op.get('layout')), p * self.unit * 2.,
            np.array(op['ts'], dtype=op['ttype']), op['id'], **kw)
        e.update(id=op['id'], ts=op['ts'], d=self.d)

    def do_smooth(self, op, e):
        t, u = self.t, self.unit
        e.update(order=op['order'], bound=op['bound'])
        was = dict((k, np.array(v)) for k, v in t.as_dict().items())
        with warnings.catch_warnings(record=True) as told:
            warnings.simplefilter('always')
            if op['words']:
                s = t.smoothed(err_bound=op['bound'] * u / 100., order=op['order'])
            else:
                s = t.smoothed(op['bound'] * u / 100., op['order'])
        same = lambda a: sorted(a.as_dict()) == sorted(was) and a.trajid() == e.get('id', t.trajid()) \
            and all(np.array_equal(a.as_dict()[k], was[k]) for k in was)
        length = float(sum(self.d)) or 1.
        o = dict(unchanged=bool(same(t)), warned=bool(told), asis=bool(same(s)), id=as_int(s.trajid()),
            ts=[as_int(x) for x in s.time()],
            r=[near(x, 100. / u) for x in (s.pos() - t.pos()).ravel()]
                if s.pos().shape == t.pos().shape else [],
            comp=[])
        if not o['asis'] or len(t) > op['order']:
            v, a = s.velocity(), s.accel()
            for c in range(3):
                o['comp'].append(dict(p=[near(x, 1000 / u) for x in s.pos()[:, c]],
                    v=[near(x, 1000 / u / length) for x in v[:, c]],
                    a=[near(x, 1000 / u / length**2) for x in a[:, c]]))
        e['obs'] = o


def run(sc, tmp):
    return Run(sc, tmp).run()
