"""
Executes scenarios of the Smooth specification on the real smoothing.
"""
import math
import numpy as np
from flowtracks.smoothing import savitzky_golay
from flowtracks.trajectory import Trajectory
from vals import Coder, as_int, err, laid

OURS = ['pos', 'velocity', 'accel', 'vel_pp', 'acc_pp', 'time']


def near(x, scale):
    v = float(x) * scale
    return int(round(v)) if math.isfinite(v) and abs(v) < 1e9 else -999999999


class Run(object):
    def __init__(self, sc, tmp):
        self.sc = sc
        self.code = Coder(sc['pool'])

    def describe(self, tr):
        d = tr.as_dict()
        return dict(id=as_int(tr.trajid()), len=len(tr), ts=[as_int(t) for t in d['time']],
            props=[dict(name=k, type=str(np.asarray(d[k]).dtype),
                vals=[self.code.cell(x) for x in d[k]]) for k in sorted(d) if k not in OURS])

    def run(self):
        ev = []
        for op in self.sc['ops']:
            e = dict(op=op['op'], err='')
            try:
                getattr(self, 'do_' + op['op'])(op, e)
            except Exception as exc:
                e['err'] = err(exc)
                e.pop('obs', None)
            ev.append(e)
            if e['err']:
                break
        return dict(ev=ev)

    def do_given(self, op, e):
        self.unit = op['unit']
        self.trs, e['trajs'] = [], []
        for tj in op['trajs']:
            n = len(tj['pos'])
            kw = dict((k, np.array(v, dtype=ty)) for k, v, ty in tj['props'])
            x = np.array(tj['pos'], dtype=float) * self.unit
            if self.unit in (1., 3.):
                x = x.astype(op.get('pdtype', 'float64'))     # whole numbers
            tr = Trajectory(laid(x, op.get('layout')),
                np.array(tj['vel'], dtype=float).reshape(n, 3),
                np.array(tj['times'], dtype=op['tdtype']), tj['id'], **kw)
            self.trs.append(tr)
            e['trajs'].append(dict(self.describe(tr),
                pos=[[p[k] for p in tj['pos']] for k in range(3)]))

    def do_smooth(self, op, e):
        e.update(window=op['window'], order=op['order'])
        before = [dict((k, np.array(v)) for k, v in t.as_dict().items()) for t in self.trs]
        fps = op['fps']
        try:
            res = savitzky_golay(self.trs, getattr(np, op['fty'])(fps)
                if op.get('fty') else fps, op['window'], op['order'])
        except (TypeError, ValueError):
            if op['window'] % 2 == 1 and op['window'] >= op['order'] + 2:
                raise
            e['obs'] = dict(accepted=False, unchanged=True, trajs=[])
            return
        same = all(sorted(t.as_dict()) == sorted(b) and
            all(np.array_equal(t.as_dict()[k], b[k], equal_nan=b[k].dtype.kind == 'f')
                for k in b) for t, b in zip(self.trs, before))
        out = []
        u = 1000. / self.unit
        for t in res:
            s = self.describe(t)
            f = lambda v, k, sc: [near(x, sc) for x in v[:, k]]
            s['fit'] = [dict(pos=f(t.pos(), k, u), vel=f(t.velocity(), k, u / fps),
                acc=f(t.accel(), k, u / fps**2), nvel=f(t.vel_pp(), k, u / fps),
                nacc=f(t.acc_pp(), k, u / fps**2)) for k in range(3)]
            out.append(s)
        e['obs'] = dict(accepted=True, unchanged=same, trajs=out)
        if op['again']:
            self.trs = res


def run(sc, tmp):
    return Run(sc, tmp).run()
