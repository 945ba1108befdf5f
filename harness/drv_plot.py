"""
Executes scenarios of the Hist and Plot specifications on the real graphics.
"""
import os
os.environ['MPLBACKEND'] = 'Agg'
import math
import numpy as np
import matplotlib.pyplot as pl
from matplotlib.quiver import Quiver
from flowtracks import graphics
from vals import Coder, err, FOREIGN
from given import given


def sc(x, scale):
    v = float(x) * scale
    return int(round(v)) if math.isfinite(v) and abs(v) < 2e9 else -999999999


class Run(object):
    def __init__(self, scen, tmp):
        self.sc = scen
        self.figs = []       # (number, kind)
        self.pool = []
        pl.close('all')

    def run(self):
        ev = []
        ops = self.sc['ops']
        code = None
        try:
            if self.sc['kind'] == 'plot':
                code = self.codes(ops)
        except Exception as exc:
            return dict(ev=[dict(op='bins', err=err(exc))])
        self.code = code
        for op in ops:
            e = dict(op=op['op'], err='')
            try:
                getattr(self, 'do_' + op['op'])(op, e)
            except Exception as exc:
                e['err'] = err(exc)
                e.pop('obs', None)
            ev.append(e)
            if e['err']:
                break
        pl.close('all')
        return dict(ev=ev)

    def codes(self, ops):
        pool = []
        for op in ops:
            if op['op'] == 'hist':
                h, b = graphics.pdf_bins(np.array(op['data']), op['n'], op['log'])
                op['h'], op['b'] = h, b
                pool += [float(x) for x in h] + [float(x) for x in b]
            elif op['op'] == 'vectors':
                for k in ('vecs', 'arrows'):
                    pool += [float(x) for r in op[k] for x in r]
                pool += [float(x) for x in op['xs']]
        return Coder(pool)

    def do_bins(self, op, e):
        data = np.array(op['data'], dtype=op['type'])
        if op.get('square'):
            data = data.reshape(2, -1)
        with given(e, data=data):
            if op['log']:
                h, b = graphics.pdf_bins(data, op['n'], True)
            else:
                h, b = graphics.pdf_bins(data, op['n'])
        h, b = np.asarray(h), np.asarray(b)
        code = Coder(list(op['data']) + [float(x) for x in b] + [0.])
        e.update(data=[code(x) for x in op['data']], zero=code(0.), n=op['n'], log=op['log'])
        d = np.array(op['data'], dtype=float)
        if op['log']:
            d = np.log(d[d > 0])
            with np.errstate(all='ignore'):
                pb = np.log(b)
        else:
            pb = b
        lo, hi = d.min(), d.max()
        num = len(d)
        w = np.diff(b)
        e['obs'] = dict(edges=[code(x) for x in b],
            place=[sc((x - lo) / (hi - lo), 10**6) if hi > lo else 0 for x in pb],
            shares=[sc(h[k] * w[k] * num, 1000) for k in range(min(len(h), len(w)))]
                if len(h) == len(w) else [FOREIGN],
            total=sc(np.sum(h * w), 10**6) if len(h) == len(w) else FOREIGN)

    def cells(self, v):
        return [self.code(x) for x in np.ravel(v)]

    def figures(self):
        res = []
        for f in pl.get_fignums():
            fig = pl.figure(f)
            axes = sorted(fig.axes, key=lambda a: -a.get_position().y0)
            res.append(dict(f=f, panels=[dict(
                curves=[dict(x=self.cells(ln.get_xdata(orig=True)),
                    y=self.cells(ln.get_ydata(orig=True))) for ln in a.lines],
                arrows=[dict(x=self.cells(q.XY[:, 0]), y=self.cells(q.XY[:, 1]),
                    v=self.cells(q.V)) for q in a.collections if isinstance(q, Quiver)],
                logx=a.get_xscale() == 'log', logy=a.get_yscale() == 'log')
                for a in axes]))
        return res

    def usual(self, op):
        """arguments, without those at the end that are the default."""
        if not op['logd']:
            return [op['log']] if op['log'] else []
        return [op['log'], op['logd']]

    def do_hist(self, op, e):
        mine = [f for f, k in self.figs if k == 'hist']
        if op['reuse'] and mine:
            f = mine[op['reuse'] % len(mine)]
            pl.figure(f)
        else:
            f = pl.figure().number
            self.figs.append((f, 'hist'))
        e.update(f=f, log=op['log'], logd=op['logd'], starts=self.cells(op['b'][:-1]),
            dens=self.cells(op['h']))
        data = np.array(op['data'])
        with given(e, data=data, hist=op['h'], bins=op['b']):
            if op['call'] == 'graph':
                graphics.pdf_graph(data, op['n'], *self.usual(op))
            elif op['call'] == 'marker':
                graphics.pdf_graph(data, op['n'], log=op['log'],
                    log_density=op['logd'], marker='x')
            else:
                graphics.generalized_histogram_disp(op['h'], op['b'][:-1],
                    *self.usual(op))
        e['obs'] = dict(figs=self.figures())

    def do_vectors(self, op, e):
        mine = [f for f, k in self.figs if k == 'vectors']
        kw = {}
        if op['reuse'] and mine:
            f = mine[op['reuse'] % len(mine)]
            kw['fig'] = pl.figure(f)
            # some other figure is the current one.
            pl.figure(self.figs[op['reuse'] % len(self.figs)][0])
        else:
            f = max([0] + pl.get_fignums()) + 1
            self.figs.append((f, 'vectors'))
        vecs = np.array(op['vecs'])
        if op['arrows']:
            kw['arrows'] = np.array(op['arrows'])
        e.update(f=f, xs=self.cells(op['xs']), comps=[self.cells(vecs[:, k]) for k in range(3)],
            arrows=[self.cells(kw['arrows'][:, k]) for k in range(3)] if op['arrows'] else [],
            limits=[], ends=[[sc(vecs[:, k].min(), 10**4), sc(vecs[:, k].max(), 10**4)]
                for k in range(3)], nticks=op['ticks'])
        if op['ticks']:
            kw['ytick_dens'] = op['ticks']
        elif op['scale']:
            kw['common_scale'] = op['scale']
            e['limits'] = [[sc(m - op['scale'], 10**4), sc(m + op['scale'], 10**4)]
                for m in vecs.mean(axis=0)]
        if op['marker']:
            kw['marker'] = op['marker']
        xs = np.array(op['xs'])
        with given(e, vecs=vecs, indep=xs, arrows=kw.get('arrows')):
            fig = graphics.plot_vectors(vecs, xs, op['label'], **kw)
        axes = sorted(pl.figure(f).axes, key=lambda a: -a.get_position().y0)
        e['obs'] = dict(returned=fig.number, figs=self.figures(),
            limits=[[sc(y, 10**4) for y in a.get_ylim()] for a in axes]
                if e['limits'] else [],
            ticks=[[sc(y, 10**4) for y in a.get_yticks()] for a in axes]
                if op['ticks'] else [],
            label=axes[-1].get_xlabel() == op['label'] and
                [a.get_xaxis().get_visible() for a in axes] == [False, False, True])


def run(scen, tmp):
    return Run(scen, tmp).run()
