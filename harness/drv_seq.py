"""
Executes scenarios of the Seq specification on a real Sequence.
"""
import gc, os
import numpy as np
from flowtracks import io
from flowtracks.sequence import Sequence
from flowtracks.particle import Particle
from flowtracks.trajectory import Trajectory
from vals import Coder, as_int, err, FOREIGN, laid, shuffled
from given import spoil


class Abort(BaseException):
    pass

class Planned(Exception):
    pass


class Run(object):
    def __init__(self, sc, tmp):
        self.sc, self.tmp = sc, tmp
        # properties of the particles and of the tracers, and those compared.
        self.keys = dict(p=sc['keys'], q=sc.get('qkeys') or sc['keys'])
        self.shown = dict(p=sc['shown'], q=[k[0] for k in sc['qkeys']]
            if sc.get('qkeys') else sc['shown'])
        self.ids = dict((i, n + 1) for n, i in enumerate(sorted(sc['ids'])))
        self.code = Coder(sc['pool'])
        self.ev = []
        self.its = {}
        self.tok = {}
        self.sels, self.same = {}, {}

    def id(self, i):
        try:
            return self.ids.get(int(i), FOREIGN) if i == int(i) else FOREIGN
        except Exception:
            return FOREIGN

    # ---- files
    def save(self, w, name, form, trajs):
        names = [k[0] for k in self.keys[w]]
        spec = []
        for tj in trajs:
            spec.append(dict(id=self.ids[tj['id']], t0=tj['t0'], pts=[[self.code.cell(
                [c / 1000. for c in x] if form == 'ptvis' else x)
                for k, x in zip(names, p) if k in self.shown[w]] for p in tj['pts']]))
        if form == 'ptvis':
            return self.save_ptvis(name, trajs), spec
        objs = []
        for tj in trajs:
            kw = {}
            n = len(tj['pts'])
            for j, (k, wd, dt) in enumerate(self.keys[w]):
                kw[k] = laid(np.array([p[j] for p in tj['pts']], dtype=dt).reshape(
                    (n, wd) if wd else n), self.sc.get('layout'))
            objs.append(Trajectory(kw.pop('pos'), kw.pop('velocity'),
                np.arange(tj['t0'], tj['t0'] + n), tj['id'],
                **shuffled(kw, self.sc.get('order') and self.sc['order'] + len(objs))))
        if form == 'hdf':
            fn = os.path.join(self.tmp, name + '.h5')
            io.save_particles_table(fn, objs)
        else:
            fn = os.path.join(self.tmp, name) + '/'
            io.save_trajectories(fn, objs, {})
        return fn, spec

    def save_ptvis(self, name, trajs):
        """Linked frames. IDs come with the order of appearance."""
        tmpl = os.path.join(self.tmp, name + '_ptv_is.%d')
        lo, hi = self.sc['files']
        rows = dict((t, []) for t in range(lo, hi + 1))
        for tj in sorted(trajs, key=lambda x: x['id']):
            for k, p in enumerate(tj['pts']):
                t = tj['t0'] + k
                if lo <= t <= hi:
                    rows[t].append((tj, k, p))
        # continuing ones first, so that new ones follow in the order of IDs.
        for t in rows:
            rows[t].sort(key=lambda r: (r[0]['id'],))
        for t in range(lo, hi + 1):
            at = lambda u, tj: [n for n, r in enumerate(rows.get(u, [])) if r[0] is tj]
            with open(tmpl % t, 'w') as f:
                f.write('%d\n' % len(rows[t]))
                for tj, k, p in rows[t]:
                    a, b = at(t - 1, tj), at(t + 1, tj)
                    f.write('%d %d %.3f %.3f %.3f\n' % ((a[0] if a else -1,
                        b[0] if b else -2) + tuple(p[0])))
        return tmpl

    # ---- what is seen
    def snap(self, s, w):
        d = s.as_dict()
        ids = np.asarray(d.pop('trajid'))
        n = len(ids)
        ok = all(len(v) == n for v in d.values())
        return dict(t=as_int(s.time()), rows=[dict(id=self.id(ids[i]),
            v=[self.code.cell(d[k][i]) if k in d else [FOREIGN] for k in self.shown[w]])
            for i in range(n)] if ok else [dict(id=FOREIGN, v=[])])

    def item(self, x):
        a, b = x
        return dict(kind='item', p=self.snap(a.particles, 'p'), q=self.snap(a.tracers, 'q'),
            pn=self.snap(b.particles, 'p'), qn=self.snap(b.tracers, 'q'))

    def traj(self, tr, w):
        d = tr.as_dict()
        t = [as_int(x) for x in tr.time()]
        n = len(t)
        ok = t == list(range(t[0], t[0] + n)) and all(len(v) == n for v in d.values())
        return dict(id=self.id(tr.trajid()), t0=t[0], pts=[[self.code.cell(d[k][i])
            if k in d else [FOREIGN] for k in self.shown[w]] for i in range(n)] if ok else [])

    def value(self, kind):
        n = len(self.tok) + 1
        v = {'scalar': n + .5, 'int': n, 'vec': np.r_[n, -n, n + .25],
            'big': 2**60 + n, 'ivec': np.r_[n, 2**59 + n], 'text': 'v%d' % n,
            'single': np.float32(n + .5), 'matrix': np.r_[n, -n, n + .5, 0.].reshape(2, 2),
            'one': np.r_[n + .5]}[kind]
        self.tok[np.shape(v), tuple(np.ravel(v).tolist())] = n
        return n, v

    def token(self, v):
        try:
            return self.tok.get((np.shape(v), tuple(np.ravel(v).tolist())), FOREIGN)
        except Exception:
            return FOREIGN

    # ---- running
    def run(self):
        try:
            self.make()
            self.do(self.sc['ops'])
        except Abort:
            pass
        return dict(ev=self.ev)

    def event(self, f, e):
        self.ev.append(e)
        try:
            f(e)
        except Exception as exc:
            e['err'] = err(exc)
            e.pop('obs', None)
            raise Abort()

    def make(self):
        sc = self.sc
        e = dict(op='make', err='', rng=sc['rng'], minlen=sc['minlen'], p=[], q=[])
        def f(e):
            pf, e['p'] = self.save('p', 'part', sc['form'][0], sc['p'])
            qf, e['q'] = self.save('q', 'tracers', sc['form'][1], sc['q'])
            kw = {}
            if sc['minlen'] or sc.get('minlen_given'):
                kw['traj_min_len'] = sc['minlen']
            if sc.get('smooth'):
                kw['smooth_tracers'] = True
            self.seq = Sequence(tuple(sc['rng']), sc['frate'], Particle(1e-3, 1000.),
                pf, qf, **kw)
        self.event(f, e)

    def do(self, ops):
        for op in ops:
            if op['op'] == 'map':
                self.do_map(op)
                continue
            e = dict(op, err='')
            e.pop('inner', None)
            if op['op'] == 'select':
                e['ids'] = [self.ids[i] for i in op['ids']]
            self.event(lambda e: getattr(self, 'do_' + op['op'])(op, e), e)

    def do_select(self, op, e):
        ids = set(op['ids'])
        def sel(trs):
            r = [t for t in trs if t.trajid() in ids]
            return r[::-1] if op.get('rev') else r
        if op.get('same'):
            # the same function, which selects something else now.
            w = op['which']
            self.sels[w] = sel
            if w not in self.same:
                self.same[w] = lambda trs: self.sels[w](trs)
            sel = self.same[w]
        (self.seq.set_particle_selector if op['which'] == 'p' else
            self.seq.set_tracer_selector)(sel)

    def do_start(self, op, e):
        if op.get('whole'):
            self.its[op['h']] = iter(self.seq)
        else:
            it = self.seq.iter_subrange(op['lo'], op['hi'])
            self.its[op['h']] = iter(it) if op.get('iter') else it

    def do_next(self, op, e):
        try:
            x = next(self.its[op['h']])
            e['obs'] = self.item(x)
            spoil(x)
        except StopIteration:
            e['obs'] = dict(kind='stop')

    def do_abandon(self, op, e):
        del self.its[op['h']]
        gc.collect()

    def do_ask(self, op, e):
        e['obs'] = dict(rng=[as_int(x) for x in self.seq.range()],
            covered=[as_int(x) for x in self.seq.subrange()],
            p=[self.traj(t, 'p') for t in self.seq.particle_trajectories()],
            q=[self.traj(t, 'q') for t in self.seq.tracer_trajectories()])

    def do_map(self, op):
        h = op['h']
        sub = op['sub']
        self.ev.append(dict(op='start_map', err='', h=h, lo=sub[0] if sub else self.sc['rng'][0],
            hi=sub[1] if sub else self.sc['rng'][1]))
        count = [0]
        given = tuple('arg%d' % k for k in range(op['nargs']))

        def func(seq, frame, next_frame, *rest):
            n = count[0]
            count[0] += 1
            e = dict(op='call', err='', h=h, history=op['history'], args=list(given), ret=[])
            self.ev.append(e)
            try:
                o = self.item((frame, next_frame))
                rest = list(rest)
                o['seen'] = []
                if op['history']:
                    seen = rest.pop(0)
                    o['seen'] = [dict(id=self.id(k), vals=[self.token(x) for x in v
                        if x is not None]) for k, v in sorted(seen.items())]
                o['args'] = [str(x) for x in rest]
                o['self'] = seq is self.seq
                ret = {}
                for i in frame.particles.trajid():
                    t, v = self.value(op['value'])
                    ret[int(i) if op.get('intkeys') else i] = v
                    e['ret'].append(dict(id=self.id(i), v=t))
                e['obs'] = o
            except Exception as exc:
                e['err'] = err(exc)
                raise Abort()
            if n == op.get('raise_at', -1):
                raise Planned()
            for k, inner in op.get('inner', []):
                if k == n:
                    self.do(inner)
            return ret

        e = dict(op='end_map', err='', h=h, failed=False, obs=dict(res=[]))
        try:
            kw = {}
            if op['history']:
                kw['history'] = True
            if op['nargs']:
                kw['args'] = given
            res = self.seq.map_trajectories(func, tuple(sub), **kw) if sub else \
                self.seq.map_trajectories(func, **kw)
            e['obs'] = dict(res=[dict(id=self.id(k), vals=[self.token(x) for x in v])
                for k, v in sorted(res.items())])
        except Planned:
            e['failed'] = True
        except Exception as exc:
            e['err'] = err(exc)
            self.ev.append(e)
            raise Abort()
        self.ev.append(e)


def run(sc, tmp):
    return Run(sc, tmp).run()
