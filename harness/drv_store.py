"""
Executes scenarios of the Store specification on the real tables and scenes.

A scenario: keys [[name, width (0 for scalar), dtype]], ops.
Values are concrete numbers, coded here by exact value.
"""
import math
import os
import numpy as np, tables
from flowtracks import io
from flowtracks.scene import Scene
from flowtracks.trajectory import Trajectory, ParticleSnapshot
from vals import Coder, as_int, err, FOREIGN, laid, shuffled
from given import given, spoil


class Run(object):
    def __init__(self, sc, tmp):
        self.sc, self.tmp = sc, tmp
        self.keys = sc['keys']
        self.names = [k[0] for k in self.keys]
        self.ids = dict((i, n + 1) for n, i in enumerate(sorted(sc['ids'])))
        self.code = Coder(sc['pool'])
        self.scene = None
        self.iters = {}
        self.fn = os.path.join(tmp, sc.get('fname', 'scene.h5'))
        self.ev = []

    # ---- abstraction of what the code shows.
    def id(self, i):
        try:
            return self.ids.get(int(i), FOREIGN) if i == int(i) else FOREIGN
        except Exception:
            return FOREIGN

    def schema(self, pset, skip):
        res = []
        for k, v in sorted(pset.as_dict().items()):
            if k in skip:
                continue
            v = np.asarray(v)
            w = 0 if v.ndim == 1 else (v.shape[1] if v.ndim == 2 else -1)
            res.append([k, w, str(v.dtype)])
        return res

    def rows(self, pset, ids, times):
        d = pset.as_dict()
        n = len(ids)
        return [dict(id=self.id(ids[i]), t=as_int(times[i]),
            v=[self.code.cell(d[k][i]) if k in d and i < len(d[k]) else [FOREIGN]
               for k in self.names]) for i in range(n)]

    def traj(self, tr):
        n = len(tr.time())
        ok = all(len(v) == n for v in tr.as_dict().values())
        return dict(kind='traj', id=self.id(tr.trajid()),
            rows=self.rows(tr, [tr.trajid()] * n, tr.time()) if ok else [],
            schema=self.schema(tr, ('time', 'trajid')) if ok else [])

    def snap(self, s, pre=''):
        ids = np.asarray(s.trajid())
        return {'t': as_int(s.time()), 'rows': self.rows(s, ids, [s.time()] * len(ids)),
            'schema': self.schema(s, ('time', 'trajid'))}

    def seg(self, pair):
        a, b = self.snap(pair[0]), self.snap(pair[1])
        return dict(kind='seg', t=a['t'], nt=b['t'], rows=a['rows'],
            nrows=b['rows'], schema=a['schema'], nschema=b['schema'])

    # ---- building objects.
    def arr(self, name, vals):
        k = self.keys[self.names.index(name)]
        a = np.array(vals, dtype=k[2])
        return laid(a.reshape((len(vals), k[1])) if k[1] else a.reshape(len(vals)),
            self.sc.get('layout'))

    def spec_rows(self, rows):
        return [dict(id=self.ids[r['id']], t=r['t'],
            v=[self.code.cell(x) for x in r['v']]) for r in rows]

    def drop(self):
        self.iters.clear()
        self.scene = None

    def open(self, rng=None):
        self.drop()
        self.scene = Scene(self.fn, rng)

    def run(self):
        for op in self.sc['ops']:
            e = dict(op, err='')
            try:
                getattr(self, 'do_' + op['op'])(op, e)
            except Exception as exc:
                e['err'] = err(exc)
                e.pop('obs', None)
            self.ev.append(e)
            if e['err']:
                break
        self.drop()
        return dict(keys=self.keys, ev=self.ev)

    # ---- operations
    def do_save_trajs(self, op, e):
        trajs = []
        spec = []
        for tj in op['trajs']:
            kw = dict((n, self.arr(n, [p['v'][j] for p in tj['pts']]))
                for j, n in enumerate(self.names))
            time = laid(np.array([p['t'] for p in tj['pts']], dtype=op.get('tdtype', 'int64')),
                self.sc.get('layout'))
            trid = tj['id']
            if op.get('npid'):
                trid = np.int64(trid)
            trajs.append(Trajectory(kw.pop('pos'), kw.pop('velocity'), time, trid,
                **shuffled(kw, self.sc.get('order') and self.sc['order'] + len(trajs))))
            spec.append(dict(id=self.ids[tj['id']], pts=[dict(t=p['t'],
                v=[self.code.cell(x) for x in p['v']]) for p in tj['pts']]))
        e['trajs'] = spec
        e['trim'] = op['trim'] or 0
        self.drop()
        with given(e, trajects=trajs):
            if op['trim'] is None:
                io.save_particles_table(self.fn, trajs)
            else:
                io.save_particles_table(self.fn, trajs, trim=op['trim'])
        self.open()

    def do_save_frames(self, op, e):
        frames, spec = [], []
        for fr in op['frames']:
            kw = dict((n, self.arr(n, [p['v'][j] for p in fr['pts']]))
                for j, n in enumerate(self.names))
            frames.append(ParticleSnapshot(kw.pop('pos'), kw.pop('velocity'),
                fr['t'], laid(np.array([p['id'] for p in fr['pts']], dtype=op.get('itype', 'int64')),
                    self.sc.get('layout')),
                **shuffled(kw, self.sc.get('order') and self.sc['order'] + len(frames))))
            spec.append(dict(t=fr['t'], pts=[dict(id=self.ids[p['id']],
                v=[self.code.cell(x) for x in p['v']]) for p in fr['pts']]))
        e['frames'] = spec
        self.drop()
        with given(e, frames=frames):
            io.save_frames_hdf(self.fn, iter(frames) if op.get('lazy') else frames)
        self.open()

    def do_given(self, op, e):
        """A table written without the package."""
        descr = [('trajid', 'i8'), ('time', op.get('tdtype', 'i8'))] + [
            (k[0], k[2], (k[1],)) if k[1] else (k[0], k[2]) for k in self.keys]
        arr = np.zeros(len(op['rows']), dtype=descr)
        for i, r in enumerate(op['rows']):
            arr['trajid'][i], arr['time'][i] = r['id'], r['t']
            for n, v in zip(self.names, r['v']):
                arr[n][i] = v
        self.drop()
        f = tables.open_file(self.fn, 'w')
        try:
            t = f.create_table('/', 'particles', obj=arr,
                chunkshape=op.get('chunk'))
            if op.get('index'):
                t.cols.trajid.create_index()
                t.cols.time.create_index()
            if op['tags']:
                ids = sorted(set(r['id'] for r in op['rows']))
                b = np.zeros(len(ids), dtype=[('trajid', 'i8'), ('first', 'i8'),
                    ('last', 'i8')])
                for i, trid in enumerate(ids):
                    ts = [r['t'] for r in op['rows'] if r['id'] == trid]
                    b[i] = (trid, min(ts), max(ts))
                f.create_table('/', 'bounds', obj=b)
        finally:
            f.close()
        e['rows'] = self.spec_rows(op['rows'])
        self.open(None if op.get('open') is None else
            tuple(x[0] if x else None for x in op['open']))

    def do_set_range(self, op, e):
        lo = op['lo'][0] if op['lo'] else None
        hi = op['hi'][0] if op['hi'] else None
        how = op.get('how', 'set')
        rng = None if how != 'tuple' and lo is None and hi is None else (lo, hi)
        if how == 'open':
            self.open(rng)
        else:
            self.scene.set_frame_range(rng)

    def do_start(self, op, e):
        self.iters[op['h']] = (op['kind'], iter({'frame': self.scene.iter_frames,
            'seg': self.scene.iter_segments,
            'traj': self.scene.iter_trajectories}[op['kind']]()))

    def do_next(self, op, e):
        kind, it = self.iters[op['h']]
        try:
            x = next(it)
        except StopIteration:
            e['obs'] = dict(kind='stop')
            return
        if kind == 'traj':
            e['obs'] = self.traj(x)
        elif kind == 'frame':
            e['obs'] = dict(self.snap(x), kind='frame')
        else:
            e['obs'] = self.seg(x)
        spoil(x)

    def do_close(self, op, e):
        kind, it = self.iters.pop(op['h'])
        if hasattr(it, 'close'):
            it.close()

    def do_traj_by_id(self, op, e):
        e['id'] = self.ids[op['id']]
        x = self.scene.trajectory_by_id(op['id'])
        e['obs'] = self.traj(x)
        spoil(x)

    def do_frame_by_time(self, op, e):
        x = self.scene.frame_by_time(op['t'])
        e['obs'] = dict(self.snap(x), kind='frame')
        spoil(x)

    def key(self, k):
        return 'trajid' if k == 0 else 'time' if k == -1 else self.names[k - 1]

    def do_collect(self, op, e):
        conds = []
        where = {}
        for c in op['conds']:
            where[self.key(c['key'])] = (c['min'], c['max'], c['inv'])
            if c['key'] == 0:
                f = lambda x: self.ids[x]
            elif c['key'] == -1:
                f = int
            else:
                f = self.code
            g = lambda x: f(x) if c['key'] > 0 or not math.isinf(x) \
                else (2**31 - 1 if x > 0 else 1 - 2**31)
            conds.append(dict(key=c['key'], min=g(c['min']), max=g(c['max']),
                inv=c['inv']))
        e['conds'] = conds
        ks = [self.key(k) for k in op['ks']]
        with given(e, keys=ks, where=where):
            if op.get('nowhere') and not where:
                cols = self.scene.collect(ks)
            else:
                cols = self.scene.collect(ks, where)
        res = []
        for k, col in zip(op['ks'], cols):
            if k == 0:
                res.append([[self.id(x)] for x in col])
            elif k == -1:
                res.append([[as_int(x)] for x in col])
            else:
                res.append([self.code.cell(x) for x in col])
        e['obs'] = dict(cols=res)
        spoil(cols)

    def do_ask_range(self, op, e):
        a, b = self.scene.frame_range()
        e['obs'] = dict(first=as_int(a), after=as_int(b))

    def do_ask_ids(self, op, e):
        e['obs'] = dict(ids=[self.id(i) for i in self.scene.trajectory_ids()])

    def do_ask_tags(self, op, e):
        e['obs'] = dict(tags=[dict(id=self.id(r[0]), first=as_int(r[1]),
            last=as_int(r[2])) for r in self.scene.trajectory_tags()])

    def do_ask_keys(self, op, e):
        # The number of components of a scalar is given as 1.
        e['obs'] = dict(keys=[[k, {1: 0, 0: -1}.get(int(s), int(s))] for k, s in
            zip(self.scene.keys(), self.scene.shapes())])

    def do_ask_box(self, op, e):
        e['key'] = self.names.index('pos') + 1
        lo, hi = self.scene.bounding_box()
        e['obs'] = dict(min=self.code.cell(lo), max=self.code.cell(hi))
        spoil(lo, hi)

    def do_load_table(self, op, e):
        kw = {}
        if op['first']:
            kw['first'] = op['first'][0]
        if op['last']:
            kw['last'] = op['last'][0]
        e['obs'] = dict(trajs=[self.traj(t) for t in
            io.trajectories_table(self.fn, **kw)])


def run(sc, tmp):
    return Run(sc, tmp).run()
