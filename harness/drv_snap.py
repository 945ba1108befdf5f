"""
Executes scenarios of the Snap and Pairs specifications on the real functions.
"""
import os
import numpy as np
import scipy.io
from flowtracks import io, trajectory, pairs
from flowtracks.trajectory import Trajectory
from vals import Coder, as_int, err, FOREIGN, laid, shuffled
from given import given, spoil


class Run(object):
    def __init__(self, sc, tmp):
        self.sc, self.tmp = sc, tmp
        self.keys = sc['keys']
        self.names = [k[0] for k in self.keys]
        self.ids = dict((i, n + 1) for n, i in enumerate(sorted(sc['ids'])))
        self.code = Coder(sc['pool'])
        self.ev = []

    def id(self, i):
        try:
            return self.ids.get(int(i), FOREIGN) if i == int(i) else FOREIGN
        except Exception:
            return FOREIGN

    def make(self, trajs, tdtype='int64'):
        objs, spec = [], []
        for tj in trajs:
            kw = {}
            there = [i for i in range(len(tj['pts'])) if i not in tj.get('holes', [])]
            n = len(there)
            for j, (k, w, dt) in enumerate(self.keys):
                dt = tj.get('types', {}).get(k, dt)
                kw[k] = laid(np.array([tj['pts'][i][j] for i in there], dtype=dt).reshape(
                    (n, w) if w else n), self.sc.get('layout'))
            objs.append(Trajectory(kw.pop('pos'), kw.pop('velocity'),
                (np.array(there) + tj['t0']).astype(tdtype), tj['id'],
                **shuffled(kw, self.sc.get('order') and self.sc['order'] + len(objs))))
            spec.append(dict(id=self.ids[tj['id']], t0=tj['t0'],
                holes=[tj['t0'] + i for i in tj.get('holes', [])],
                pts=[[self.code.cell(x) for x in p] for p in tj['pts']]))
        return objs, spec

    def snap(self, s):
        d = s.as_dict()
        ids = np.asarray(d.pop('trajid'))
        n = len(ids)
        ok = all(len(v) == n for v in d.values()) and len(s) == n
        schema = []
        for k, v in sorted(d.items()):
            v = np.asarray(v)
            schema.append([k, 0 if v.ndim == 1 else v.shape[1] if v.ndim == 2 else -1,
                str(v.dtype)])
        return dict(t=as_int(s.time()), schema=schema, rows=[dict(id=self.id(ids[i]),
            v=[self.code.cell(d[k][i]) if k in d else [FOREIGN] for k in self.names])
            for i in range(n)] if ok else [dict(id=FOREIGN, v=[])])

    def row(self, r):
        if len(r) != 8:
            return dict(x=[FOREIGN], v=[FOREIGN], t=FOREIGN, id=FOREIGN)
        return dict(x=self.code.cell(r[:3]), v=self.code.cell(r[3:6]),
            t=as_int(r[6]), id=self.id(r[7]))

    def run(self):
        for op in self.sc['ops']:
            e = dict(op=op['op'], err='')
            try:
                getattr(self, 'do_' + op['op'])(op, e)
            except Exception as exc:
                e['err'] = err(exc)
                e.pop('obs', None)
            self.ev.append(e)
            if e['err']:
                break
        return dict(keys=self.keys, ev=self.ev)

    def do_given(self, op, e):
        self.objs, e['trajs'] = self.make(op['trajs'], op.get('tdtype', 'int64'))

    def do_active(self, op, e):
        e['t'], e['seg'] = op['t'], op['seg']
        st = np.array([t.time()[0] for t in self.objs])
        en = np.array([t.time()[-1] for t in self.objs])
        with given(e, trajects=self.objs, start_times=st, end_times=en):
            if op.get('bounds'):
                r = trajectory.trajectories_in_frame(self.objs, op['t'], st, en,
                    segs=op['seg'])
            elif op['seg']:
                r = trajectory.trajectories_in_frame(self.objs, op['t'], segs=True)
            else:
                r = trajectory.trajectories_in_frame(self.objs, op['t'])
        e['obs'] = dict(ixs=[as_int(i) + 1 for i in r])

    def do_snapshot(self, op, e):
        e['t'], e['ixs'] = op['t'], [i + 1 for i in op['ixs']]
        e['mixed'] = bool(self.sc.get('mixed'))
        lst = [self.objs[i] for i in op['ixs']]
        schema = self.objs[0].schema()
        with given(e, trajects=lst, schema=schema):
            s = trajectory.take_snapshot(lst, op['t'], schema)
        e['obs'] = self.snap(s)
        spoil(s)

    def table(self, r, seg):
        r = np.asarray(r)
        if seg:
            return dict(rows=[self.row(x) for x in r[0]], next=[self.row(x) for x in r[1]])
        if r.ndim == 3 and r.shape[1] == 0:
            return dict(rows=[], next=[])
        return dict(rows=[self.row(x) for x in r], next=[])

    def do_collect(self, op, e):
        e['t'], e['seg'] = op['t'], op['seg']
        if op.get('mat'):
            e['obs'] = self.table(io.collect_particles_mat(self.matname, op['t'],
                op['seg']), op['seg'])
        else:
            with given(e, trajects=self.objs):
                if op['seg'] or op.get('explicit'):
                    r = io.collect_particles_generic(self.objs, op['t'],
                        path_seg=op['seg'])
                else:
                    r = io.collect_particles_generic(self.objs, op['t'])
            e['obs'] = self.table(r, op['seg'])

    def do_given_mat(self, op, e):
        flds = ['xf', 'yf', 'zf', 'uf', 'vf', 'wf', 'axf', 'ayf', 'azf', 't', 'trajid']
        n = len(op['trajs'])
        arr = np.zeros((n, 1), dtype=[(k, 'O') for k in flds])
        e['op'] = 'given'
        e['trajs'] = []
        for i, tj in enumerate(op['trajs']):
            m = len(tj['pts'])
            for j, k in enumerate(flds[:9]):
                arr[k][i, 0] = np.array([[float(p[j // 3][j % 3])] for p in tj['pts']])
            arr['t'][i, 0] = np.arange(tj['t0'], tj['t0'] + m)[:, None]
            arr['trajid'][i, 0] = np.full((m, 1), tj['id'])
            e['trajs'].append(dict(id=self.ids[tj['id']], t0=tj['t0'], holes=[],
                pts=[[self.code.cell([c / 1000. for c in x]) for x in p]
                     for p in tj['pts']]))
        self.matname = os.path.join(self.tmp, 'tr.mat')
        scipy.io.savemat(self.matname, {'traj': arr})

    def do_frame_data(self, op, e):
        self.objs, sp = self.make(op['trajs'])
        self.ev.append(dict(op='given', err='', trajs=sp))
        trs, e['tracers'] = self.make(op['tracers'])
        e['t'] = op['t']
        fns = {}
        for n, lst in (('part', self.objs), ('tracer', trs)):
            if op['form'] == 'hdf':
                fns[n] = os.path.join(self.tmp, n + '.h5')
                io.save_particles_table(fns[n], lst)
            else:
                fns[n] = os.path.join(self.tmp, n) + '/'
                io.save_trajectories(fns[n], lst, {})
        cfg = os.path.join(self.tmp, 'frame.cfg')
        with open(cfg, 'w') as f:
            f.write('[Particle]\ndiameter: %s\ndensity: %s\n\n[Scene]\n'
                'frame: %d\nframe rate: %s\ntracer_file: %s\npart_file: %s\n' % (
                tuple(op['part'][:2]) + (op['t'], op['part'][2], fns['tracer'], fns['part'])))
        e['part'] = [repr(float(x)) for x in op['part']]
        part, frate, fr, nx = io.read_frame_data(cfg)
        e['obs'] = dict(part=[repr(float(part.diam)), repr(float(part.density)),
            repr(float(frate))], p=self.snap(fr.particles), pn=self.snap(nx.particles),
            q=self.snap(fr.tracers), qn=self.snap(nx.tracers))

    def do_unique(self, op, e):
        rows = laid(np.array(op['rows'], dtype=float).reshape((len(op['rows']), -1)),
            op.get('layout'))
        e['rows'] = [self.code.cell(r[:3]) for r in rows]
        with given(e, all_rows=rows):
            r = trajectory.mark_unique_rows(rows)
        e['obs'] = dict(ixs=[as_int(i) + 1 for i in r])

    def do_pairs(self, op, e):
        sc, off = op['scale'], op['offset']
        def objs(lst, extra):
            res = []
            for tj in lst:
                x = laid(np.array(tj['xs'], dtype=float) * sc + off, op.get('layout'))
                kw = {'accel': x * 2} if extra else {}
                res.append(Trajectory(x, x * .5, np.arange(tj['t0'], tj['t0'] +
                    len(x)).astype(op.get('tdtype', 'int64')), tj['id'], **kw))
            return res
        prim = objs(op['prim'], False)
        sec = objs(op['sec'], op.get('extra', False))
        e['sec'] = [dict(id=self.ids[t['id']], t0=t['t0'], xs=t['xs']) for t in op['sec']]
        ids = laid(np.array([op['prim'][r[0]]['id'] for r in op['reqs']],
            dtype=op.get('idtype', 'int64')), op.get('layout'))
        ixs = laid(np.array([r[1] for r in op['reqs']], dtype=op.get('ixtype', 'int64')),
            op.get('layout'))
        with given(e, primary=prim, secondary=sec, trajids=ids, time_points=ixs):
            a, b = pairs.particle_pairs(prim, sec, ids, ixs)
        e['obs'] = dict(pairs=[dict(t=op['prim'][r[0]]['t0'] + r[1],
            x=op['prim'][r[0]]['xs'][r[1]], id=self.id(a[k]) if k < len(a) else FOREIGN,
            ix=as_int(b[k]) if k < len(b) else -99) for k, r in enumerate(op['reqs'])])


def run(sc, tmp):
    return Run(sc, tmp).run()
