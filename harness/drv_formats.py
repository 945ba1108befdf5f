"""
Executes scenarios of the Formats specification on the real readers and
writers.
"""
import os
import numpy as np
import scipy.io
from flowtracks import io
from flowtracks.trajectory import Trajectory
from vals import Coder, as_int, scaled, err, FOREIGN, laid, shuffled
from given import given

BAD = -999999999


class Run(object):
    def __init__(self, sc, tmp):
        self.sc, self.tmp = sc, tmp
        self.keys = sc['keys']
        self.names = [k[0] for k in self.keys]
        self.ids = dict((i, n + 1) for n, i in enumerate(sorted(sc['ids'])))
        self.code = Coder(sc['pool'])
        self.ev = []
        self.path = {}

    def id(self, i):
        try:
            return self.ids.get(int(i), FOREIGN) if i == int(i) else FOREIGN
        except Exception:
            return FOREIGN

    def where(self, name):
        """absolute, relative or home-based."""
        full = os.path.join(self.tmp, name)
        form = self.sc.get('paths', 'abs')
        if form == 'rel':
            return name
        if form == 'home' and not name.endswith('.h5'):
            return '~/' + os.path.relpath(full, os.path.expanduser('~')) + \
                ('/' if name.endswith('/') else '')
        return full

    def trajs(self, op):
        objs, spec = [], []
        for tj in op['trajs']:
            kw = {}
            for j, (n, w, dt) in enumerate(self.keys):
                a = np.array([p['v'][j] for p in tj['pts']], dtype=dt)
                kw[n] = laid(a.reshape((len(tj['pts']), w) if w else len(tj['pts'])),
                    self.sc.get('layout'))
            time = laid(np.array([p['t'] for p in tj['pts']], dtype=op.get('tdtype', 'int64')),
                self.sc.get('layout'))
            trid = np.int64(tj['id']) if op.get('npid') else tj['id']
            objs.append(Trajectory(kw.pop('pos'), kw.pop('velocity'), time, trid,
                **shuffled(kw, self.sc.get('order') and self.sc['order'] + len(objs))))
            spec.append(dict(id=self.ids[tj['id']], pts=[dict(t=p['t'],
                v=[self.code.cell(x) for x in p['v']]) for p in tj['pts']]))
        return objs, spec

    def array(self, a):
        a = np.asarray(a)
        return dict(shape=[int(x) for x in a.shape], type=str(a.dtype),
            vals=[self.code(x) for x in a.ravel()])

    def given_array(self, d):
        a = np.array(d['vals'], dtype=d['type']).reshape(d['shape'])
        return laid(a, self.sc.get('layout')) if a.ndim else a

    def show(self, tr):
        n = len(tr.time())
        d = tr.as_dict()
        d.pop('time', None)
        ok = all(len(v) == n for v in d.values())
        rows, schema = [], []
        if ok:
            for i in range(n):
                rows.append(dict(t=as_int(tr.time()[i]), v=[self.code.cell(d[k][i])
                    if k in d else [FOREIGN] for k in self.names]))
            for k, v in sorted(d.items()):
                v = np.asarray(v)
                schema.append([k, 0 if v.ndim == 1 else v.shape[1] if v.ndim == 2
                    else -1, str(v.dtype)])
        return dict(id=self.id(tr.trajid()), rows=rows, schema=schema)

    @staticmethod
    def um(a, n):
        a = np.asarray(a)
        if a.shape != (n, 3):
            return [[BAD]] * n
        return [[scaled(x, 1e6) for x in row] for row in a]

    def show_mat(self, tr):
        t = np.ravel(tr.time())
        n = len(t)
        ok = np.shape(tr.time()) == (n,)
        x, v, a = (self.um(c, n) for c in (tr.pos(), tr.velocity(), tr.accel()))
        return dict(id=self.id(tr.trajid()), schema=[], rows=[dict(
            t=as_int(t[i]) if ok else BAD, v=[x[i], v[i], a[i]]) for i in range(n)])

    def show_acc(self, tr):
        n = len(tr.time())
        x, v, a = (self.um(c, n) for c in (tr.pos(), tr.velocity(), tr.accel()))
        return dict(id=as_int(tr.trajid()), pts=[dict(t=as_int(tr.time()[i]),
            p=dict(x=x[i], v=v[i], a=a[i])) for i in range(n)])

    def run(self):
        for op in self.sc['ops']:
            e = dict(op=op['op'], err='')
            try:
                getattr(self, 'do_' + op['op'])(op, e)
            except Exception as exc:
                e['err'] = err(exc)
                e.pop('obs', None)
            self.ev.append(e)
            if e['err']:
                break
        return dict(keys=self.keys, ev=self.ev)

    # ---
    def do_save_table(self, op, e):
        objs, e['trajs'] = self.trajs(op)
        self.path['table'] = self.where(op['name'])
        with given(e, trajects=objs):
            io.save_particles_table(self.path['table'], objs)

    def do_save_dir(self, op, e):
        objs, e['trajs'] = self.trajs(op)
        e['adds'] = [dict(name=n, id=self.ids[i], arr=self.array(self.given_array(a)))
            for n, i, a in op['adds']]
        e['free'] = [dict(name=n, arr=self.array(self.given_array(a)))
            for n, a in op['free']]
        adds = {}
        for n, i, a in op['adds']:
            adds.setdefault(n, {})[i] = self.given_array(a)
        path = os.path.join(self.tmp, op['name'])
        free = dict((n, self.given_array(a)) for n, a in op['free'])
        with given(e, trajects=objs, adds=adds, free=free):
            io.save_trajectories(path.rstrip('/') if op.get('noslash') else path,
                objs, adds, **free)
        for n in op.get('distract', ()):
            with open(os.path.join(path, n), 'w') as f:
                f.write('not a trajectory')
        self.path['dir'] = self.where(op['name'])
        self.freedir = path

    def do_save_mat(self, op, e):
        flds = ['xf', 'yf', 'zf', 'uf', 'vf', 'wf', 'axf', 'ayf', 'azf', 't', 'trajid']
        n = len(op['trajs'])
        arr = np.zeros((n, 1), dtype=[(k, 'O') for k in flds])
        e['op'] = 'save_table'
        e['trajs'] = []
        for i, tj in enumerate(op['trajs']):
            m = len(tj['pts'])
            for j, k in enumerate(flds[:9]):
                arr[k][i, 0] = np.array([[p['v'][j // 3][j % 3] / 1000.]
                    for p in tj['pts']])
            arr['t'][i, 0] = np.array([[p['t']] for p in tj['pts']], dtype=op['tdtype'])
            arr['trajid'][i, 0] = np.full((m, 1), tj['id'], dtype=op['tdtype'])
            e['trajs'].append(dict(id=self.ids[tj['id']], pts=tj['pts']))
        vars_ = {'traj': arr}
        if op.get('dirvar') == 'first':
            vars_ = {'directory': 'C:/data', 'traj': arr}
        elif op.get('dirvar'):
            vars_['directory'] = 'C:/data'
        self.path['mat'] = self.where(op['name'])
        scipy.io.savemat(os.path.join(self.tmp, op['name']), vars_)

    def do_save_acc(self, op, e):
        e['files'] = [dict(num=f['num'], paths=[[dict(g=p['g'], x=p['x'], v=p['v'], a=p['a'])
            for p in path] for path in f['paths']]) for f in op['files']]
        base = os.path.join(self.tmp, op['name'])
        os.makedirs(os.path.dirname(base), exist_ok=True)
        order = list(op['files'])
        if op.get('reverse'):
            order.reverse()
        for f in order:
            with open(base % f['num'], 'w') as out:
                for path in f['paths']:
                    for p in path:
                        cols = ['%.6f' % (c / 1e6) for c in p['x'] + p['v'] + p['a']]
                        cols += ['%d' % (100 * f['num'] + c) for c in range(9, 33)]
                        cols += ['%d' % p['g']] + ['77'] * op.get('more', 0)
                        out.write('\t'.join(cols) + '\n')
        for n in op.get('distract', ()):
            with open(os.path.join(os.path.dirname(base), n), 'w') as f:
                f.write('nothing\n')
        self.path['acc'] = self.where(op['name'])

    def do_read(self, op, e):
        for k in ('src', 'first', 'last', 'minlen', 'generic'):
            e[k] = op[k]
        first = op['first'][0] if op['first'] else None
        last = op['last'][0] if op['last'] else None
        fn = self.path[op['src']]
        fmt = dict(table='hdf', dir='npz', mat='mat', acc='acc')[op['src']]
        adds = {}
        if op['generic']:
            kw = {}
            if op['minlen']:
                kw['traj_min_len'] = op['minlen'][0]
            if op.get('iter'):
                kw['iter_allowed'] = True
            res = io.trajectories(fn, first, last, 500., fmt if op.get('fmt') else None, **kw)
            if not op.get('iter') and not isinstance(res, list):
                raise TypeError('not a list')
        elif op['src'] == 'dir':
            if op.get('bare'):
                res, adds = io.load_trajectories(fn)
            else:
                res, adds = io.load_trajectories(fn, first, last)
        elif op['src'] == 'mat':
            res = io.trajectories_mat(fn)
        elif op['src'] == 'acc':
            res = io.trajectories_acc(fn) if op.get('bare') else \
                io.trajectories_acc(fn, first, last)
        else:
            res = io.trajectories_table(fn, first, last)
            res = [t for t in res if len(t) > 0]
        res = list(res)
        if op['src'] == 'acc':
            e['obs'] = dict(paths=[self.show_acc(t) for t in res])
        elif op['src'] == 'mat':
            e['obs'] = dict(trajs=[self.show_mat(t) for t in res])
        else:
            e['obs'] = dict(trajs=[self.show(t) for t in res], adds=[dict(name=n,
                id=self.id(i), arr=self.array(a)) for n, d in sorted(adds.items())
                for i, a in sorted(d.items())])

    def do_read_free(self, op, e):
        e['obs'] = dict(free=[dict(name=n[:-4], arr=self.array(np.load(
            os.path.join(self.freedir, n)))) for n in sorted(os.listdir(self.freedir))
            if n.endswith('.npy')])

    def do_infer(self, op, e):
        n = op['name']
        e['name'] = n
        e['features'] = dict(mat=n.endswith('mat'), slash=n.endswith('/'),
            ptvis='ptv_is' in n, txt=n.endswith('.txt'), xuap='xuap' in n,
            h5=n.endswith('h5'), hdf=n.endswith('hdf'))
        e['obs'] = dict(fmt=io.infer_format(n))

    def do_collect(self, op, e):
        e['frame'], e['seg'] = op['frame'], op['seg']
        t = io.collect_particles(self.path['acc'], op['frame'], op['seg']) \
            if op['seg'] or op.get('explicit') else \
            io.collect_particles(self.path['acc'], op['frame'])
        t = np.asarray(t)
        def cell(r):
            return dict(x=[scaled(c, 1e6) for c in r[:3]],
                v=[scaled(c, 1e6) for c in r[3:6]], age=as_int(r[6]))
        if op['seg']:
            rows = [[cell(t[0, i]), cell(t[1, i])] for i in range(t.shape[1])]
        else:
            rows = [[cell(r)] for r in t]
        e['obs'] = dict(rows=rows)


def run(sc, tmp):
    return Run(sc, tmp).run()
