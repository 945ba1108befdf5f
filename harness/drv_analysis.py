"""
Executes scenarios of the Analysis specification: analyses with analysers that
record what they are shown, and joint views of the results.

A scenario: p, q - streams as in the dual driver; rng - range of the scene;
cols - for each analyser, its columns [[name, width, dtype]]; pool - numbers
that analysers answer with; ops.
"""
import math
import os, runpy, sys
import numpy as np, tables
from flowtracks.scene import DualScene
from flowtracks.particle import Particle
from flowtracks import analysis as an
from flowtracks.interpolation import interpolant
from flowtracks.an_scene import AnalysedScene
from vals import Coder, as_int, err, FOREIGN
from given import given, spoil
import core_paths
import drv_dual

TYPES = dict(float64=float, int64=int, float32=np.float32, int32=np.int32)


class Recorder(an.GeneralAnalyser):
    def __init__(self, run, k, cols, style):
        self.run, self.k, self.cols, self.style = run, k, cols, style
        self.n = 0

    def descr(self):
        return [(c[0], TYPES[c[2]], c[1] or 1) for c in self.cols]

    def value(self, dt):
        self.n += 1
        pool = self.run.sc['pool']
        x = pool[(self.n * 7 + self.k * 3) % len(pool)]
        if dt.startswith('int'):
            big = self.run.sc.get('big', 0) if dt == 'int64' else 0
            return (self.n * 7 + 11 * self.k) % self.run.sc.get('mod', 1000003) - 20 + big
        return x

    def analyse(self, frame, next_frame):
        n = len(frame.particles)
        res = []
        for name, w, dt in self.cols:
            a = np.array([[self.value(dt) for _ in range(w or 1)]
                for _ in range(n)], dtype=dt).reshape(n, w or 1)
            if not w and self.style.get('flat'):
                a = a[:, 0]
            elif self.style.get('fortran'):
                a = np.asfortranarray(a)
            res.append(a)
        self.run.log_call(self.k, frame, next_frame, res)
        if self.style.get('reuse'):
            # the analyser may have only one buffer for each length.
            if not hasattr(self, 'buf'):
                self.buf = {}
            out = []
            for j, a in enumerate(res):
                b = self.buf.setdefault((j, a.shape), np.empty_like(a))
                b[...] = a
                out.append(b)
            res = out
        return res if not self.style.get('tuple') else tuple(res)


class Proxy(an.GeneralAnalyser):
    """Records the answers of another analyser"""
    def __init__(self, run, k, inner):
        self.run, self.k, self.inner = run, k, inner
    def descr(self):
        return self.inner.descr()
    def analyse(self, frame, next_frame):
        res = self.inner.analyse(frame, next_frame)
        self.run.log_call(self.k, frame, next_frame, res)
        return res


class Run(object):
    def __init__(self, sc, tmp):
        self.sc, self.tmp = sc, tmp
        self.ev = []
        self.raw = []      # numbers of the analysis.
        self.todo = []     # closures that code them at the end.
        self.asc = None
        self.an_path = os.path.join(tmp, 'analysis.h5')

    def codes(self, holder, key, arr):
        """holder[key] is to be the list of codes of arr."""
        vals = np.ravel(arr).tolist()
        self.raw.extend(vals)
        self.todo.append((holder, key, vals))

    def flat_cells(self, arrs, i):
        cell = [None] * len(arrs)
        for j, a in enumerate(arrs):
            self.codes(cell, j, np.asarray(a)[i])
        return cell

    def log_call(self, k, frame, nxt, res):
        p, q = self.p, self.q
        a, b = p.snap(frame.particles), p.snap(nxt.particles)
        c, d = q.snap(frame.tracers), q.snap(nxt.tracers)
        ids = np.asarray(frame.particles.trajid())
        self.ev.append(dict(op='call', err='', k=k + 1, t=a['t'], nt=b['t'],
            qt=c['t'], nqt=d['t'], p=a['rows'], pn=b['rows'], q=c['rows'],
            qn=d['rows'], ans=[dict(id=p.id(i), c=self.flat_cells(
                [np.reshape(r, (len(ids), -1)) for r in res], n))
                for n, i in enumerate(ids)]))

    def schema_of(self, cols):
        return [[c[0], c[1] or 0, c[2]] for c in cols]

    def read_table(self, path, cols):
        f = tables.open_file(path, 'r')
        try:
            t = f.get_node('/analysis')
            arr = t.read()
            config, trajects = str(t.attrs['config']), str(t.attrs['trajects'])
        finally:
            f.close()
        names = [n for n in arr.dtype.names if n not in ('trajid', 'time')]
        schema = []
        for n in names:
            dt = arr.dtype[n]
            w = int(dt.shape[0]) if dt.shape else 0
            schema.append([n, w, str(dt.base)])
        want = [c[0] for c in cols]
        rows = []
        for r in arr:
            rows.append(dict(id=self.p.id(r['trajid']), t=as_int(r['time']),
                c=self.flat_cells([[r[n]] for n in want], 0)
                  if set(names) == set(want) else [[FOREIGN]]))
        return dict(rows=rows, schema=schema, config=config, trajects=trajects)

    def config(self, rng):
        fn = os.path.join(self.tmp, 'scene.cfg')
        with open(fn, 'w') as f:
            f.write('[Particle]\ndiameter: 0.001\ndensity: 1500\n\n[Scene]\n'
                'tracers file: %s\nparticles file: %s\nfirst frame: %d\n'
                'last frame: %d\nframe rate: 500\n' % (self.q.fn, self.p.fn,
                rng[0][0], rng[1][0] - 1))
        return fn

    # ----
    def do_analysis(self, op):
        sc = self.sc
        ds = DualScene(self.q.fn, self.p.fn, 500., Particle(1e-3, 1000.),
            drv_dual.rng_arg(sc['rng']))
        self.acols = sc['cols']
        rng = op['tmp'][0] if op['tmp'] else sc['rng']
        self.ev.append(dict(op='begin', err='', p=self.streams['p'],
            q=self.streams['q'], lo=rng[0], hi=rng[1], nan=len(sc['cols'])))
        recs = [Recorder(self, k, c, op.get('style', {}))
            for k, c in enumerate(sc['cols'])]
        conf = op.get('conf') or self.config(sc['rng'])
        if op.get('exists'):
            with open(self.an_path, 'w') as f:
                f.write('old')
        e = dict(op='table', err='', config=conf, trajects=self.p.fn,
            schema=self.schema_of([c for cs in sc['cols'] for c in cs]))
        try:
            if not op['tmp']:
                an.analysis(ds, self.an_path, conf, recs)
            elif op.get('kw'):
                an.analysis(ds, self.an_path, conf, recs,
                    frame_range=drv_dual.rng_arg(op['tmp'][0]))
            else:
                an.analysis(ds, self.an_path, conf, recs,
                    drv_dual.rng_arg(op['tmp'][0]))
            e['obs'] = self.read_table(self.an_path,
                [c for cs in sc['cols'] for c in cs])
        except Exception as exc:
            e['err'] = err(exc)
        self.ev.append(e)
        return not e['err']

    def do_script(self, op):
        """The command line program, against what its analyser should answer."""
        sc = self.sc
        conf = self.config(sc['rng'])
        ds = DualScene(self.q.fn, self.p.fn, 500., Particle(1e-3, 1000.),
            drv_dual.rng_arg(sc['rng']))
        self.ev.append(dict(op='begin', err='', p=self.streams['p'],
            q=self.streams['q'], lo=sc['rng'][0], hi=sc['rng'][1], nan=1))
        cols = [['fluid_vel', 3, 'float64'], ['rel_vel', 3, 'float64']]
        e = dict(op='table', err='', config=conf, trajects=self.p.fn, schema=cols)
        args = [conf, self.an_path]
        kw = {}
        if op.get('method'):
            args += ['--method', op['method']]
        if op.get('neighbs'):
            args += ['--neighbs', str(op['neighbs'])]
        if op.get('param'):
            args += [op.get('flag', '--param'), str(op['param'])]
            kw['param'] = float(op['param'])
        argv = sys.argv
        try:
            interp = interpolant(op.get('method') or 'inv', op.get('neighbs') or 4, **kw)
            an.analysis(ds, os.path.join(self.tmp, 'direct.h5'), conf,
                [Proxy(self, 0, an.FluidVelocitiesAnalyser(interp))])
            sys.argv = ['analyse_fhdf.py'] + args
            runpy.run_path(os.path.join(core_paths.REPO, 'scripts', 'analyse_fhdf.py'),
                run_name='__main__')
            e['obs'] = self.read_table(self.an_path, cols)
        except (Exception, SystemExit) as exc:
            e['err'] = err(exc)
        finally:
            sys.argv = argv
        self.ev.append(e)
        return not e['err']

    def do_given_an(self, op):
        """Analysis table written without the package."""
        sc = self.sc
        cols = [c for cs in sc['cols'] for c in cs]
        descr = [('trajid', 'i8'), ('time', 'i8')] + [
            (c[0], c[2], (c[1],)) if c[1] else (c[0], c[2]) for c in cols]
        arr = np.zeros(len(op['rows']), dtype=descr)
        tab = []
        for i, r in enumerate(op['rows']):
            arr['trajid'][i], arr['time'][i] = r['id'], r['t']
            for c, v in zip(cols, r['c']):
                arr[c[0]][i] = v
            tab.append(dict(id=self.p.ids[r['id']], t=r['t'],
                c=self.flat_cells([[x] for x in r['c']], 0)))
        f = tables.open_file(self.an_path, 'w')
        try:
            t = f.create_table('/', 'analysis', obj=arr)
            t.attrs['config'] = self.config(sc['rng'])
            t.attrs['trajects'] = self.p.fn
            if op.get('index'):
                t.cols.trajid.create_index()
                t.cols.time.create_index()
        finally:
            f.close()
        self.ev.append(dict(op='given', err='', p=self.streams['p'], tab=tab))
        return True

    def open_joint(self):
        if self.asc is None:
            self.asc = AnalysedScene(self.an_path)
        return self.asc

    def name(self, an_, key):
        if key == 0:
            return 'trajid'
        if key == -1:
            return 'time'
        if an_:
            return [c for cs in self.sc['cols'] for c in cs][key - 1][0]
        return self.p.names[key - 1]

    def do_join(self, op):
        rng = self.sc['rng']
        e = dict(op='join', err='', ks=[dict(an=k[0], key=k[1]) for k in op['ks']],
            lo=rng[0], hi=rng[1], conds=[])
        where = {}
        for c in op['conds']:
            where[self.name(c['an'], c['key'])] = (c['min'], c['max'], c['inv'])
            d = dict(c)
            if c['key'] <= 0:
                for b in ('min', 'max'):
                    if math.isinf(c[b]):
                        d[b] = 2**31 - 1 if c[b] > 0 else 1 - 2**31
                    elif c['key'] == 0:
                        d[b] = self.p.ids[c[b]]
            elif c['key'] > 0 and c['an']:
                for b in ('min', 'max'):
                    self.raw.append(float(c[b]))
                    self.todo.append((d, b, float(c[b])))
            elif c['key'] > 0:
                d['min'], d['max'] = self.p.code(c['min']), self.p.code(c['max'])
            e['conds'].append(d)
        try:
            names = [self.name(*k) for k in op['ks']]
            asc = self.open_joint()
            with given(e, keys=names, where=where):
                cols = asc.collect(names) if not where and op.get('nowhere') else \
                    asc.collect(names, where)
            res = []
            for k, col in zip(op['ks'], cols):
                if k[1] == 0:
                    res.append([[self.p.id(x)] for x in col])
                elif k[1] == -1:
                    res.append([[as_int(x)] for x in col])
                elif k[0]:
                    out = [None] * len(col)
                    for i, x in enumerate(col):
                        self.codes(out, i, x)
                    res.append(out)
                else:
                    res.append([self.p.code.cell(x) for x in col])
            e['obs'] = dict(cols=res)
            spoil(cols)
        except Exception as exc:
            e['err'] = err(exc)
        self.ev.append(e)
        return not e['err']

    def do_join_keys(self, op):
        want = [[k[0], k[1] or 1] for k in self.p.keys] + \
            [[c[0], c[1] or 1] for cs in self.sc['cols'] for c in cs]
        e = dict(op='join_keys', err='', keys=want)
        try:
            asc = self.open_joint()
            e['obs'] = dict(keys=[[k, int(s)] for k, s in zip(asc.keys(), asc.shapes())])
        except Exception as exc:
            e['err'] = err(exc)
        self.ev.append(e)
        return not e['err']

    def traj(self, tr):
        d = tr.as_dict()
        n = len(tr.time())
        cols = [c[0] for cs in self.sc['cols'] for c in cs]
        if not all(len(v) == n for v in d.values()) or not all(c in d for c in cols) \
                or not all(k in d for k in self.p.names):
            return dict(id=self.p.id(tr.trajid()), schema=[], rows=[dict(id=FOREIGN,
                t=0, v=[], c=[])])
        rows = self.p.rows(tr, [tr.trajid()] * n, tr.time())
        for i, r in enumerate(rows):
            r['c'] = self.flat_cells([[d[c][i]] for c in cols], 0)
        return dict(id=self.p.id(tr.trajid()), rows=rows,
            schema=self.p.schema(tr, ('time', 'trajid')))

    def want_schema(self):
        return [list(k) for k in self.p.keys] + \
            self.schema_of([c for cs in self.sc['cols'] for c in cs])

    def do_join_traj(self, op):
        rng = self.sc['rng']
        e = dict(op='join_traj', err='', id=self.p.ids[op['id']], lo=rng[0],
            hi=rng[1], schema=self.want_schema())
        try:
            x = self.open_joint().trajectory_by_id(op['id'])
            e['obs'] = self.traj(x)
            spoil(x)
        except Exception as exc:
            e['err'] = err(exc)
        self.ev.append(e)
        return not e['err']

    def do_join_trajs(self, op):
        rng = self.sc['rng']
        e = dict(op='join_trajs', err='', lo=rng[0], hi=rng[1],
            schema=self.want_schema())
        try:
            e['obs'] = dict(trajs=[self.traj(t) for t in
                self.open_joint().iter_trajectories()])
        except Exception as exc:
            e['err'] = err(exc)
        self.ev.append(e)
        return not e['err']

    def run(self):
        self.streams = {}
        try:
            self.p, self.q = drv_dual.streams(self.sc, self.tmp, self.streams)
        except Exception as exc:
            self.ev.append(dict(op='begin', err=err(exc)))
        else:
            for op in self.sc['ops']:
                if not getattr(self, 'do_' + op['op'])(op):
                    break
        self.asc = None
        code = Coder(self.raw)
        for holder, key, vals in self.todo:
            holder[key] = [code(v) for v in vals] if isinstance(vals, list) else code(vals)
        return dict(lenient=bool(self.sc.get('lenient')), ev=self.ev)


def run(sc, tmp):
    return Run(sc, tmp).run()
