"""
Executes scenarios of the Files specification: tables are saved, analysed and
read again and again under the same names, and some of it fails half-way.
"""
import gc, os
import numpy as np
from flowtracks import io, scene
from flowtracks.analysis import analysis, GeneralAnalyser
from flowtracks.an_scene import AnalysedScene
from flowtracks.trajectory import Trajectory, ParticleSnapshot
from vals import as_int, err


class Planned(BaseException):
    pass

def planned(base):
    return type('Planned' + base.__name__, (Planned, base), {})

# What goes wrong is of any kind.
KINDS = dict((b.__name__, planned(b)) for b in (Exception, ArithmeticError, ValueError,
    KeyError, IndexError, OSError, TypeError, RuntimeError, AttributeError, EOFError,
    KeyboardInterrupt, AssertionError, MemoryError, LookupError))
KINDS['FloatingPointError'] = planned(FloatingPointError)


class Analyser(GeneralAnalyser):
    """Gives the first coordinate, unless it is to fail at some frame."""
    def __init__(self, name, fail=None, how='', exc='Exception'):
        self.name, self.fail, self.how, self.exc = name, fail, how, exc
    def descr(self):
        return [(self.name, float, 1)]
    def analyse(self, frame, next_frame):
        x = frame.particles.pos()[:, 0]
        if self.fail is not None:
            self.fail -= 1
            if self.fail < 0:
                if self.how == 'source':
                    raise KINDS[self.exc]()
                return [np.r_[x, 1., 2.]]   # more than there are particles
        return [x]


def trajectory(th, diam=True):
    n = len(th['vals'])
    pos = np.c_[np.array(th['vals'], dtype=float), np.arange(n) * .5, np.ones(n)]
    return Trajectory(pos, pos * 0.5, np.arange(th['t'], th['t'] + n), th['id'],
        **(dict(diam=np.arange(n) * .25) if diam else {}))

def snapshot(th, diam=True):
    n = len(th['vals'])
    pos = np.c_[np.array(th['vals'], dtype=float), np.arange(n) * .5, np.ones(n)]
    return ParticleSnapshot(pos, pos * 0.5, trajid=np.array(th['ids']), time=th['t'],
        **(dict(diam=np.arange(n) * .25) if diam else {}))

def rows_of(kind, things):
    if kind == 'trajs':
        return [[th['id'], th['t'] + k, v] for th in things for k, v in enumerate(th['vals'])]
    return [[i, th['t'], v] for th in things for i, v in zip(th['ids'], th['vals'])]


class Run(object):
    def __init__(self, sc, tmp):
        self.sc, self.tmp = sc, tmp
        self.kinds = {}
        self.ds = None

    def name(self, f):
        return os.path.join(self.tmp, 'f%d.h5' % f)

    # ---- writing
    def source(self, op):
        make = trajectory if op['kind'] == 'trajs' else snapshot
        for k, th in enumerate(op['things']):
            if op['fail'] and k == op['at']:
                if op['fail'] == 'source':
                    raise KINDS[op.get('exc', 'Exception')]()
                bad = make(th)
                if op['item'] == 'none':
                    bad = None
                elif op['item'] == 'wide':
                    bad.set_diam(np.zeros((len(bad), 3)))
                elif op['item'] == 'retyped':
                    bad.set_diam(np.full(len(bad), 1j))
                elif op['item'] == 'missing':
                    bad = make(th, False)
                else:
                    bad.create_property('more', np.zeros(len(bad)))
                yield bad
                continue
            yield make(th)
        if op['fail'] and op['at'] >= len(op['things']):
            raise KINDS[op.get('exc', 'Exception')]()

    def do_write(self, op, e):
        e['rows'] = rows_of(op['kind'], op['things'])
        save = io.save_particles_table if op['kind'] == 'trajs' else io.save_frames_hdf
        src = self.source(op)
        if op.get('list') and not op['fail']:
            src = list(src)
        self.attempt(op, e, lambda: save(self.name(op['f']), src))
        self.kinds[op['f']] = op['kind']

    def attempt(self, op, e, f):
        try:
            f()
            e['obs'] = dict(how='done')
        except Planned:
            e['obs'] = dict(how='planned')
        except Exception as exc:
            if not op['fail']:
                raise
            e['obs'] = dict(how='failed', what=err(exc))

    def do_analysis(self, op, e):
        if self.ds is None or op['anew']:
            self.ds = None
            self.ds = scene.read_dual_scene(os.path.join(self.tmp, 'c.cfg'))
        fail = op['at'] if op['fail'] else None
        ans = [Analyser('x')]
        if op['two']:
            ans.append(Analyser('y', fail, op['fail'], op.get('exc', 'Exception')))
        else:
            ans = [Analyser('x', fail, op['fail'], op.get('exc', 'Exception'))]
        more = () if op['tmp'] == [] else (tuple(op['tmp']),)
        e['rng'] = op['tmp'] or self.sc['rng']
        self.attempt(op, e, lambda: analysis(self.ds, self.name(op['f']),
            os.path.join(self.tmp, 'c.cfg'), ans, *more))
        self.kinds[op['f']] = 'analysis'

    # ---- reading
    def traj(self, tr):
        return [[as_int(tr.trajid()), as_int(t), as_int(x)] for t, x in
            zip(tr.time(), tr.pos()[:, 0])]

    def snap(self, s):
        return [[as_int(i), as_int(s.time()), as_int(x)] for i, x in
            zip(s.trajid(), s.pos()[:, 0])]

    def columns(self, ids, ts, xs):
        return [[as_int(i), as_int(t), as_int(x)] for i, t, x in zip(ids, ts, xs)]

    def first(self, it, n, how):
        """The first few, after which the iteration is given up."""
        res = []
        if how == 'raise':
            try:
                for x in it:
                    if len(res) == n:
                        raise Planned()
                    res.append(x)
            except Planned:
                pass
            return res
        for x in it:
            res.append(x)
            if len(res) == n:
                break
        return res

    def read(self, op):
        fn, how, n = self.name(op['f']), op['how'], op['n']
        if self.kinds.get(op['f']) == 'analysis':
            s = AnalysedScene(fn)
            if how in ('by_id', 'iter'):
                res = []
                for i in sorted(set(th['id'] for th in self.sc['p'])):
                    tr = s.trajectory_by_id(i)
                    res += [[as_int(i), as_int(t), as_int(x)] for t, x in
                        zip(tr.time(), tr.x())]
                return res
            return self.columns(*s.collect(['trajid', 'time', 'x']))
        flat = lambda f, l: [r for x in l for r in f(x)]
        if how == 'table':
            return flat(self.traj, io.trajectories_table(fn))
        if how == 'generic':
            return flat(self.traj, io.trajectories(fn, None, None, 1., traj_min_len=0))
        if how == 'generic-iter':
            it = io.trajectories(fn, None, None, 1., traj_min_len=0, iter_allowed=True)
            return flat(self.traj, self.first(it, n, op['stop']) if n else it)
        s = scene.Scene(fn)
        if how == 'by_id':
            return flat(self.traj, [s.trajectory_by_id(i) for i in s.trajectory_ids()])
        if how == 'iter':
            return flat(self.traj, self.first(s.iter_trajectories(), n, op['stop']) if n
                else s.iter_trajectories())
        if how == 'frames':
            return flat(self.snap, self.first(s.iter_frames(), n, op['stop']) if n
                else s.iter_frames())
        if how == 'segments' and n:
            l = self.first(s.iter_segments(), n, op['stop'])
            return flat(self.snap, [a for a, _ in l])
        ids, ts, pos = s.collect(['trajid', 'time', 'pos'])
        return self.columns(ids, ts, pos[:, 0])

    def do_read(self, op, e):
        try:
            e['obs'] = dict(how='rows', rows=self.read(op))
        except Exception as exc:
            e['obs'] = dict(how='error', rows=[], what=err(exc))

    # ----
    def prepare(self):
        sc = self.sc
        io.save_particles_table(self.name(0), [trajectory(th) for th in sc['p']])
        io.save_particles_table(os.path.join(self.tmp, 't.h5'),
            [trajectory(th) for th in sc['q']])
        with open(os.path.join(self.tmp, 'c.cfg'), 'w') as f:
            f.write('[Particle]\ndiameter: 1e-3\ndensity: 1000\n[Scene]\n'
                'frame rate: 500\nfirst frame: %d\nlast frame: %d\n'
                'tracers file: %s\nparticles file: %s\n' % (sc['rng'][0], sc['rng'][1] - 1,
                os.path.join(self.tmp, 't.h5'), self.name(0)))
        self.kinds[0] = 'trajs'

    def run(self):
        evs = [dict(op='write', kind='trajs', f=0, fail='', rows=rows_of('trajs', self.sc['p']),
            err='', obs=dict(how='done'))]
        try:
            self.prepare()
        except Exception as exc:
            evs[0]['err'] = err(exc)
            return dict(ev=evs)
        for op in self.sc['ops']:
            e = dict(op, err='')
            e.pop('things', None)
            evs.append(e)
            try:
                getattr(self, 'do_' + op['op'])(op, e)
            except Exception as exc:
                e['err'] = err(exc)
                e.pop('obs', None)
                e.setdefault('rng', [0, 0])
                break
            gc.collect()
        self.ds = None
        return dict(ev=evs)


def run(sc, tmp):
    return Run(sc, tmp).run()
