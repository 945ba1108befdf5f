"""
Executes scenarios of the Config specification on the real save/read functions.
"""
import os
from configparser import ConfigParser
import numpy as np
from flowtracks import io
from flowtracks.sequence import Sequence, read_sequence
from flowtracks.interpolation import interpolant, read_interpolant
from flowtracks.particle import Particle
from flowtracks.scene import read_dual_scene
from flowtracks.trajectory import Trajectory
from vals import Coder, as_int, err, scaled, FOREIGN

# key -> (section, option, type)
KEYS = {
    'diam': ('Particle', 'diameter', 'num'), 'dens': ('Particle', 'density', 'num'),
    'rate': ('Scene', 'frame rate', 'num'), 'first': ('Scene', 'first frame', 'int'),
    'last': ('Scene', 'last frame', 'int'), 'smooth': ('Scene', 'apply smoothing', 'bool'),
    'minlen': ('Scene', 'trajectory minimal length', 'int'),
    'trc': ('Scene', 'tracers file', 'str'), 'part': ('Scene', 'particles file', 'str'),
    'method': ('Interpolant', 'method', 'str'), 'num': ('Interpolant', 'num_neighbs', 'int'),
    'radius': ('Interpolant', 'radius', 'num'), 'param': ('Interpolant', 'param', 'num'),
}
RNG = np.random.RandomState(17)
SCENE = (RNG.rand(9, 3), RNG.rand(5, 3), RNG.rand(9, 3))


class Run(object):
    def __init__(self, sc, tmp):
        self.sc, self.tmp = sc, tmp
        self.code = Coder(sc['pool'])
        self.strs = {}
        self.objs = {}

    def s(self, x):
        return 100000 + self.strs.setdefault(x, len(self.strs))

    def fname(self, f):
        return os.path.join(self.tmp, f + '.cfg')

    def value(self, k, v):
        ty = KEYS[k][2]
        if k == 'method':
            return v
        if k == 'param' and isinstance(v, str):
            try:
                return self.code(float(v))
            except ValueError:
                return self.s(v)
        if ty == 'str':
            return self.s(v)
        if ty == 'num':
            try:
                return self.code(float(v))
            except (TypeError, ValueError):
                return FOREIGN
        if ty == 'int':
            return as_int(v)
        return bool(v)

    def keys(self, cfg):
        res = []
        for k, (sec, opt, ty) in sorted(KEYS.items()):
            if cfg.has_option(sec, opt):
                v = cfg.getboolean(sec, opt) if ty == 'bool' else cfg.get(sec, opt)
                res.append(dict(k=k, v=self.value(k, v)))
        return res

    def parser(self, f):
        cfg = ConfigParser()
        cfg.read(self.fname(f))
        return cfg

    def described(self, o):
        cfg = ConfigParser()
        o.save_config(cfg)
        with open(os.path.join(self.tmp, 'again'), 'w') as out:
            cfg.write(out)
        cfg = ConfigParser()
        cfg.read(os.path.join(self.tmp, 'again'))
        return self.keys(cfg)

    def fp(self, o):
        """how an interpolant interpolates."""
        o.set_scene(*SCENE)
        return [scaled(x, 10**6, 1) for x in np.ravel(o.interpolate())]

    def run(self):
        ev = []
        c = os.path.join(self.tmp, 'co%r.npz')
        np.savez(c, corrs=np.r_[5., 3., 2., 1.], bins=np.r_[0., .3, .5, .8])
        self.corr = c
        for n, f in (('a%b.h5', 1), ('b.h5', 2)):
            trs = [Trajectory(np.random.rand(21, 3), np.random.rand(21, 3), np.arange(21), i)
                for i in range(f)]
            io.save_particles_table(os.path.join(self.tmp, n), trs)
        for op in self.sc['ops']:
            e = dict(op=op['op'], err='')
            for k in ('h', 'f', 'smooth', 'minlen'):
                if k in op:
                    e[k] = op[k]
            try:
                getattr(self, 'do_' + op['op'])(op, e)
            except Exception as exc:
                e['err'] = err(exc)
                e.pop('obs', None)
            ev.append(e)
            if e['err']:
                break
        return dict(ev=ev, defaults=dict(
            inv=dict(n=4, param=self.code(1.)), rbf=dict(n=7, param=self.code(1e5)),
            corrfun=dict(n=4, param=0)))

    def name(self, s):
        """names of files that have to be there."""
        return s.replace('TMP', self.tmp)

    def do_make(self, op, e):
        o = dict(op['o'])
        num = lambda x: np.float64(x) if op['np'] else x
        inn = lambda x: np.int64(x) if op['np'] else x
        if o['kind'] == 'seq':
            ob = Sequence((inn(o['first']), inn(o['after'])), num(o['rate']),
                Particle(num(o['diam']), num(o['dens'])), self.name(o['part']),
                self.name(o['trc']), o['smooth'], inn(o['minlen']))
            for k in ('diam', 'dens', 'rate', 'trc', 'part'):
                o[k] = self.value(k, self.name(o[k]) if k in ('trc', 'part') else o[k])
        else:
            par = o['param']
            if o['method'] == 'corrfun':
                par = self.corr
            kw = {}
            if not op['dn']:
                kw['num_neighbs'] = inn(o['n'])
            if o['radius']:
                kw['radius'] = num(o['radius'][0])
            if not op['dp']:
                kw['param'] = par if o['method'] == 'corrfun' else num(par)
            ob = interpolant(o['method'], **kw)
            o['radius'] = [self.code(r) for r in o['radius']]
            o['param'] = self.value('param', par)
            e['obs'] = dict(fp=self.fp(ob))
        e['o'] = o
        self.objs[op['h']] = ob

    def do_hand(self, op, e):
        cfg = ConfigParser()
        e['keys'] = []
        for k, v in op['keys']:
            sec, opt, ty = KEYS[k]
            if not cfg.has_section(sec):
                cfg.add_section(sec)
            if k == 'param' and v == 'CORR':
                v = self.corr
            if ty == 'str' and k != 'method':
                v = self.name(v)
            e['keys'].append(dict(k=k, v=self.value(k, v)))
            t = op['yes'] if v is True else op['no'] if v is False else str(v)
            cfg.set(sec, opt, t.replace('%', '%%'))
        with open(self.fname(op['f']), 'w') as out:
            cfg.write(out)

    def do_save(self, op, e):
        cfg = self.parser(op['f'])
        self.objs[op['h']].save_config(cfg)
        with open(self.fname(op['f']), 'w') as out:
            cfg.write(out)
        e['obs'] = dict(keys=self.keys(self.parser(op['f'])))

    def body(self, p):
        """parts of the cube around the particle, and of its mass were it all of
        the given density, in millionths."""
        return dict(ball=[scaled(p.volume() / float(p.diam)**3, 10**6, 1),
            scaled(p.mass() / (float(p.density) * p.volume()), 10**6, 1)])

    def rng(self, r):
        return dict(first=as_int(r[0]), after=as_int(r[1]))

    def do_read_seq(self, op, e):
        kw = {}
        if op['smooth']:
            kw['smooth'] = op['smooth'][0]
        if op['minlen']:
            kw['traj_min_len'] = op['minlen'][0]
        o = read_sequence(self.fname(op['f']), **kw)
        self.objs[op['h']] = o
        e['obs'] = dict(self.rng(o.range()), **self.body(o.part), diam=self.code(o.part.diam),
            dens=self.code(o.part.density), rate=self.code(o.frate),
            part=self.s(o.part_fname()), saved=self.described(o))

    def do_read_interp(self, op, e):
        o = read_interpolant(self.fname(op['f']))
        self.objs[op['h']] = o
        e['obs'] = dict(n=as_int(o.num_neighbs()),
            radius=[] if o.radius() is None else [self.code(o.radius())],
            saved=self.described(o), fp=self.fp(o))

    def do_read_dual(self, op, e):
        o = read_dual_scene(self.fname(op['f']))
        ids = [as_int(x) for x in o.get_tracers().trajectory_ids()]
        trc = os.path.join(self.tmp, 'a%b.h5' if len(ids) == 1 else 'b.h5')
        frames, tframes = [], []
        for fr in o.iter_frames():
            frames.append(as_int(fr.particles.time()))
            tframes.append(as_int(fr.tracers.time()))
        e['obs'] = dict(self.rng(o.get_range()), **self.body(o.part), diam=self.code(o.part.diam),
            dens=self.code(o.part.density), rate=self.code(o.frate),
            part=self.s(o.get_particles_path()), trc=self.s(trc),
            frames=frames, tframes=tframes)


def run(sc, tmp):
    return Run(sc, tmp).run()
