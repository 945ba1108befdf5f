"""Scenarios for the Config specification."""

NAMES = ['data/ptv_is.%d', 'xuap.%05d', 'tr/traj', 'scene.h5', 'a.mat', 'dir/', 'ptv_is.txt',
    'run 1/ptv_is.%d', 'exp50%%/ptv_is.%d', 'TMP/b.h5', 'TMP/a%b.h5', 'x=1/xuap.%d', 'acc;1.%d', 'run #2/xuap.%d',
    'a ;b/traj', '#1/ptv_is.%d', 'd:x/traj']


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.pool = [1., 1e5]

    def num(self, kind):
        r = self.rng
        v = {'diam': lambda: r.choice([1e-6, 5e-5, 0.001, r.uniform(0, 1e-3)]),
             'dens': lambda: r.choice([1000., 1030., 1, r.uniform(800, 3000)]),
             'rate': lambda: r.choice([500., 100, 250.5, r.uniform(1, 5000), 1. / 3]),
             'radius': lambda: r.choice([.4, .5, .75, r.uniform(.35, 1.), 2.]),
             'inv': lambda: r.choice([1, 2, 2., 1.5, 3, r.uniform(.5, 4)]),
             'rbf': lambda: r.choice([5., 10., 30., r.uniform(2, 50)])}[kind]()
        self.pool.append(float(v))
        return v

    def seq(self):
        r = self.rng
        a = r.choice([0, 1, 3, 10000])
        return dict(kind='seq', diam=self.num('diam'), dens=self.num('dens'),
            rate=self.num('rate'), first=a, after=a + r.randint(1, 40),
            smooth=r.random() < .5, minlen=r.choice([0, 0, 1, 3, 10]),
            trc=r.choice(NAMES), part=r.choice(NAMES))

    def interp(self):
        r = self.rng
        m = r.choice(['inv', 'inv', 'rbf', 'corrfun'])
        dn, dp = r.random() < .3, m != 'corrfun' and r.random() < .3
        o = dict(kind='interp', method=m,
            n={'rbf': 7}.get(m, 4) if dn else r.randint(1, 7),
            radius=[self.num('radius')] if r.random() < .4 else [],
            param=1 if m == 'corrfun' else self.num(m))
        if dp:
            o['param'] = {'inv': 1, 'rbf': 1e5}[m]
        return o, dn, dp


def c19(rng, tier):
    g = Gen(rng)
    ops = []
    objs, files = {}, {}
    nobj = [0]

    def new():
        nobj[0] += 1
        return 'o%d' % (nobj[0] if rng.random() < .8 else rng.randint(1, nobj[0]))

    def there(o):
        """files that are really there, with such frames."""
        o['trc'], o['part'] = rng.choice([('TMP/a%b.h5', 'TMP/b.h5'),
            ('TMP/b.h5', 'TMP/a%b.h5'), ('TMP/b.h5', 'TMP/b.h5')])
        o['first'] = rng.randint(0, 15)
        o['after'] = rng.randint(o['first'] + 1, 21)

    def make():
        h = new()
        if rng.random() < .5:
            o, dn, dp = g.seq(), False, False
            if rng.random() < .4:
                there(o)
        else:
            o, dn, dp = g.interp()
        objs[h] = o
        ops.append(dict(op='make', h=h, o=o, dn=dn, dp=dp, np=rng.random() < .25))

    def hand():
        f = rng.choice(['f1', 'f2'])
        keys = []
        if rng.random() < .8:
            o = g.seq()
            if rng.random() < .6:     # really there
                there(o)
            keys += [(k, o[k]) for k in ('diam', 'dens', 'rate', 'first', 'trc', 'part')]
            keys.append(('last', o['after'] - 1))
            keys += [(k, o[k]) for k in ('smooth', 'minlen') if rng.random() < .5]
        if rng.random() < .6 or not keys:
            o, dn, dp = g.interp()
            keys.append(('method', o['method']))
            if o['method'] == 'corrfun':
                keys.append(('param', 'CORR'))
            elif rng.random() < .6:
                keys.append(('param', o['param']))
            if rng.random() < .6:
                keys.append(('num', o['n']))
            if o['radius']:
                keys.append(('radius', o['radius'][0]))
        rng.shuffle(keys)
        files[f] = dict(keys)
        ops.append(dict(op='hand', f=f, keys=keys, yes=rng.choice(['yes', 'True', '1', 'on']),
            no=rng.choice(['no', 'false', '0', 'off'])))

    make()
    hand()
    for _ in range(rng.randint(5, 14) * (1 if tier == 'quick' else 2)):
        k = rng.choice(['make', 'make', 'hand', 'save', 'save', 'save', 'read', 'read', 'read', 'read'])
        if k == 'make':
            make()
        elif k == 'hand':
            hand()
        elif k == 'save':
            hs = [h for h in sorted(objs) if objs[h]['kind'] != 'dual']
            if not hs:
                continue
            h, f = rng.choice(hs), rng.choice(['f1', 'f2'])
            F = files.setdefault(f, {})
            o = objs[h]
            if o['kind'] == 'seq':
                F.update((k, o[k]) for k in ('diam', 'trc', 'part', 'first'))
                F['last'] = o['after'] - 1
            else:
                F['method'] = o['method']
            ops.append(dict(op='save', f=f, h=h))
        else:
            f = rng.choice(sorted(files))
            F = files[f]
            can = (['seq', 'seq'] if 'diam' in F else []) + (['interp', 'interp'] if 'method' in F else [])
            if 'diam' in F and 'TMP' in F['trc'] and 'TMP' in F['part'] and F.get('last', 99) <= 20 \
               and F['first'] < 16:
                can += ['dual'] * 2
            if not can:
                continue
            what = rng.choice(can)
            h = new()
            op = dict(op='read_' + what, f=f, h=h)
            if what == 'seq':
                op['smooth'] = rng.choice([[], [], [True], [False]])
                op['minlen'] = rng.choice([[], [], [0], [2], [7]])
            objs[h] = dict(F, kind=what, after=F.get('last', 0) + 1)
            ops.append(op)
    return dict(pool=g.pool, ops=ops)
