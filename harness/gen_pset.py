"""Scenarios for the PSet specification."""
import gen_store

NAMES = ['accel', 'id', 't', 'vel_pp', 'label', 'tensor', 'check_attr2', 'trajid', 'time',
         'n', 'x', 'diameter', 'pos2']
TYPES = ['float64', 'float64', 'int64', 'float32', 'int32', 'bool', 'int16', 'uint8', 'uint64', 'float16']


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.pool = [0., 1.]

    def val(self, ty):
        r = self.rng
        if ty == 'bool':
            return r.randint(0, 1)
        if ty.startswith('int'):
            v = r.randint(-40, 400)
        elif ty.startswith('uint'):
            v = r.randint(0, 255)
        elif ty in ('float32', 'float16'):
            v = r.randint(-1000, 1000) / 8.
        else:
            v = r.choice([r.uniform(-5, 5), r.randint(-9, 9) / 4., float('nan'), -0.]) \
                if r.random() < .3 else r.uniform(-1, 1)
        self.pool.append(float(v))
        return v

    def prop(self, name, n, shape=None, ty=None):
        r = self.rng
        if shape is None:
            shape = {'tensor': [3, 3], 'label': []}.get(name) or \
                r.choice([[], [], [3], [2], [3], [5]])
            if name in ('pos', 'velocity'):
                shape = [3]
            if name in ('trajid', 'time'):
                shape = []
        if ty is None:
            ty = r.choice(TYPES)
            if name in ('pos', 'velocity'):
                ty = r.choice(['float64', 'float64', 'float64', 'float32', 'int64'])
            if name in ('trajid', 'time'):
                ty = r.choice(['int64', 'int64', 'float64', 'int32'])
                if ty == 'float64':
                    p = dict(name=name, shape=[], type=ty,
                        vals=[[float(r.randint(0, 99))] for _ in range(n)])
                    self.pool += [v[0] for v in p['vals']]
                    return p
        w = 1
        for s in shape:
            w *= s
        return dict(name=name, shape=shape, type=ty, layout=r.choice(gen_store.LAYOUTS[:-1]),
            vals=[[self.val(ty) for _ in range(w)] for _ in range(n)])

    def sel(self, n, once):
        r = self.rng
        k = r.choice(['int', 'slice', 'slice', 'mask', 'list', 'array'])
        if n == 0:
            k = r.choice(['slice', 'mask'])
        if k == 'int':
            return dict(kind=k, v=r.randint(-n, n - 1))
        if k == 'slice':
            e = [None] + list(range(-n - 1, n + 2))
            return dict(kind=k, v=[r.choice(e), r.choice(e), r.choice([None, 1, 2, 3, -1, -2])])
        if k == 'mask':
            return dict(kind=k, v=[r.random() < .5 for _ in range(n)])
        if once:
            v = r.sample(range(n), r.randint(1, n))
            v = [i - n if r.random() < .2 else i for i in v]
        else:
            v = [r.randint(-n, n - 1) for _ in range(r.randint(1, n + 2))]
        return dict(kind=k, v=v)


def count(sel, n):
    if sel['kind'] == 'int':
        return 1
    if sel['kind'] == 'slice':
        return len(range(n)[slice(*sel['v'])])
    if sel['kind'] == 'mask':
        return sum(sel['v'])
    return len(sel['v'])


def c21(rng, tier):
    g = Gen(rng)
    ops = []
    objs = {}
    asked = NAMES + ['pos', 'velocity', 'nope', 'set_pos', 'schema', '_pos']

    def create():
        o = 'o%d' % (len(objs) if not objs or rng.random() < .9 else rng.randrange(len(objs)))
        kind = rng.choice(['trajectory', 'snapshot', 'plain', 'trajectory'])
        n = rng.choice([1, 2, 3, 4, 5, 7] + [0] * (kind != 'trajectory'))
        if gen_store.FORCE:
            n = rng.choice(gen_store.FORCE[0])
        names = ['pos', 'velocity']
        if kind == 'trajectory':
            names.append('time')
        if kind == 'snapshot':
            names.append('trajid')
        # a trajectory's and a snapshot's own scalars have methods.
        no = {'trajectory': 'trajid', 'snapshot': 'time'}.get(kind)
        extra = [m for m in rng.sample(NAMES, rng.randint(0, 4))
                 if m not in names and m != no]
        late = [m for m in extra if rng.random() < .4]
        ps = [g.prop(m, n) for m in names + extra]
        if rng.random() < .4:
            rng.shuffle(ps)
        ops.append(dict(op='create', o=o, kind=kind, n=n, props=ps, late=late,
            tag=0 if kind == 'plain' else rng.randint(0, 9999)))
        objs[o] = dict(n=n, kind=kind, no=no, props=dict((p['name'], p) for p in ps))

    def look():
        ops.append(dict(op='look', asked=asked))

    create()
    look()
    for _ in range(rng.randint(4, 12) * (1 if tier == 'quick' else 2)):
        if rng.random() < (.2 if len(objs) < 3 else .03):
            create()
        else:
            o = rng.choice(sorted(objs))
            ob = objs[o]
            n = ob['n']
            k = rng.choice(['new', 'again', 'whole', 'set_sel', 'set_sel', 'set_sel',
                            'read', 'read', 'table'])
            m = rng.choice(sorted(ob['props']))
            p = ob['props'][m]
            if k == 'new':
                free = [x for x in NAMES if x not in ob['props'] and x != ob['no']]
                if not free:
                    continue
                q = g.prop(rng.choice(free), n)
                ops.append(dict(op='set', o=o, prop=q, new=True))
                ob['props'][q['name']] = q
            elif k in ('again', 'whole'):
                q = g.prop(m, n)
                ops.append(dict(op='set', o=o, prop=q, new=k == 'again'))
                ob['props'][m] = q
            elif k == 'set_sel':
                sel = g.sel(n, True)
                c = count(sel, n)
                cast = rng.random() < .25
                q = g.prop(m, max(1, 1 if cast else c), p['shape'], p['type'])
                if c == 0 and not cast:
                    q['vals'] = []
                ops.append(dict(op='set_sel', o=o, name=m, sel=sel, len=n, vals=q['vals'],
                    cast=cast, shape=p['shape'], type=p['type'],
                    keyword=rng.random() < .5))
            elif k == 'read':
                ops.append(dict(op='read', o=o, name=m, sel=g.sel(n, False), len=n,
                    keyword=rng.random() < .5))
            else:
                trs = [x for x in sorted(objs) if objs[x]['kind'] == 'trajectory']
                if not trs:
                    continue
                o = rng.choice(trs)
                n = objs[o]['n']
                ops.append(dict(op='table', o=o, sel=g.sel(n, False), len=n))
                continue
        if rng.random() < .6:
            look()
    look()
    return dict(pool=g.pool, ops=ops)
