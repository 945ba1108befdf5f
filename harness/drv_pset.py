"""
Executes scenarios of the PSet specification on the real particle sets.
"""
import numpy as np
from flowtracks.trajectory import ParticleSet, Trajectory, ParticleSnapshot
from vals import Coder, as_int, err, FOREIGN, laid
from given import given

BASE = {'trajectory': Trajectory, 'snapshot': ParticleSnapshot, 'plain': ParticleSet}


def selector(sel, n):
    """the numpy selector, and the (1-based) indices it stands for."""
    k = sel['kind']
    if k == 'int':
        s = sel['v']
        return s, [s % n + 1]
    if k == 'slice':
        s = slice(*sel['v'])
        return s, [i + 1 for i in range(n)[s]]
    if k == 'mask':
        s = np.array(sel['v'], dtype=bool)
        return s, [i + 1 for i in range(n) if sel['v'][i]]
    s = [i for i in sel['v']]
    if k == 'array':
        s = np.array(s, dtype=np.int64)
    return s, [i % n + 1 for i in sel['v']]


class Run(object):
    def __init__(self, sc, tmp):
        self.code = Coder(sc['pool'])
        self.sc = sc
        self.objs = {}
        self.ev = []

    def spec(self, p):
        return dict(name=p['name'], shape=p['shape'], type=p['type'],
            vals=[[self.code(x) for x in v] for v in p['vals']])

    def arr(self, p):
        return laid(np.array(p['vals'], dtype=p['type']).reshape(
            [len(p['vals'])] + p['shape']), p.get('layout'))

    def vals(self, v, single=False):
        v = np.asarray(v)
        if single:
            v = v[None]
        return [self.code.cell(x) for x in v]

    def scalar(self, o):
        kind, ob = self.objs[o]
        if kind == 'plain':
            return 0
        return as_int(ob.trajid() if kind == 'trajectory' else ob.time())

    def run(self):
        for op in self.sc['ops']:
            e = dict(op=op['op'], err='')
            for k in ('o', 'name', 'kind', 'tag', 'n'):
                if k in op:
                    e[k] = op[k]
            try:
                getattr(self, 'do_' + op['op'])(op, e)
            except Exception as exc:
                e['err'] = err(exc)
                e.pop('obs', None)
            self.ev.append(e)
            if e['err']:
                break
        return dict(ev=self.ev)

    def do_create(self, op, e):
        e['props'] = [self.spec(p) for p in op['props']]
        ar = dict((p['name'], self.arr(p)) for p in op['props'])
        late = dict((k, ar.pop(k)) for k in op.get('late', []))
        pos, vel = ar.pop('pos'), ar.pop('velocity')
        if op['kind'] == 'plain':
            ob = ParticleSet(pos, vel, **ar)
        elif op['kind'] == 'trajectory':
            ob = Trajectory(pos, vel, ar.pop('time'), op['tag'], **ar)
        else:
            ob = ParticleSnapshot(pos, vel, op['tag'], ar.pop('trajid'), **ar)
        for k in op.get('late', []):
            ob.create_property(k, late[k])
        self.objs[op['o']] = (op['kind'], ob)

    def do_set(self, op, e):
        e['prop'] = self.spec(op['prop'])
        ob = self.objs[op['o']][1]
        a = self.arr(op['prop'])
        if op['new']:
            with given(e, init_val=a):
                ob.create_property(op['prop']['name'], a)
        else:
            # the array that it had before may be in other sets also.
            was = getattr(ob, op['prop']['name'])()
            with given(e, value=a, replaced=was):
                getattr(ob, 'set_' + op['prop']['name'])(a)

    def do_set_sel(self, op, e):
        ob = self.objs[op['o']][1]
        s, e['ixs'] = selector(op['sel'], op['len'])
        v = op['vals']
        e['vals'] = [[self.code(x) for x in (v[0] if op['cast'] else v[i])]
            for i in range(len(e['ixs']))]
        if op['cast'] or op['sel']['kind'] == 'int':
            a = np.array(v[0], dtype=op['type']).reshape(op['shape'])
            if op['shape'] == []:
                a = a[()]
        else:
            a = laid(np.array(v, dtype=op['type']).reshape([len(v)] + op['shape']),
                op.get('layout'))
        with given(e, value=a, selector=s):
            if op.get('keyword'):
                getattr(ob, 'set_' + op['name'])(a, selector=s)
            else:
                getattr(ob, 'set_' + op['name'])(a, s)

    def do_read(self, op, e):
        ob = self.objs[op['o']][1]
        s, e['ixs'] = selector(op['sel'], op['len'])
        f = getattr(ob, op['name'])
        with given(e, selector=s):
            r = f(selector=s) if op.get('keyword') else f(s)
        e['obs'] = dict(vals=self.vals(r, op['sel']['kind'] == 'int'))

    def do_table(self, op, e):
        ob = self.objs[op['o']][1]
        s, e['ixs'] = selector(op['sel'], op['len'])
        r = np.asarray(ob[s])
        if op['sel']['kind'] == 'int':
            r = r[None]
        bad = dict(x=[FOREIGN], v=[FOREIGN], t=[FOREIGN], id=FOREIGN)
        e['obs'] = dict(rows=[dict(x=self.code.cell(q[:3]), v=self.code.cell(q[3:6]),
            t=self.code.cell(q[6:7]), id=as_int(q[7])) if len(q) == 8 else bad for q in r])

    def do_look(self, op, e):
        res = []
        for o in sorted(self.objs):
            kind, ob = self.objs[o]
            d = ob.as_dict()
            gets = []
            for k in sorted(d):
                v = getattr(ob, k)()
                gets.append(dict(name=k, vals=self.vals(v)))
            ext = sorted([k, np.dtype(t).name, int(w)] for k, (t, w) in
                ob.ext_schema().items() if np.ndim(d.get(k, 0)) < 3)
            res.append(dict(o=o, len=len(ob), tag=self.scalar(o),
                dict=[dict(name=k, vals=self.vals(d[k])) for k in sorted(d)],
                gets=gets,
                schema=sorted([k, [int(x) for x in s]] for k, s in ob.schema().items()),
                ext=ext, asked=op['asked'],
                has=[k for k in op['asked'] if ob.has_property(k)]))
        e['obs'] = dict(objs=res)


def run(sc, tmp):
    return Run(sc, tmp).run()
