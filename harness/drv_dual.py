"""
Executes scenarios of the Dual specification on a real DualScene.

A scenario: p, q - the two streams, scenarios of the store driver with one op
that makes the table; rng; ops.
"""
import gc, os
import numpy as np
from flowtracks.scene import DualScene
from flowtracks.particle import Particle
from vals import as_int, err
import drv_store
from given import spoil


def rng_arg(rng):
    lo = rng[0][0] if rng[0] else None
    hi = rng[1][0] if rng[1] else None
    return None if lo is None and hi is None else (lo, hi)


def streams(sc, tmp, ev):
    """Makes both tables; returns the abstraction of each."""
    res = []
    for s in ('p', 'q'):
        r = drv_store.Run(dict(sc[s], fname=s + '.h5'), tmp)
        e = {}
        op = sc[s]['ops'][0]
        getattr(r, 'do_' + op['op'])(op, e)
        r.drop()
        if op['op'] == 'given':
            rows = e['rows']
        elif op['op'] == 'save_trajs':
            rows = [dict(id=t['id'], t=p['t'], v=p['v']) for t in e['trajs']
                for p in t['pts']]
        else:
            rows = [dict(id=p['id'], t=f['t'], v=p['v']) for f in e['frames']
                for p in f['pts']]
        ev[s] = rows
        res.append(r)
    return res


def visible(run, scene):
    ids, ts = scene.collect(['trajid', 'time'], {})
    return [dict(id=run.id(i), t=as_int(t)) for i, t in zip(ids, ts)]


def run(sc, tmp):
    first = dict(op='make', rng=sc['rng'], err='')
    evs = [first]
    try:
        p, q = streams(sc, tmp, first)
        # (tracers, particles)
        ds = DualScene(q.fn, p.fn, 500., Particle(1e-3, 1000.), rng_arg(sc['rng']))
    except Exception as exc:
        first['err'] = err(exc)
        first.setdefault('p', [])
        first.setdefault('q', [])
        return dict(ev=evs)
    it = None

    def step():
        try:
            x = next(it)
        except StopIteration:
            return dict(kind='stop')
        if isinstance(x, tuple):
            f, n = x
            o = dict(kind='seg', t=0, p=p.snap(f.particles), q=q.snap(f.tracers),
                pn=p.snap(n.particles), qn=q.snap(n.tracers))
        else:
            o = dict(kind='frame', p=p.snap(x.particles), q=q.snap(x.tracers))
        spoil(x)
        return o

    class Escape(Exception):
        pass

    for op in sc['ops']:
        e = dict(op, err='')
        evs.append(e)
        try:
            if op['op'] == 'start':
                f = ds.iter_frames if op['kind'] == 'frame' else ds.iter_segments
                if not op['tmp']:
                    it = iter(f())
                elif op.get('kw'):
                    it = iter(f(frame_range=rng_arg(op['tmp'][0])))
                else:
                    it = iter(f(rng_arg(op['tmp'][0])))
            elif op['op'] == 'next':
                e['obs'] = step()
            elif op['op'] == 'abandon':
                how = op.get('how', 'del')
                if how == 'close' and hasattr(it, 'close'):
                    it.close()
                elif how == 'throw' and hasattr(it, 'throw'):
                    try:
                        it.throw(Escape())
                    except Escape:
                        pass
                it = None
                gc.collect()
            elif op['op'] == 'ask':
                own = ds.get_range()
                o = lambda x: [] if x is None else [as_int(x)]
                e['obs'] = dict(
                    p=[as_int(x) for x in ds.get_particles().frame_range()],
                    q=[as_int(x) for x in ds.get_tracers().frame_range()],
                    own=[[], []] if own is None else [o(own[0]), o(own[1])],
                    prows=visible(p, ds.get_particles()),
                    qrows=visible(q, ds.get_tracers()))
        except Exception as exc:
            e['err'] = err(exc)
            break
    return dict(ev=evs)
