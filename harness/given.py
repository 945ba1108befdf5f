"""
Watches the objects that the real code is given: calls leave them as they were.

with given(e, where=where, trajs=trajs): ...

e['changed'] has the names of those that the call has changed.
"""
import numpy as np
from flowtracks.trajectory import ParticleSet


def freeze(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('o', x.shape, tuple(freeze(v) for v in x.flat))
        return ('a', str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, ParticleSet):
        return ('p', type(x).__name__, freeze(x.as_dict()), freeze(x.trajid()),
            freeze(x.time()))
    if isinstance(x, dict):
        return ('d', tuple((repr(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, (str, int, float, bool, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    return ('other', id(x))


def spoil(*objs):
    """
    What the code has given out belongs to the caller, who may change it: this
    is not seen in what is given later.
    """
    for x in objs:
        if isinstance(x, np.ndarray):
            if x.flags.writeable and x.dtype != object and x.dtype.names is None:
                x[...] = np.zeros(1, dtype=x.dtype)[0] if x.dtype.kind == 'b' else 77
        elif isinstance(x, ParticleSet):
            spoil(*x.as_dict().values())
        elif isinstance(x, dict):
            spoil(*x.values())
        elif isinstance(x, (list, tuple)):
            spoil(*x)
        elif hasattr(x, 'particles') and hasattr(x, 'tracers'):
            spoil(x.particles, x.tracers)


class given(object):
    def __init__(self, event, **objs):
        self.event, self.objs = event, objs

    def __enter__(self):
        self.was = dict((k, freeze(v)) for k, v in self.objs.items())

    def __exit__(self, *exc):
        self.event['changed'] = self.event.get('changed', []) + [k
            for k, v in sorted(self.objs.items()) if freeze(v) != self.was[k]]
        return False
