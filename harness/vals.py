"""
Abstraction of values: the specification sees numbers as integer codes, in the
order of the numbers. Code is by exact value (bit pattern), any number that was
not among the inputs of the scenario is foreign, with code -1.
"""
import struct, math, random
import numpy as np

FOREIGN = -1

def exact(x):
    """x as a float, or as an integer when it is one that is beyond floats."""
    f = float(x)
    if math.isfinite(f) and abs(f) >= 2**53:
        return int(x)
    return f

def bits(x):
    v = exact(x)
    return struct.pack('<d', v) if isinstance(v, float) else b'int%d' % v

class Coder(object):
    def __init__(self, values):
        vals = {}
        for v in values:
            vals[bits(v)] = exact(v)
        def key(b):
            v = vals[b]
            return (math.isnan(v), 0 if math.isnan(v) else v, b)
        self._codes = dict((b, n + 1) for n, b in
            enumerate(sorted(vals, key=key)))

    def __call__(self, x):
        try:
            return self._codes.get(bits(x), FOREIGN)
        except (TypeError, ValueError, OverflowError):
            return FOREIGN

    def cell(self, v):
        """one particle's value of a property, as a list of codes."""
        return [self(x) for x in np.ravel(v)]

def laid(a, how=None):
    """The same array, laid out in memory in another way."""
    if how == 'f':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.zeros((len(a) * 2 + 1,) + a.shape[1:], dtype=a.dtype)
        b[1::2] = a
        return b[1::2]
    if how == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == 'columns' and a.ndim > 1:
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2 + 1,), dtype=a.dtype)
        b[..., 1::2] = a
        return b[..., 1::2]
    if how == 'readonly':
        a = a.copy()
        a.flags.writeable = False
    return a

def shuffled(kw, order):
    """The properties, given in another order."""
    if not order:
        return kw
    ks = sorted(kw)
    random.Random(order).shuffle(ks)
    return dict((k, kw[k]) for k in ks)

def as_int(x):
    """An integral number as int, otherwise something that nothing equals"""
    try:
        f = float(x)
        if f != f or f != math.floor(f) or abs(f) > 10**9:
            return -999999999
        return int(f)
    except Exception:
        return -999999999

def scaled(x, scale, tol=1e-6, limit=2 * 10**9):
    """x * scale when it is (nearly) an integer."""
    try:
        v = float(x) * scale
    except Exception:
        return -999999999
    if not math.isfinite(v) or abs(v) > limit:
        return -999999999
    r = round(v)
    if abs(v - r) > tol * max(1., abs(v)):
        return -999999999
    return int(r)

def err(exc):
    return '%s: %s' % (type(exc).__name__, str(exc)[:200])
