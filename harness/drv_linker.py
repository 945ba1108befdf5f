"""
Executes scenarios of the Linker specification: writes linked frame files, and
reads them by the real readers.

A scenario: sets - list of data sets, each with kind ('ptvis', 'xuap',
'single'), tmpl, frames [[num, parts]] with parts [[prev, next, x, v]], prev
and next being rows from 0, -1 for none; reads.
"""
import os
import numpy as np
from flowtracks import io
from vals import as_int, scaled, err

BAD = -999999999


def write_set(ds, tmp):
    kind = ds['kind']
    path = os.path.join(tmp, ds['tmpl'])
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    blocks = []
    for num, parts in ds['frames']:
        lines = []
        for prev, nxt, x, v, junk in parts:
            mm = ['%10.3f' % (c / 1000.) for c in x]
            if kind == 'xuap':
                p, n = prev + 1, nxt + 1 if nxt >= 0 else -1
                lead = ['%f' % p, '%f' % n] if ds.get('floats') else \
                    ['%4d' % p, '%4d' % n]
                cols = lead + ['%.6f' % (c / 1e6) for c in x] + \
                    ['%.6f' % (c / 1e6) for c in junk[:3]] + \
                    ['%.6f' % (c / 1e6) for c in v] + \
                    ['%.6f' % (c / 1e6) for c in junk[3:6]] + \
                    ['%d' % c for c in junk[6:6 + ds.get('more', 0)]]
                lines.append('\t'.join(cols))
            else:
                n = nxt if nxt >= 0 else -2
                lines.append('%4d %4d %s' % (prev, n, ' '.join(mm)))
        blocks.append((num, lines))
    if kind == 'single':
        with open(path, 'w') as f:
            f.write(ds.get('sep', '\n').join('\n'.join(b) + '\n' for _, b in blocks))
            f.write(ds.get('tail', ''))
        return path
    order = list(blocks)
    if ds.get('reverse'):
        order.reverse()
    for num, lines in order:
        with open(path % num, 'w') as f:
            if kind == 'ptvis':
                f.write('%d\n' % len(lines))
            f.write(''.join(l + '\n' for l in lines))
    for name in ds.get('distract', ()):
        with open(os.path.join(os.path.dirname(path), name), 'w') as f:
            f.write('this is not a frame\n')
    return path


def read_real(ds):
    """frames of data that is in the repository, parsed on our own."""
    frames = []
    for num in range(ds['real'][1], ds['real'][2] + 1):
        fn = ds['real'][0] % num
        if not os.path.exists(fn):
            continue
        parts = []
        with open(fn) as f:
            lines = f.read().split('\n')
        if ds['kind'] == 'ptvis':
            lines = lines[1:]
        for line in lines:
            w = line.split()
            if not w:
                continue
            if ds['kind'] == 'ptvis':
                parts.append([int(w[0]), int(w[1]),
                    [round(float(c) * 1000) for c in w[2:5]], [0, 0, 0], []])
            else:
                n = int(float(w[1]))
                parts.append([int(float(w[0])) - 1, n - 1,
                    [round(float(c) * 1e6) for c in w[2:5]],
                    [round(float(c) * 1e6) for c in w[8:11]], []])
        frames.append([num, parts])
    ds['frames'] = frames


def spec_set(ds):
    res = []
    for k, (num, parts) in enumerate(ds['frames']):
        end = (lambda n: n == -2) if 'real' in ds else (lambda n: n < 0)
        res.append(dict(num=k if ds['kind'] == 'single' else num,
            parts=[dict(prev=p[0] + 1, ended=end(p[1]), x=p[2], v=p[3])
                   for p in parts]))
    return res


def show(tr, ds, fd):
    n = len(tr.time())
    pos, vel = np.asarray(tr.pos()), np.asarray(tr.velocity())
    try:
        acc = np.asarray(tr.accel())
    except Exception:
        acc = np.full((n, 3), np.nan)
    kv = 1e6 if ds['kind'] == 'xuap' else 1e6 * fd
    ka = 1e6 * fd if ds['kind'] == 'xuap' else 1e6 * fd * fd
    def col(a, k):
        if a.shape != (n, 3):
            return [[BAD]]
        return [[scaled(c, k) for c in row] for row in a]
    return dict(id=as_int(tr.trajid()), t=[as_int(t) for t in tr.time()],
        x=col(pos, 1e6), v=col(vel, kv), a=col(acc, ka))


def run(sc, tmp):
    paths = []
    for ds in sc['sets']:
        if 'real' in ds:
            paths.append(ds['real'][0])
            read_real(ds)
        elif ds.get('rel'):
            write_set(ds, tmp)
            paths.append(ds['tmpl'])
        else:
            paths.append(write_set(ds, tmp))
    ev = []

    def new_event(rd):
        return dict(op='read', set=rd['set'] + 1, first=rd['first'],
            last=rd['last'], minlen=rd['minlen'], rate=rd['fn'],
            infile=sc['sets'][rd['set']]['kind'] == 'xuap', kin=sc['kin'],
            partial=False, how=rd['how'], err='')

    def start(rd):
        ds = sc['sets'][rd['set']]
        kw = {}
        first = rd['first'][0] if rd['first'] else None
        last = rd['last'][0] if rd['last'] else None
        frate = rd['fn'] / float(rd['fd'])
        if rd['minlen']:
            kw['traj_min_len'] = rd['minlen'][0]
        fn = paths[rd['set']]
        if rd['how'] in ('generic', 'generic-iter'):
            if rd['how'] == 'generic-iter':
                kw['iter_allowed'] = True
            fmt = 'xuap' if ds['kind'] == 'xuap' else 'ptvis'
            return io.trajectories(fn, first, last, frate,
                fmt if rd.get('fmt') else None, **kw)
        if ds['kind'] == 'xuap':
            kw['xuap'] = True
        if rd['first'] or rd.get('explicit'):
            kw['first'] = first
        if rd['last'] or rd.get('explicit'):
            kw['last'] = last
        if rd['fn'] != rd['fd'] or rd.get('explicit'):
            kw['frate'] = frate
        f = io.iter_trajectories_ptvis if rd['how'] == 'iter' else \
            io.trajectories_ptvis
        return f(fn, **kw)

    for group in sc['reads']:
        # the reads of one group are consumed in turns.
        evs = [new_event(rd) for rd in group]
        its, out = [], []
        for rd, e in zip(group, evs):
            out.append([])
            try:
                its.append(iter(start(rd)))
            except Exception as exc:
                e['err'] = err(exc)
                its.append(None)
        live = [i for i, it in enumerate(its) if it is not None]
        while live:
            for i in list(live):
                rd = group[i]
                if rd.get('abandon') is not None and len(out[i]) >= rd['abandon']:
                    evs[i]['partial'] = True
                    its[i] = None
                    live.remove(i)
                    continue
                try:
                    tr = next(its[i])
                except StopIteration:
                    live.remove(i)
                    continue
                except Exception as exc:
                    evs[i]['err'] = err(exc)
                    live.remove(i)
                    continue
                out[i].append(tr)
        for i, e in enumerate(evs):
            if not e['err']:
                rd = group[i]
                e['obs'] = dict(trajs=[show(tr, sc['sets'][rd['set']], rd['fd'])
                    for tr in out[i]])
            ev.append(e)
    return dict(sets=[spec_set(ds) for ds in sc['sets']], ev=ev)
