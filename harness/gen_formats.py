"""Scenarios for the Formats specification."""
import random
import gen_linker
from gen_store import Table, size, opt


def table(rng, tier, holes=0.2):
    n, f = size(rng, tier)
    return Table(rng, n, f, special=rng.random() < 0.4, holes=holes)


def rng_of(rng, tab):
    a, b = tab.times()[0], tab.times()[-1]
    lo = rng.randint(a - 1, b + 1) if rng.random() < 0.6 else None
    hi = rng.randint(a if lo is None else max(a - 1, lo), b + 1) if rng.random() < 0.6 else None
    if hi is not None and lo is not None and hi < lo:
        hi = lo
    return opt(lo), opt(hi)


def extras(rng, tab, pool):
    """Arrays attached to trajectories, and free ones."""
    def arr():
        shape = rng.choice([[], [3], [2, 3], [0], [4, 1], [2, 2, 2], [1]])
        n = 1
        for s in shape:
            n *= s
        tp = rng.choice(['float64', 'float64', 'int64', 'float32', 'bool'])
        vals = []
        for _ in range(n):
            if tp == 'int64':
                vals.append(rng.randint(-99, 99))
            elif tp == 'float32':
                vals.append(rng.randint(-99, 99) / 4.)
            elif tp == 'bool':
                vals.append(rng.choice([0, 1]))
            else:
                vals.append(rng.choice([rng.gauss(0, 1), float('inf'), -0.0]))
        pool.extend(float(v) for v in vals)
        return dict(shape=shape, type=tp, vals=vals)
    return arr


def reads(rng, tab, src, n, generic=True):
    res = []
    for _ in range(n):
        lo, hi = rng_of(rng, tab)
        if rng.random() < 0.2:
            lo, hi = [], []
        res.append(dict(op='read', src=src, first=lo, last=hi, generic=generic,
            minlen=[] if rng.random() < 0.4 else [rng.choice([0, 1, 1, 2, 3, 4])],
            iter=rng.random() < 0.5, fmt=rng.random() < 0.4))
    return res


def names(rng, n):
    res = []
    for _ in range(n):
        s = ''.join(rng.choice(['ptv_is', 'xuap', 'data', '.', '/', 'h5', '.h5', 'hdf',
            '.txt', 'mat', '.mat', '%d', '.10001', 'trajAcc', '_', 'x', '.hdf', 'PTV_IS'])
            for _ in range(rng.randint(1, 4)))
        if rng.random() < 0.6:
            s += rng.choice(['.h5', '.hdf', '.mat', '/', '.txt', '.%d', 'mat', 'hdf', 'h5'])
        res.append(dict(op='infer', name=s))
    return res


def c11(rng, tier):
    k = rng.random()
    paths = rng.choice(['abs', 'abs', 'rel', 'home'])
    if k < 0.75:
        tab = table(rng, tier)
        pool = []
        arr = extras(rng, tab, pool)
        tj = tab.trajs()
        ops = []
        kinds = rng.choice([['table'], ['dir'], ['table', 'dir']])
        if 'table' in kinds:
            ops.append(dict(op='save_table', trajs=tj, npid=rng.random() < 0.3,
                name=rng.choice(['scene.h5', 'my.hdf', 'x-h5'])
                if paths != 'home' else 'scene.h5',
                tdtype=rng.choice(['int64', 'float64', 'int32'])))
            ops += reads(rng, tab, 'table', rng.randint(2, 6))
        if 'dir' in kinds:
            ops.append(dict(op='save_dir', trajs=tj, adds=[], free=[], name='out/',
                tdtype=rng.choice(['int64', 'float64', 'int32'])))
            ops += reads(rng, tab, 'dir', rng.randint(2, 6))
        ops += names(rng, 4)
        return dict(tab.scenario(ops), paths='abs' if paths == 'home' and 'table' in kinds
            else paths)
    if k < 0.87:
        sc = mat(rng, tier, True)
    else:
        sc = accs(rng, tier, True)
    return dict(sc, paths=paths)


def lk11(rng, tier):
    """Linked frames by the generic reader."""
    sc = gen_linker.scenario(rng, tier, False)
    for grp in sc['reads']:
        for rd in grp:
            rd['how'] = rng.choice(['generic', 'generic-iter'])
            rd.pop('abandon', None)
            if rng.random() < 0.5:
                rd['minlen'] = [rng.choice([1, 2, 3, 4])]
    return sc


def c12(rng, tier):
    tab = table(rng, tier, holes=rng.choice([0, 0.4]))
    pool = []
    arr = extras(rng, tab, pool)
    tj = tab.trajs()
    name = rng.choice(['out/', 'a/b/out/', 'res.npz.d/'])
    tdt = rng.choice(['int64', 'float64', 'int32'])
    batches = [tj]
    if len(tj) > 1 and rng.random() < 0.3:
        cut = rng.randint(1, len(tj) - 1)
        batches = [tj[:cut], tj[cut:]]
        if rng.random() < 0.3:
            batches[1] = tj[max(0, cut - 1):]
    anames = rng.sample(['recon', 'err', 'fit_pos', 'velocity', 'pos', 'time', 'a', 'traj',
        'trajid', 'traj_fit', 'traject'],
        rng.choice([0, 1, 2, 2]))
    ops = []
    for b in batches:
        adds = [[n, t['id'], arr()] for n in anames for t in b]
        free = [[n, arr()] for n in rng.sample(['weights', 'frate', 'notes', 'k2', 'traj', 'traj_1x', 'trajects_'],
            rng.choice([0, 1, 2]))]
        ops.append(dict(op='save_dir', trajs=b, adds=adds, free=free, name=name,
            tdtype=tdt, npid=rng.random() < 0.3, noslash=rng.random() < 0.3,
            distract=rng.choice([[], ['README', 'npz.txt'], ['traj_1.npz.txt', 'npz',
                'traj_77.npz~', 'traj_8.txt']])))
        if rng.random() < 0.5 or b is batches[-1]:
            ops.append(dict(op='read', src='dir', first=[], last=[], minlen=[],
                generic=False, bare=True))
            ops += reads(rng, tab, 'dir', rng.randint(1, 4), False)
            ops.append(dict(op='read_free'))
    return dict(tab.scenario(ops, pool), paths=rng.choice(['abs', 'rel', 'home']))


def pt(rng, lim=30000):
    return [rng.randint(-lim, lim) for _ in range(3)]


def mat(rng, tier, generic):
    tab = Table(rng, *size(rng, tier), extra=0, holes=0.2)
    trajs = [dict(id=t['id'], pts=[dict(t=p['t'], v=[pt(rng), pt(rng), pt(rng)])
        for p in t['pts']]) for t in tab.trajs()]
    rd = reads(rng, tab, 'mat', 2, True) if generic else []
    if not generic or rng.random() < 0.3:
        rd.append(dict(op='read', src='mat', first=[], last=[], minlen=[], generic=False))
    return dict(keys=[], ids=tab.ids, pool=[0.], ops=[dict(op='save_mat', trajs=trajs,
        name=rng.choice(['traj.mat', 'd.mat']),
        tdtype=rng.choice(['float64', 'int64']) if max(tab.ids) < 2**53 else 'int64',
        dirvar=rng.choice([None, 'first', 'last']))] + rd)


def accs(rng, tier, generic):
    n0 = rng.choice([0, 1, 7, 98, 10001])
    nf = rng.choice([1, 2, 3, 4, 6, 9])
    gap = rng.random() < 0.25
    files, num = [], n0
    used = []
    holes = rng.choice([0, 0, .15, .5])
    for _ in range(nf):
        paths = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            L = rng.choice([1, 1, 2, 2, 3, 4, 6, 9])
            path, g = [], 0
            for _ in range(L):
                x = pt(rng)
                if used and rng.random() < 0.05:
                    x = list(rng.choice(used))
                used.append(x)
                path.append(dict(g=g, x=x, v=pt(rng), a=pt(rng)))
                g += 1 + (rng.randint(1, 3) if rng.random() < holes else 0)
            paths.append(path)
        files.append(dict(num=num, paths=paths))
        num += 1
        if gap and rng.random() < 0.3:
            num += 1
    name = rng.choice(['acc/trajAcc.%d', 'a.b/trajAcc%05d.dat', 'tr/acc_%d', 'trajAcc.%d'])
    base = name.split('/')[-1].split('%')[0]
    ops = [dict(op='save_acc', files=files, name=name, reverse=rng.random() < 0.5,
        more=rng.choice([0, 0, 2]), distract=rng.choice([[], [base + 'x', 'z' + base + '7',
            base + '12.bak']]))]
    nums = [f['num'] for f in files]
    for _ in range(rng.randint(1, 4)):
        lo = opt(rng.randint(nums[0] - 1, nums[-1])) if rng.random() < 0.6 else []
        hi = opt(rng.randint(lo[0] if lo else nums[0], nums[-1] + 2)) \
            if rng.random() < 0.6 else []
        bare = not generic and not lo and not hi
        ops.append(dict(op='read', src='acc', first=lo, last=hi, generic=generic,
            minlen=[] if rng.random() < 0.5 else [rng.choice([1, 2, 3, 5])],
            iter=rng.random() < 0.5, fmt=rng.random() < 0.3, bare=bare))
    if not generic:
        for _ in range(rng.randint(1, 4)):
            ops.append(dict(op='collect', frame=rng.choice(nums), seg=rng.random() < 0.5,
                explicit=rng.random() < 0.5))
    return dict(keys=[], ids=[], pool=[0.], ops=ops)


def c23(rng, tier):
    sc = mat(rng, tier, False) if rng.random() < 0.25 else accs(rng, tier, False)
    return dict(sc, paths=rng.choice(['abs', 'rel', 'home']))
