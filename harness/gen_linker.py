"""Scenarios for the Linker specification."""
import random
import gen_store

TMPLS = ['ptv_is.%d', 'd/ptv_is.%d', 'ptv_is.%04d', 'run[1]/ptv_is.%d',
    'a.b/ptv_is_%d.dat', 'ptv_is%06d']
XTMPLS = ['xuap.%d', 'd/xuap.%d', 'x/xuap.%05d', 'xuap_%d.0']


def coords(rng, lim=40000):
    return [rng.randint(-lim, lim) for _ in range(3)]


def structure(rng, nframes, maxp, t0, style):
    """Random consistent links. Frames [num, [[prev, next, x, v, junk]]]."""
    live = []          # rows of the last frame that go on: (row, x)
    frames = []
    used = set()
    pdies = style.get('pdie') or [rng.choice([0.1, 0.3, 0.6])]
    pborn = rng.choice([0.2, 0.5, 0.8])
    num = t0
    for k in range(nframes):
        if k and rng.random() < style['gap']:
            num += rng.randint(1, 3)
        entries = list(live)
        births = sum(rng.random() < pborn for _ in range(max(0, maxp - len(entries))))
        if k == 0:
            births = rng.randint(style['first'], maxp)
        entries += [(-1, None, rng.choice(pdies)) for _ in range(births)]
        rng.shuffle(entries)
        parts, nlive = [], []
        empty = k > 0 and not live and rng.random() < style['empty']
        if empty:
            entries = []
        last = k == nframes - 1
        # to make empty frames, everything must die now and then.
        kill = rng.random() < style['empty']
        for row, (prev, x0, pdie) in enumerate(entries):
            while True:
                x = coords(rng) if x0 is None else \
                    [c + rng.randint(-900, 900) for c in x0]
                if tuple(x) not in used:
                    break
            used.add(tuple(x))
            dies = kill or rng.random() < pdie or (last and style['close'])
            parts.append([prev, -1 if dies else None, x, coords(rng, 900),
                coords(rng, 9000) + coords(rng, 9000) + coords(rng, 9)])
            if not dies:
                nlive.append((row, x, pdie))
        for row, (prev, _, _) in enumerate(entries):
            if prev >= 0:
                frames[-1][1][prev][1] = row
        frames.append([num, parts])
        live = nlive
        num += 1
    for p in frames[-1][1]:
        if p[1] is None:
            p[1] = 0       # goes on to a frame that is not there.
    return frames


def dataset(rng, tier, kind=None, n=0):
    kind = kind or rng.choice(['ptvis', 'ptvis', 'xuap', 'single'])
    big = tier == 'thorough' and rng.random() < 0.2
    nframes = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12] + ([25] if big else []))
    style = dict(gap=rng.choice([0, 0, 0.2]), empty=rng.choice([0, 0, 0.3, 0.6]),
        first=0 if kind != 'single' and rng.random() < 0.15 else 1,
        close=rng.random() < 0.75)
    maxp = rng.choice([1, 2, 3, 4, 6] + ([15] if big else []))
    if gen_store.FORCE:
        maxp, nframes = gen_store.FORCE[0]
        if nframes > 60:
            # some chains are very long.
            style['pdie'] = [.003, .01, .3, .5]
            style['empty'] = rng.choice([0, 0, .01])
    t0 = rng.choice([0, 1, 7, 98, 10001, 99998])
    frames = structure(rng, nframes, maxp, t0, style)
    ds = dict(kind=kind, frames=frames)
    if kind == 'single':
        # there's no telling an empty frame from the end there.
        k = 0
        while k < len(frames) and frames[k][1]:
            k += 1
        ds['frames'] = frames[:k]
        ds['tmpl'] = rng.choice(['ptv_is.txt', 'all/frames.txt', 'tracks_ptv_is'])
        ds['sep'] = rng.choice(['\n', '  \n'])
        ds['tail'] = rng.choice(['', '', '\n'])
    elif kind == 'xuap':
        ds['tmpl'] = rng.choice(XTMPLS)
        ds['floats'] = rng.random() < 0.5
        ds['more'] = rng.choice([0, 1, 1, 3])
    else:
        ds['tmpl'] = rng.choice(TMPLS)
    ds['reverse'] = rng.random() < 0.5
    ds['rel'] = rng.random() < 0.15
    if kind != 'single' and rng.random() < 0.4:
        base = ds['tmpl'].split('/')[-1].split('%')[0]
        ds['distract'] = [base + 'xyz', base + 'x5', 'old_' + base + '17',
            base + '5.bak', 'notes.txt']
    return ds


def read(rng, sc, s):
    ds = sc['sets'][s]
    nums = [f[0] for f in ds['frames']]
    fn, fd = rng.choice([(1, 1), (1, 1), (2, 1), (25, 1), (100, 1), (250, 1),
        (5, 2), (333, 4), (1, 4)])
    rd = dict(set=s, first=[], last=[], minlen=[], fn=fn, fd=fd,
        how=rng.choice(['list', 'list', 'iter', 'generic', 'generic-iter']),
        fmt=rng.random() < 0.5 or 'ptv_is' not in ds['tmpl'] and
            ds['kind'] != 'xuap' and not ds['tmpl'].endswith('.txt'),
        explicit=rng.random() < 0.3)
    if rng.random() < 0.6:
        rd['minlen'] = [rng.choice([0, 1, 1, 2, 3, 4, 6])]
    if ds['kind'] != 'single':
        if rng.random() < 0.4:
            rd['first'] = [rng.choice(nums)]
        if rng.random() < 0.4:
            rd['last'] = [rng.choice([n for n in nums
                if not rd['first'] or n >= rd['first'][0]])]
        if not rd['first'] and rng.random() < 0.2:
            rd['first'] = [nums[0] - 1]
        if not rd['last'] and rng.random() < 0.2:
            rd['last'] = [nums[-1] + 3]
    if rd['how'] in ('iter', 'generic-iter') and rng.random() < 0.25:
        rd['abandon'] = rng.randint(0, 3)
    return rd


def scenario(rng, tier, kin):
    sc = dict(kin=kin, sets=[dataset(rng, tier)])
    if rng.random() < 0.3:
        ds = dataset(rng, tier)
        ds['tmpl'] = 'second/' + ds['tmpl']
        sc['sets'].append(ds)
    sc['reads'] = []
    for _ in range(rng.choice([1, 2, 3])):
        sc['reads'].append([read(rng, sc, rng.randrange(len(sc['sets'])))
            for _ in range(rng.choice([1, 1, 2]))])
    return sc


def c09(rng, tier):
    return scenario(rng, tier, False)

def c10(rng, tier):
    return scenario(rng, tier, True)


def concrete(rng, beh, kin):
    """A link structure from the model, as each kind of files."""
    used = set()
    frames = []
    t0 = rng.choice([0, 5, 10001])
    nxt = {}
    for k, f in enumerate(beh):
        for r, p in enumerate(f['parts']):
            if p['prev'] and k:
                nxt[k - 1, p['prev'] - 1] = r
    for k, f in enumerate(beh):
        parts = []
        for r, p in enumerate(f['parts']):
            while True:
                x = coords(rng, 500)
                if tuple(x) not in used:
                    break
            used.add(tuple(x))
            parts.append([p['prev'] - 1 if k else -1,
                -1 if p['ended'] else nxt.get((k, r), 0), x, coords(rng, 900),
                coords(rng, 9000) + coords(rng, 9000) + coords(rng, 9)])
        frames.append([t0 + k, parts])
    kinds = ['ptvis', 'xuap']
    if all(f[1] for f in frames):
        kinds.append('single')
    kind = rng.choice(kinds)
    ds = dict(kind=kind, frames=frames, tmpl=dict(ptvis='ptv_is.%d',
        xuap='xuap.%d', single='ptv_is.txt')[kind])
    sc = dict(kin=kin, sets=[ds])
    sc['reads'] = [[dict(read(rng, sc, 0), first=[], last=[], minlen=[1])],
        [read(rng, sc, 0)]]
    return sc

def conc9(rng, beh):
    return concrete(rng, beh, False)

def conc10(rng, beh):
    return concrete(rng, beh, True)


def real(tier, kin):
    last = 10006 if tier == 'quick' else 10030
    res = []
    for kind, tmpl, n in (('ptvis', '/repo/data/tracers/ptv_is.%d', last),
            ('xuap', '/repo/data/particles/xuap.%d', 10030 if tier == 'quick' else 10200)):
        sc = dict(kin=kin, sets=[dict(kind=kind, real=[tmpl, 10001, n], tmpl='')])
        for a, b in ((10001, n), (10003, n)):
            sc['reads'] = [[dict(set=0, first=[a], last=[b], minlen=[m],
                fn=50, fd=1, how=how, explicit=True)]
                for how, m in (('list', 1), ('iter', 3))]
            res.append(dict(sc))
    return res

def real9(tier):
    return real(tier, False)

def real10(tier):
    return real(tier, True)
