"""Scenarios for the Doc specification."""
import ast, glob, inspect, os
from core import REPO

WORDS = ['the', 'frame', 'trajectory.', '(n,3)', 'array', 'see', ':func:`x`', 'a', '-', '--',
    'first-frame', 'pos', 'x,', 'or', '**kw**', '"q"', 'numbers;', 'trajid', '[m]', 'i.e.',
    'b', 'end.', 'of:', 'e:g']
IDS = ['pos', 'velocity', 'Arguments', 'Returns', 'x', 'frame_num', 'kwds', 'T1', 'Note',
    'See_also', 'n2', 'References', '_priv', '3']


def text(rng, n=None):
    return ' '.join(rng.choice(WORDS) for _ in range(rng.randint(1, 6) if n is None else n))


def ind(rng):
    return rng.choice(['', '', ' ', '  ', ' ' * 4, ' ' * 8, '\t', '  \t'])


def line(rng, k):
    if k == 'blank':
        return rng.choice(['', '', '   ', '\t'])
    if k == 'title':
        return ind(rng) + rng.choice(IDS) + ':' + rng.choice(['', '', '', ' ',
            ' ' + text(rng), text(rng, 1), ':'])
    if k == 'def':
        sep = rng.choice([' ', ' ', '  ', '\t'])
        return rng.choice([',', ', ', ',  ']).join(rng.sample(IDS, rng.choice([1, 1, 2, 3]))) \
            + sep + '-' + rng.choice([' ', '  ']) + text(rng) + rng.choice(['', '', ' '])
    t = text(rng)
    while t[0] in '-*':
        t = text(rng)
    if rng.random() < .2:   # not a definition, though it looks like one.
        t = rng.choice(['   x - ', 'a b - ', 'a-b ', 'x -y ', 'x- ', 'a. - ', 'a , b - ']) + t
    return ind(rng) + t + rng.choice(['', '', ' ', '\t'])


def c26(rng, tier):
    docs = []
    for _ in range(6):
        w = rng.choice([[1, 2, 3, 3], [2, 1, 1, 4], [1, 1, 5, 2], [3, 3, 1, 1]])
        docs.append([line(rng, rng.choices(['blank', 'title', 'def', 'plain'], w)[0])
            for _ in range(rng.choice([0, 1, 3, 6, 9, 14, 20]))])
    return dict(docs=docs)


def concrete(rng, beh):
    """every sequence of kinds of lines that TLC went through."""
    return dict(docs=[[line(rng, x['k']) for x in beh]])


def manual(tier):
    """The docstrings of the package, as autodoc gives them."""
    docs = []
    for fn in sorted(glob.glob(os.path.join(REPO, 'flowtracks', '*.py'))):
        for n in ast.walk(ast.parse(open(fn).read())):
            if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)):
                d = ast.get_docstring(n)
                if d:
                    ls = inspect.cleandoc(d).split('\n') + ['']
                    if not any(x.lstrip().startswith('*') for x in ls):
                        docs.append(ls)
    return [dict(docs=docs[i:i + 5]) for i in range(0, len(docs), 5)]
