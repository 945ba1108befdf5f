"""
Executes scenarios of the Doc specification on the real docstring conversion.
"""
from flowtracks import format_docstrings
from vals import err


def isword(s):
    return s != '' and all(c.isalnum() or c == '_' for c in s)


def names_of(s):
    """whether this is names, divided by commas; canonical form."""
    parts = s.split(',')
    if parts[0] != parts[0].strip():
        return None
    for p in parts[:-1]:
        if p != p.rstrip():
            return None
    parts = [p.strip() for p in parts]
    return ','.join(parts) if all(isword(p) for p in parts) else None


def split_def(line):
    """(names, text) of a definition line, or None"""
    for n, c in enumerate(line):
        if c == '-' and 0 < n < len(line) - 1 and \
           line[n - 1].isspace() and line[n + 1].isspace():
            nm = names_of(line[:n].rstrip())
            if nm is None:
                return None
            return (nm, line[n + 1:].strip()) if line[n + 1:].strip() else None
    return None


class Run(object):
    def __init__(self, sc, tmp):
        self.sc = sc
        self.words = {}

    def w(self, s):
        return self.words.setdefault(s, len(self.words) + 1)

    def ws(self, s):
        return [self.w(x) for x in s.split()]

    def inp(self, line):
        r = dict(k='plain', head=0, words=self.ws(line), whole=self.ws(line))
        if line.strip() == '':
            r['k'] = 'blank'
            return r
        h = line.lstrip().split(':')[0]
        d = split_def(line)
        if d is not None:
            r.update(k='def', head=self.w(d[0]), words=self.ws(d[1]))
        elif ':' in line and isword(h):
            r.update(k='title', head=self.w(h),
                words=self.ws(line.lstrip()[len(h) + 1:]))
        return r

    def outp(self, line):
        r = dict(k='text', head=0, words=[], ind=0)
        s = line.strip()
        if s == '':
            r['k'] = 'blank'
        elif len(s) > 2 and s[0] == s[-1] == '*' and isword(s[1:-1]) and line[0] == '*':
            r.update(k='title', head=self.w(s[1:-1]))
        elif line.startswith('* ``') and '``: ' in line:
            h, t = line[4:].split('``: ', 1)
            r.update(k='item', head=self.w(names_of(h) or h), words=self.ws(t))
        else:
            r.update(words=self.ws(s), ind=len(line) - len(line.lstrip()))
        return r

    def run(self):
        ev = []
        for lines in self.sc['docs']:
            e = dict(op='convert', err='', lines=[self.inp(x) for x in lines])
            try:
                given = list(lines)
                r = format_docstrings.parse_docstring(None, 'module', 'name', None,
                    None, given)
                e['obs'] = dict(lines=[self.outp(x) for x in given],
                    inplace=r is None or r is given)
            except Exception as exc:
                e['err'] = err(exc)
            ev.append(e)
        return dict(ev=ev)


def run(sc, tmp):
    return Run(sc, tmp).run()
