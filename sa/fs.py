"""Abstract file system: file-name -> content typestate, driven by the engine's events.

content states: 'other' (whatever was there before), 'absent', ('plot',) complete contents of
the file being moved, 'partial' (truncated / being written / mixed), 'unknown' (touched by
something not modelled).
"""
from .engine import show
from . import terms as T
from .terms import eq, tnot, le, lt, mul

WRITE_CALLS = {'std::filesystem::rename', 'std::filesystem::copy_file', 'std::filesystem::copy', 'std::filesystem::remove'}


class FS:
    def __init__(self, content):
        self.c = dict(content)
        self.s = {}          # stream -> dict
        self.trace = []

    def copy(self):
        f = FS(self.c)
        f.s = {k: dict(v, out=list(v['out'])) for k, v in self.s.items()}
        f.trace = list(self.trace)
        return f

    def get(self, p):
        return self.c.get(p, 'other')


def suffix(t):
    """constant tail of a path term"""
    if isinstance(t, tuple):
        if t[0] == 'str':
            return t[1]
        if t[0] == 'cat':
            last = t[-1] if not isinstance(t[-1], tuple) or t[-1][0] in ('str', 'cat', 'sym', 'rd', 'call', 'fld') else t[-1]
            if isinstance(last, tuple) and last and not isinstance(last[0], str):
                last = last[-1]
            return suffix(last)
    return None


def decide(facts, t):
    if isinstance(t, int):
        return bool(t)
    d = facts.decide(t)
    return None if d is None else bool(d)


class Run:
    """apply a path's events; `step(fs, ev)` is called after each one"""

    def __init__(self, facts, step):
        self.facts, self.step = facts, step

    def outcomes(self, cond):
        d = decide(self.facts, cond)
        return [True, False] if d is None else [d]

    def events(self, fss, evs, in_loop=False, facts=None):
        for e in evs:
            nxt = []
            for fs in fss:
                for f2 in self.event(fs, e):
                    nxt.append(f2)
                    self.step(f2, e)
            # bounded: identical states merge
            uniq, fss = set(), []
            for f in nxt:
                k = repr((sorted(f.c.items(), key=repr), sorted(((a, sorted(b.items(), key=repr)) for a, b in f.s.items()), key=repr)))
                if k not in uniq:
                    uniq.add(k)
                    fss.append(f)
        return fss

    def note(self, fs, e, what):
        fs.trace.append('%s: %s' % (e.l, what))

    def event(self, fs, e):
        if e.kind == 'loop':
            return self.loop(fs, e)
        if e.kind == 'io':
            return self.io(fs, e)
        if e.kind == 'call':
            n = e['name'].split('::')[-1]
            a = e['args']
            if n in ('remove', 'unlink') and len(a) >= 1:
                f = fs.copy()
                f.c[a[0]] = 'absent'
                self.note(f, e, 'remove(%s)' % show(a[0]))
                return [f]
            if n in ('ferror', 'feof', 'ferror_unlocked', 'feof_unlocked') and a and a[0] in fs.s:
                f = fs.copy()
                z = decide(self.facts, eq(e['ret'], 0))
                if n.startswith('ferror'):
                    f.s[a[0]]['err'] = z
                elif z is False:
                    f.s[a[0]]['eof'] = True
                return [f]
            if e['name'].startswith('std::filesystem::') and n == 'rename' and len(a) >= 2:
                f = fs.copy()
                f.c[a[1]] = f.get(a[0])
                f.c[a[0]] = 'absent'
                return [f]
            if e['name'].startswith('std::filesystem::') and n in ('copy_file', 'copy') and len(a) >= 2:
                f = fs.copy()
                f.c[a[1]] = f.get(a[0])
                return [f]
            if n in ('strerror', 'fileno', 'setvbuf', 'posix_fadvise', 'fsync', 'fdatasync', 'sync'):
                return [fs]
            # unknown callee given a stream or a path
            f = None
            for x in a:
                if x in fs.s:
                    f = f or fs.copy()
                    f.s[x]['unknown'] = True
                elif isinstance(x, tuple) and (x in fs.c or x[:1] == ('cat',)):
                    f = f or fs.copy()
                    f.c[x] = 'unknown' if f.get(x) != ('plot',) or not e['name'].startswith('std::') else f.get(x)
            return [f or fs]
        return [fs]

    def io(self, fs, e):
        n, a, r = e['name'], e['args'], e['ret']
        out = []
        if n == 'rename':
            for ok in self.outcomes(eq(r, 0)):
                f = fs.copy()
                if ok:
                    f.c[a[1]] = f.get(a[0])
                    f.c[a[0]] = 'absent'
                self.note(f, e, 'rename(%s -> %s) %s' % (show(a[0]), show(a[1]), 'ok' if ok else 'fails'))
                out.append(f)
            return out
        if n in ('fopen', 'fopen64'):
            mode = a[1][1] if isinstance(a[1], tuple) and a[1][0] == 'str' else '?'
            for ok in self.outcomes(tnot(eq(r, 0))):
                f = fs.copy()
                if ok:
                    w = mode[:1] in 'wa?' or '+' in mode
                    f.s[r] = {'path': a[0], 'mode': mode, 'w': w, 'out': [], 'sync': None, 'eof': False, 'err': None, 'unknown': mode == '?',
                              'bad': mode[:1] not in ('w', 'r') or '+' in mode, 'last': None}
                    if w:
                        f.c[a[0]] = 'partial'
                    self.note(f, e, 'fopen(%s, %s)' % (show(a[0]), mode))
                out.append(f)
            return out
        if n == 'fread':
            f = fs.copy()
            s = f.s.get(a[3])
            if s is not None:
                nb = mul(a[1], r)
                s['out'].append((a[0], nb))
                s['last'] = (r, a[2])
                s['eof'] = decide(self.facts, lt(r, a[2])) is True or decide(self.facts, eq(r, 0)) is True
                s['err'] = None
                if decide(self.facts, eq(r, a[2])) is True:
                    s['err'] = True and s['err']
            return [f]
        if n == 'fwrite':
            s = fs.s.get(a[3])
            if s is None:
                return [fs]
            for ok in self.outcomes(eq(r, a[2])):
                f = fs.copy()
                d = f.s[a[3]]
                if not ok:
                    d['bad'] = True
                else:
                    nb = mul(a[1], a[2])
                    src = None
                    for k, x in f.s.items():
                        if x['out'] and not x['w'] and x['out'][0] == (a[0], nb):
                            src = k
                            break
                    if src is None:
                        if nb != 0 and decide(self.facts, eq(nb, 0)) is not True:
                            d['bad'] = True
                            self.note(f, e, 'writes %s bytes at %s, not what was just read' % (show(nb), show(a[0])))
                    else:
                        f.s[src]['out'].pop(0)
                        if d['sync'] is None:
                            d['sync'] = src
                        elif d['sync'] != src:
                            d['bad'] = True
                out.append(f)
            return out
        if n == 'fclose':
            s = fs.s.get(a[0])
            if s is None:
                return [fs]
            if not s['w']:
                f = fs.copy()
                f.s[a[0]] = dict(s, closed=True)
                return [f]
            for ok in self.outcomes(eq(r, 0)):
                f = fs.copy()
                d = f.s[a[0]]
                p = d['path']
                if d['unknown']:
                    f.c[p] = 'unknown'
                elif ok and not d['bad'] and d['sync'] in f.s:
                    x = f.s[d['sync']]
                    if not x['out'] and x['eof'] and x['err'] is not False and (x['err'] is True):
                        f.c[p] = f.get(x['path'])
                    elif x['unknown']:
                        f.c[p] = 'unknown'
                    else:
                        why = ('bytes read but not written' if x['out'] else
                               'end of file not established' if not x['eof'] else 'read error not excluded')
                        self.note(f, e, 'copy incomplete: ' + why)
                self.note(f, e, 'fclose(%s) %s -> %s' % (show(p), 'ok' if ok else 'fails', f.get(p)))
                del f.s[a[0]]
                out.append(f)
            return out
        if n in ('fseek', 'fseeko', 'fsetpos') and a and a[0] in fs.s:
            f = fs.copy()
            f.s[a[0]]['bad'] = True
            return [f]
        return [fs]

    def loop(self, fs, e):
        """a loop body may run any number of times; its continuing paths must keep streams in step"""
        cur = [fs]
        facts0 = self.facts
        for p in e['paths']:
            if p.out and p.out[0] not in ('cont',):
                continue          # leaving paths follow in line after the loop
            self.facts = p.facts
            res = self.events([fs.copy()], p.ev)
            for f2 in res:
                for k, s in f2.s.items():
                    if s['out']:
                        # read in this iteration but not written in it
                        left = [x for x in s['out'] if decide(p.facts, eq(x[1], 0)) is not True]
                        if left:
                            for d in f2.s.values():
                                if d['w']:
                                    d['bad'] = True
                            f2.trace.append('%s: loop iteration reads %s bytes without writing them' % (e.l, show(left[0][1])))
                        s['out'] = []
                    s['last'] = None
                    if not s['w']:
                        s['eof'] = False
                cur.append(f2)
        self.facts = facts0
        return cur
