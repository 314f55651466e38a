"""C01: no failed or incomplete file operation goes unnoticed.

For every function that calls the C file interface the engine computes all
abstract paths; each call's result is a symbol.  On every path that ends normally
(and at the end of each loop iteration that continues) the facts must imply that
the call succeeded; otherwise the failing result is substituted into the facts
and, unless they become contradictory, the path is a violation.  A result that is
handed to the caller moves the obligation to the callers.
"""
from sa.prog import load, walk, base, AnalysisBroken
from sa.engine import Engine, Cfg, L, show, set_range, State
from sa import terms as T
from sa.terms import eq, le, tnot, add, sub, subst, Facts
from sa.report import short

TECHNIQUE = 'path-sensitive dataflow (typestate of call results) over the resolved AST of every function calling the C file interface'
DBG = 0
RULE = ('every fopen/fread/fwrite/fseek/fflush/fclose(of a written stream)/rename call site in the repository: on each '
        'path that completes normally the path facts imply success, or the result is returned to a caller where they do')

IO = {'fopen': 'nonnull', 'fwrite': 'full', 'fread': 'full', 'fseek': 'zero', 'fseeko': 'zero', 'fseeko64': 'zero',
      '_fseeki64': 'zero', 'fflush': 'zero', 'fclose': 'zero', 'rename': 'zero', 'fopen64': 'nonnull', 'fputc': 'nonneg', 'fputs': 'nonneg',
      'freopen': 'nonnull', 'fsetpos': 'zero', 'ftruncate': 'zero', 'fsync': 'zero', 'fdatasync': 'zero', 'fileno': None,
      'write': 'fullw', 'pwrite': 'fullw', 'fwrite_unlocked': 'full', 'fread_unlocked': 'full', 'fflush_unlocked': 'zero',
      'link': 'zero', 'symlink': 'zero', 'truncate': 'zero'}


def io_kind(name):
    n = name.split('::')[-1]
    if name in (n, 'std::' + n) and n in IO:
        return IO[n]
    return None


class IOCfg(Cfg):
    max_paths = 4000
    join_at = 24

    def join_key(self, st):
        def key(evs):
            return tuple((e.kind, e.l, e.get('name'), e.get('ret')) if e.kind in ('io', 'call') else (e.kind, e.l)
                         for e in evs if e.kind in ('io', 'catch', 'endcatch', 'loop') or
                         e.kind == 'call' and (e['name'] in self.throwing or 'ferror' in e['name'] or 'feof' in e['name']))
        io = tuple(x for x in st.facts.items if any(isinstance(y, tuple) and y[:1] == ('sym',) and io_kind(str(y[1]))
                                                    or isinstance(y, tuple) and y[:1] == ('sym',) and 'ferror' in str(y[1])
                                                    for y in T.subterms(x)))
        return (key(st.ev), io)

    def __init__(self, clean, throwing):
        self.clean = clean            # functions whose own obligations are settled
        self.throwing = throwing

    def opaque(self, eng, f):
        return f['id'] in self.clean

    def may_throw(self, name):
        return name in self.throwing

    def model(self, eng, st, name, node, this, args):
        k = io_kind(name)
        if k is None or this is not None:
            return None
        v = ('sym', name.split('::')[-1], st.fresh())
        rt = node['f'].get('rt', '')
        set_range(v, rt)
        n = name.split('::')[-1]
        if k == 'full' and len(args) >= 4:
            f = le(v, args[2])
            if not isinstance(f, int):
                st.facts = st.facts.plus(f)
            if n == 'fread' and isinstance(args[0], tuple) and args[0][0] == 'ptr':
                eng.havoc(st, args[0][1])
        eng.emit(st, 'io', node.get('l', ''), name=n, args=tuple(args), ret=v)
        return [(st, v)]


def success(e):
    k = IO[e['name']]
    r, a = e['ret'], e['args']
    if k == 'nonnull':
        return tnot(eq(r, 0))
    if k == 'full':
        return eq(r, a[2])
    if k == 'fullw':
        return eq(r, a[2])
    if k == 'nonneg':
        return le(0, r)
    return eq(r, 0)


def failing(e):
    """representative failing results"""
    k = IO[e['name']]
    a = e['args']
    if k == 'nonnull':
        return [0]
    if k in ('full', 'fullw'):
        n = a[2]
        if isinstance(n, int):
            return sorted({n - 1, 0}) if n > 0 else []
        return [sub(n, 1), 0]
    if k == 'nonneg':
        return [-1]
    return [-1, 1]


def consistent(facts, m, extra=None):
    """facts under a substitution: False when contradictory"""
    f2 = Facts()
    for x in facts.items:
        y = subst(x, m)
        if isinstance(y, int):
            if not y:
                return False
            continue
        d = f2.decide(y)
        if d is False or d == 0 and d is not None:
            return False
        f2 = f2.plus(y)
    # facts can contradict each other only in combination
    for x in f2.items:
        d = Facts([y for y in f2.items if y != x]).decide(x)
        if d is not None and not d:
            return False
    return True


def all_events(evs):
    for e in evs:
        yield e
        if e.kind == 'loop':
            for p in e['paths']:
                yield from all_events(p.ev)


class Checker:
    def __init__(self, rep, prog, tag):
        self.r, self.p, self.tag = rep, prog, tag
        self.direct = {}
        self.calls = {}
        for f in prog.functions.values():
            if not f.get('b'):
                continue
            io, cs = [], set()
            nodes = list(walk(f['b']))
            for i in f.get('inits') or []:
                nodes += list(walk(i))
            for n in nodes:
                if n['k'] in ('Call', 'MCall', 'Op', 'Ctor') and isinstance(n.get('f'), dict):
                    if n['k'] == 'Call' and io_kind(base(n['f'].get('n', ''))):
                        io.append(n)
                    cs.add(n['f'].get('id'))
                if n['k'] == 'Lambda' and n.get('f') is not None:
                    x = n['f']
                    cs.add(x.get('id') if isinstance(x, dict) else x)
            self.direct[f['id']] = io
            self.calls[f['id']] = cs
        self.modes = self.field_modes()
        # transitive I/O
        self.trans = {i for i, x in self.direct.items() if x}
        while True:
            new = {i for i, cs in self.calls.items() if i not in self.trans and cs & self.trans}
            if not new:
                break
            self.trans |= new
        self.deferred = set()
        self.cond_fields = self.fields_in_conditions()

    def fields_in_conditions(self):
        out = set()
        for f in self.p.functions.values():
            if not f.get('b'):
                continue
            for n in walk(f['b']):
                if n['k'] in ('If', 'While', 'Do', 'For', 'Cond'):
                    c = n.get('c')
                    for m in walk(c) if c else ():
                        if m['k'] == 'Mem':
                            out.add(m['n'])
        return out

    def field_modes(self):
        """FILE* fields: the modes of everything ever stored into them"""
        modes = {}
        for f in self.p.functions.values():
            if not f.get('b'):
                continue
            inits = {}
            for n in walk(f['b']):
                if n['k'] == 'Decl':
                    for d in n.get('d', [n]):
                        if isinstance(d, dict) and d.get('e') is not None:
                            inits[d.get('id')] = d['e']
            def mode(e, dep=0):
                while e and e['k'] in ('Cast', 'Ld', 'Tmp') :
                    e = e.get('e') or e.get('s')
                if e is None:
                    return '?'
                if e['k'] == 'Call' and isinstance(e.get('f'), dict) and base(e['f']['n']).split('::')[-1] == 'fopen':
                    for x in walk(e['a'][1]):
                        if x['k'] == 'Str':
                            return x['v']
                    return '?'
                if e['k'] in ('Null', 'Zero') or e['k'] == 'Int':
                    return ''
                if e['k'] == 'Var' and dep < 3 and e['id'] in inits:
                    return mode(inits[e['id']], dep + 1)
                return '?'
            nodes = list(walk(f['b']))
            for n in nodes:
                if n['k'] == 'Asn':
                    l = n.get('a') or n.get('lhs')
                    if isinstance(l, dict) and l['k'] == 'Mem' and 'FILE' in (l.get('ft') or l.get('t') or ''):
                        modes.setdefault((base(l.get('cls') or ''), l['n']), set()).add(mode(n.get('b') or n.get('rhs')))
        return modes

    def read_only(self, e, evs):
        """an fclose of a stream that was never opened for writing, or to which nothing was written"""
        s = e['args'][0]
        if isinstance(s, tuple) and s[0] == 'sym' and s[1] == 'fopen':
            mode = None
            wrote = False
            seen = False
            for x in evs:
                if x.kind == 'io' and x['name'] == 'fopen' and x['ret'] == s:
                    mode = x['args'][1]
                    seen = True
                elif x.kind == 'io' and x['name'] in ('fwrite', 'fputc', 'fputs') and T.contains(x['args'], s):
                    wrote = True
                elif x.kind in ('call', 'callfn', 'loop', 'spawn') and x is not e and \
                        (x.kind == 'loop' or T.contains(tuple(x.get('args') or ()), s)):
                    if x.kind == 'loop':
                        for y in all_events([x]):
                            if y.kind in ('call', 'io', 'callfn') and y is not e and T.contains(tuple(y.get('args') or ()), s) \
                                    and not (y.kind == 'io' and y['name'] in ('fread', 'fclose', 'fseek')):
                                wrote = True
                    else:
                        wrote = True
            if isinstance(mode, tuple) and mode[0] == 'str' and mode[1].startswith('r') and '+' not in mode[1]:
                return True
            return seen and not wrote
        if DBG: print('CLOSE', show(s), s)
        # elements of a container of streams opened and never written in this function
        if isinstance(s, tuple) and s[0] == 'rd':
            path = s[1][2]
            if path and path[-1][0] == 'f':
                ms = None
                own = {base(m.get('cls') or '') for m in walk(self.p.functions[e.fn]['b'])
                       if m['k'] == 'Mem' and m['n'] == path[-1][1]} if e.fn in self.p.functions else set()
                for (c, n), v in self.modes.items():
                    if n == path[-1][1] and (not own or c in own):
                        ms = (ms or set()) | v
                if ms and all(m == '' or (m.startswith('r') and '+' not in m and m != '?') for m in ms):
                    return True
            if s[1][1][0] == 'v':
                io = [x for x in all_events(evs) if x.kind == 'io']
                if not any(x['name'] in ('fwrite', 'fputs', 'fputc') for x in io) and any(x['name'] == 'fopen' for x in io):
                    same = lambda y: isinstance(y, tuple) and len(y) == 3 and y[0] == 'rd' and y[1][1] == s[1][1] \
                        and y[1][2][-1:] == s[1][2][-1:]
                    whole = lambda y: y == ('ptr', ('L', s[1][1], ()))
                    esc = [x for x in all_events(evs) if x.kind in ('call', 'callfn') and any(
                        same(y) or whole(y) for a in (x.get('args') or ()) if isinstance(a, tuple) for y in T.subterms(a))]
                    if not esc:
                        return True
        return False

    def settle(self, e, evs, facts, ret, ctx, out, is_main, loop_ends=None):
        """obligation of one I/O event on one completing path"""
        name = e['name']
        if IO[name] is None:
            return
        if name == 'fclose' and self.read_only(e, ctx):
            self.add(e, 'ok')
            return
        s = success(e)
        d = facts.decide(s) if not isinstance(s, int) else bool(s)
        if d:
            self.add(e, 'ok')
            return
        r = e['ret']
        # definitely failed on this path?
        if d is not None and not d:
            if name == 'fread' and self.eof_checked(e, evs, facts):
                self.add(e, 'ok')
                return
            if name == 'rename' and self.renamed_otherwise(e, evs, facts):
                self.add(e, 'ok')
                return
            if self.reported(ret, e, is_main):
                self.defer(e)
                return
            self.bad(e, 'fails on this path, which still completes normally', facts)
            return
        if name == 'fread' and self.eof_checked(e, evs, facts):
            self.add(e, 'ok')
            return
        for fv in failing(e):
            if not consistent(facts, {r: fv}):
                continue
            if name == 'fread' and self.eof_checked(e, evs, facts, {r: fv}):
                continue
            if name == 'rename' and self.renamed_otherwise(e, evs, facts):
                continue
            if ret is not None and T.contains(ret, r):
                if not is_main:
                    self.defer(e)
                    return
                continue
            if loop_ends is not None and any(T.contains(v, r) for _, v in loop_ends.values() if isinstance(v, tuple)):
                carried = [k for k, (a, v) in loop_ends.items() if isinstance(v, tuple) and T.contains(v, r)]
                self.add(e, 'undecided', 'result accumulated across loop iterations')
                return
            esc = self.escapes(r, out)
            if esc & self.cond_fields and IO[name] != 'nonnull':
                self.add(e, 'undecided', 'result stored in %s' % ','.join(sorted(esc)))
                return
            self.bad(e, 'result %s is possible here and the path completes normally' % show(fv), facts)
            return
        self.add(e, 'ok')

    def escapes(self, r, st):
        out = set()
        if st is None:
            return out
        for k, v in st.store.items():
            if k[0] == 'L' and k[1][0] in ('o', 'g', 'h') and isinstance(v, tuple) and T.contains(v, r):
                for p in reversed(k[2]):
                    if p[0] == 'f':
                        out.add(p[1])
                        break
                else:
                    out.add('*')
        return out

    def eof_checked(self, e, evs, facts, m=None):
        """a short read that was followed by a test of the stream's error state"""
        s = e['args'][3]
        seen = False
        for x in evs:
            if x is e or x == e:
                seen = True
                continue
            if seen and x.kind == 'call' and x['name'] in ('ferror', 'std::ferror', 'feof', 'std::feof', 'ferror_unlocked', 'feof_unlocked') and x['args'][:1] == (s,):
                z = eq(x['ret'], 0)
                want = z if 'ferror' in x['name'] else tnot(z)
                d = facts.decide(want)
                if d:
                    return True
        # the read may have been complete on this path
        full = facts.decide(eq(e['ret'], e['args'][2]))
        return bool(full)

    def renamed_otherwise(self, e, evs, facts):
        dst = e['args'][1]
        seen = False
        for x in evs:
            if x == e:
                seen = True
                continue
            if seen and x.kind == 'io' and x['name'] == 'rename' and x['args'][1] == dst:
                if facts.decide(eq(x['ret'], 0)):
                    return True
        return False

    def reported(self, ret, e, is_main):
        if ret is None:
            return False
        if isinstance(ret, int):
            if is_main:
                return ret != 0
            return ret in (0, -1, 1) or ret < 0
        if isinstance(ret, tuple) and ret[0] == 'ptr':
            return False
        return isinstance(ret, tuple) and T.contains(ret, e['ret'])

    def add(self, e, status, why=''):
        what = '%s at %s%s' % (e['name'], short(e.l), (': ' + why) if why else '')
        self.sites.setdefault((e['name'], e.l), []).append((status, what, e))

    def defer(self, e):
        self.add(e, 'defer')

    def bad(self, e, why, facts):
        self.add(e, 'bad', why)
        self.why.setdefault((e['name'], e.l), [show(x) for x in facts.items])

    def paths(self, st, ret, is_main):
        evs = st.ev
        flat = []
        def level(evs, facts, ret, out, ends, outer):
            ctx = outer + list(evs)
            for e in evs:
                if e.kind == 'io':
                    self.settle(e, list(evs), facts, ret, ctx, out, is_main, ends)
                elif e.kind == 'loop':
                    for p in e['paths']:
                        if p.out and p.out[0] in ('throw', 'abort', 'exit'):
                            continue
                        rv = None
                        lo = None
                        if p.out and p.out[0] == 'ret':
                            rv = p.out[1]
                        level(p.ev, p.facts, rv, lo, p.ends if not p.out or p.out[0] == 'cont' else p.ends, ctx)
        level(evs, st.facts, ret, st, None, [])

    def swallowed(self, st, fn):
        """catch of an I/O function's exception on a completing path"""
        def scan(evs, in_cont):
            for e in evs:
                if e.kind == 'catch':
                    x = e['exc']
                    if isinstance(x[2], tuple) and x[2][0] == 'exc' and x[2][1] in self.throwing:
                        if not in_cont:
                            yield e, x
                elif e.kind == 'loop':
                    for p in e['paths']:
                        if p.out and p.out[0] in ('throw', 'abort'):
                            continue
                        # a path that goes round again retries the operation
                        retry = p.out is None or p.out[0] == 'cont'
                        same = retry and not any(isinstance(k, tuple) for k in ())
                        yield from scan(p.ev, in_cont or (retry and e['bound'] is None and not e['exit_cond']))
        yield from scan(st.ev, False)

    def run(self):
        r, p = self.r, self.p
        fs = [f for f in p.one_per_pattern([p.functions[i] for i, io in self.direct.items() if io]
                                           if r.tier == 'quick' else []) ] or [p.functions[i] for i, io in self.direct.items() if io]
        if not fs:
            raise AnalysisBroken('no file operations found in the program')
        handled = set()
        tries = [f for f in p.functions.values() if f.get('b') and f['id'] in self.trans and not self.direct[f['id']]
                 and any(n['k'] == 'Try' for n in walk(f['b']))]
        work = list(fs) + (p.one_per_pattern(tries) if r.tier == 'quick' else tries)
        names = {p.functions[i]['base'] for i in self.trans}
        self.throwing = names
        self.total = {}
        rounds = 0
        while work and rounds < 6:
            rounds += 1
            nxt = []
            for f in work:
                if f['id'] in handled:
                    continue
                handled.add(f['id'])
                pat = {g['id'] for g in p.functions.values() if g['l'] == f['l']}
                cfg = IOCfg(self.trans - self.deferred - {f['id']}, names)
                eng = Engine(p, cfg)
                self.sites, self.why = {}, {}
                res = eng.run(f)
                r.count('paths_analysed', len(res))
                r.saw(f['base'])
                is_main = f['base'] == 'main'
                if eng.stats['truncated']:
                    r.undecided('%s: too many paths' % f['base'])
                for st, rv in res:
                    if st.out:
                        continue
                    self.paths(st, rv, is_main)
                    for e, x in self.swallowed(st, f):
                        r.violation('%s in %s' % (short(e.l), f['base']),
                                    'an exception reporting a failed file operation (from %s) is caught and the function completes normally' % x[2][1],
                                    key='%s: swallows exception of %s' % (f['base'], x[2][1]))
                dn = set()
                for (name, l), xs in self.sites.items():
                    sts = {s for s, _, _ in xs}
                    t = self.total.setdefault((name, l), {})
                    if 'bad' in sts:
                        t['bad'] = ([w for s, w, _ in xs if s == 'bad'][0], f, self.why.get((name, l)))
                    if 'undecided' in sts:
                        t['und'] = [w for s, w, _ in xs if s == 'undecided'][0]
                    if 'defer' in sts:
                        t['defer'] = f
                        dn.add(l)
                    if 'ok' in sts and not (sts - {'ok'}):
                        t['ok'] = 1
                if dn:
                    # callers must settle them: analyse every caller with f inlined
                    self.deferred |= pat
                    callers = [g for i, g in p.functions.items() if self.calls.get(i, set()) & pat]
                    if r.tier == 'quick':
                        callers = p.one_per_pattern(callers)
                    if not callers and f['base'] != 'main':
                        r.undecided('%s: result returned, no caller in the program' % f['base'])
                    for g in callers:
                        handled.discard(g['id'])
                        nxt.append(g)
            work = nxt
        for (name, l), t in sorted(self.total.items()):
            w = '%s at %s' % (name, short(l))
            if 'bad' in t:
                what, f, facts = t['bad']
                r.violation('%s in %s' % (short(l), f['base']), what, facts, key='%s: %s' % (f['base'], name))
            elif 'und' in t:
                r.undecided(t['und'])
            else:
                r.ok(w)
        # every call site must have been reached
        for i, io in self.direct.items():
            if p.functions[i]['l'] not in {p.functions[h]['l'] for h in handled}:
                continue
            for n in io:
                nm = base(n['f']['n']).split('::')[-1]
                if IO[nm] and (nm, n.get('l')) not in self.total:
                    r.count('call_sites_only_on_failing_paths')
        r.count('io_call_sites', len(self.total))


def check(r, tier):
    r.rule = RULE
    r.assume = ['C library calls report failure through their return values as specified',
                'asserts are enabled as in the shipped build']
    for tag in (('K32',) if tier == 'quick' else ('K32', 'K34')):
        r.build = tag
        Checker(r, load(tag), tag).run()
