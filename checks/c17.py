"""C17: plotting never starts with invalid options or unusable directories.

main() is executed abstractly with every command line option as a symbol; the
path conditions that hold where a plot is created must imply that the options
are valid.  One run per group of options; within it all states that agree on
what is known about the group are joined.
"""
import math
from sa.prog import load
from sa.disk import Bad, Unk, rule
from sa.engine import show
from sa.layout import ev as _ev
from sa.pipe import flat
from sa.mainprog import options, paths, plots, opt
from sa import terms as T

TECHNIQUE = 'path conditions of main() with symbolic options (abstract interpretation of the AST with joins), compared with the validity conditions at every call that creates a plot'
RULE = ('at each call that creates a plot the path facts imply the documented range of every option, the presence and length of the keys, the trailing separator of every directory '
        'and a successful trial fopen in it; a path that rejects an option does not return 0')


def sval(t, env):
    """string value of a term"""
    if isinstance(t, tuple) and t:
        if t in env:
            return env[t] if isinstance(env[t], str) else None
        if t[0] == 'str':
            return t[1]
        if t[0] == 'cat':
            ps = [sval(x, env) for x in (t[1] if len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:])]
            return None if None in ps else ''.join(ps)
    return None


NPOS = 2**64 - 1


def num(t, env):
    try:
        v = _ev(t, {k: v for k, v in env.items() if not isinstance(v, str)})
    except (TypeError, ValueError):
        return None
    return None if isinstance(v, str) else v


def strcall(m, args, env):
    s = sval(args[0], env)
    if s is None:
        return None
    if m in ('size', 'length'):
        return len(s)
    if m == 'empty':
        return int(not s)
    if m == 'back':
        return ord(s[-1]) if s else None
    if m == 'front':
        return ord(s[0]) if s else None
    if m in ('find_last_of', 'find_first_of', 'rfind', 'find', 'find_last_not_of'):
        a = args[1]
        cs = sval(a, env)
        if cs is None:
            n = num(a, env)
            if n is None:
                return None
            cs = chr(n & 255)
        if m == 'find_last_of':
            r = max([s.rfind(c) for c in cs] or [-1])
        elif m == 'find_first_of':
            r = min([s.find(c) for c in cs if c in s] or [-1])
        elif m == 'rfind':
            r = s.rfind(cs)
        elif m == 'find':
            r = s.find(cs)
        else:
            r = max([i for i, c in enumerate(s) if c not in cs] or [-1])
        return r if r >= 0 else NPOS
    return None


def strpair(t, env):
    """the two strings compared by t == 0"""
    c, d = T.parts(t)
    if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1] and all(len(m) == 1 for m in d):
        a, b = [sval(m[0], env) for m in d]
        if a is not None and b is not None:
            return a, b
    return None


def onesided(facts, syms):
    """facts that hold for every value of the options because of an unknown that is only bounded from one side"""
    occ = {}
    for x in facts.items:
        lin = {}
        if isinstance(x, tuple) and x[0] == 'le':
            c, d = T.parts(x[1])
            lin = {m[0]: k for m, k in d.items() if len(m) == 1}
        for a in {y for y in T.subterms(x) if isinstance(y, tuple) and y and y[0] in ('sym', 'phi', 'phx', 'itn')} | set(lin):
            if a in syms or not isinstance(a, tuple):
                continue
            inner = a not in lin or any(T.contains(y, a) for y in lin if y != a) or any(T.contains(y, a) for m in T.parts(x[1])[1] if len(m) > 1 for y in m)
            occ.setdefault(a, []).append((x, None if inner else lin[a] > 0))
    out = set()
    for a, xs in occ.items():
        if a[0] not in ('sym', 'phi', 'phx', 'itn') or not all(k is not None for _, k in xs) or len({k for _, k in xs}) != 1:
            continue
        out |= {x for x, _ in xs}
    return out


def complete(t, env):
    """env extended with the values of the string and arithmetic functions in t"""
    out = dict(env)
    subs = [x for x in T.subterms(t) if isinstance(x, tuple) and x] if isinstance(t, tuple) else []
    for x in reversed(subs):
        if x in out:
            continue
        v = None
        if x[0] == 'same' and len(x) == 3:
            a, b = sval(x[1], out), sval(x[2], out)
            v = None if a is None or b is None else int(a == b)
        elif x[0] == 'eq' and strpair(x[1], out):
            a, b = strpair(x[1], out)
            v = int(a == b)
        elif x[0] == 'strlen' or x[0] == 'call' and x[1] == 'strlen':
            s = sval(x[1] if x[0] == 'strlen' else x[2][0], out)
            v = None if s is None else len(s)
        elif x[0] == 'call' and isinstance(x[1], str) and x[1].startswith('str.'):
            v = strcall(x[1][4:], x[2], out)
        elif x[0] == 'call' and x[1] in ('log2', 'std::log2'):
            n = num(x[2][0], out)
            v = None if n is None or n <= 0 else math.log2(n)
        elif x[0] in ('trunc', 'fptoi') or x[0] == 'call' and x[1] == 'trunc':
            a = x[2][0] if x[0] == 'call' else x[-1]
            n = out.get(a) if isinstance(a, tuple) else a
            v = int(n) if isinstance(n, (int, float)) else None
        elif x[0] == 'ite':
            c = val(x[1], out)
            if c is not None:
                v = val(x[2] if c else x[3], out)
        if v is not None:
            out[x] = v
    return out


def val(t, env):
    if isinstance(t, int):
        return int(t)
    e = complete(t, env)
    v = e.get(t) if isinstance(t, tuple) else None
    if v is None:
        v = num(t, e)
    return v


def under(facts, env, syms):
    """None: excluded; True: every fact about the symbols holds; False: some cannot be evaluated"""
    sure = True
    free = onesided(facts, syms)
    for x in facts.items:
        if x in free:
            continue
        if not any(isinstance(y, tuple) and y in syms for y in T.subterms(x)):
            continue
        v = val(x, env)
        if v is None:
            sure = False
        elif not v:
            return None
    return sure


class Group:
    def __init__(self, p, f, o, names):
        self.o = {}
        for n in names:
            if n not in o:
                raise Unk('option %s is not read into a variable' % n)
            self.o[n] = o[n]
        self.syms = set(self.o.values())
        self.cfg, self.sts, self.eng = paths(p, f, self.syms)
        if self.eng.stats['truncated']:
            raise Unk('too many paths')
        self.calls = []
        for s, v in self.sts:
            for e, lo in plots(s):
                self.calls.append((s, e))
        if not self.calls:
            raise Unk('no call that creates a plot found')

    def ends(self):
        """paths that return a constant without creating a plot"""
        for s, v in self.sts:
            if (not s.out or s.out[0] == 'ret') and isinstance(v, int) and not plots(s):
                yield s, v


def where(e):
    return e.l


def param(f, vals, p, n):
    fs = [g for g in p.fns('create_plot') if g.get('b')]
    if len(fs) != 1:
        raise Unk('create_plot')
    for i, q in enumerate(fs[0]['p']):
        if q['n'] == n and i < len(vals):
            return vals[i]
    raise Unk('parameter %s of create_plot' % n)


def rejects(g, envs, what):
    """a path taken for invalid values must not end with status 0"""
    for s, v in g.ends():
        if v != 0:
            continue
        for env in envs:
            if under(s.facts, env, g.syms) is True and any(val(x, env) is not None for x in s.facts.items if any(y in g.syms for y in T.subterms(x) if isinstance(y, tuple))):
                # is it the invalid value that ends it?
                raise_ok = False
                for x in s.facts.items:
                    if any(y in g.syms for y in T.subterms(x) if isinstance(y, tuple)) and last_fact(s, g) == x:
                        raise_ok = True
                if raise_ok:
                    yield s, env


def last_fact(s, g):
    xs = [x for x in s.facts.items if any(y in g.syms for y in T.subterms(x) if isinstance(y, tuple))]
    return xs[-1] if xs else None


def int_rule(p, r, f, o, names, pn, lo, hi, grid, what):
    g = Group(p, f, o, names)
    und = False
    good = [env for env in grid]
    for s, e in g.calls:
        a = param(f, e['vals'], p, pn)
        proven = e.facts.decide(T.le(lo, a)) if not isinstance(a, int) else lo <= a
        proven2 = e.facts.decide(T.le(a, hi)) if not isinstance(a, int) else a <= hi
        for env in grid:
            env = {g.o[n]: v for n, v in zip(names, env)}
            u = under(e.facts, env, g.syms)
            if u is None:
                continue
            v = val(a, env)
            r.count('points')
            if v is None:
                und = True
                continue
            if not lo <= v <= hi:
                if u:
                    raise Bad('a plot is created with %s = %s (%s)' % (what, v, ', '.join('%s=%s' % (n, env[g.o[n]]) for n in names)), e.l)
                und = True
        if not (proven and proven2):
            und = und or 'range of %s' % what
    # error status
    for s, v in g.ends():
        if v != 0:
            continue
        lf = last_fact(s, g)
        if lf is None:
            continue
        bad = [env for env in grid if not valid(names, env, lo, hi)]
        okp = [env for env in grid if valid(names, env, lo, hi)]
        mk = lambda env: {g.o[n]: v2 for n, v2 in zip(names, env)}
        if any(under(s.facts, mk(env), g.syms) is True for env in bad) and not any(under(s.facts, mk(env), g.syms) is not None for env in okp):
            raise Bad('an invalid %s ends the program with status 0' % what, f['l'])
    r.count('paths', len(g.sts))
    if und:
        raise Unk(und if isinstance(und, str) else 'value of %s' % what)


def valid(names, env, lo, hi):
    if len(names) == 1 and hi > 20:
        return lo <= env[0] <= hi
    def lg(n):
        return int(math.log2(n)) if n >= 16 else n
    if len(names) == 1:
        return lo <= lg(env[0]) <= hi
    n = env[1] if env[1] > 0 else env[0]
    return lo <= lg(n) <= hi


def size_rule(p, r, f, o, name, pn, n, empty_ok, what, must=True):
    g = Group(p, f, o, [name])
    S = g.o[name]
    for s, e in g.calls:
        a = param(f, e['vals'], p, pn)
        if not (isinstance(a, tuple) and a and a[0] == 'ref'):
            raise Unk(what)
        if not need(g, e, S, a[2], n, empty_ok, what):
            raise Unk('length of the %s' % what)
    for s, v in g.ends():
        if v == 0:
            for x in s.facts.items:
                if x[0] == 'not' and len_fact(x[1], S, n):
                    raise Bad('an invalid %s ends the program with status 0' % what, f['l'])
    r.count('paths', len(g.sts))


def len_fact(t, S, n):
    if not (isinstance(t, tuple) and t and t[0] == 'eq'):
        return False
    xs = [y for y in T.subterms(t) if isinstance(y, tuple) and y and y[0] == 'fld' and T.contains(y, S)]
    return len(xs) == 1 and num(t, {xs[0]: n}) == 1


def need(g, e, S, t, n, empty_ok, what):
    """the length term t equals n (or 0)"""
    if isinstance(t, int):
        if t == n or t == 0 and empty_ok:
            return True
        raise Bad('a plot is created with a %s of %d bytes' % (what, t), e.l)
    if e.facts.decide(T.eq(t, n)) is True or empty_ok and e.facts.decide(T.eq(t, 0)) is True:
        return True
    if not T.contains(t, S):
        return False
    for k in (0, 1, n - 1, n + 1, 2 * n, 31, 32, 47, 48, 49):
        if k == n or k == 0 and empty_ok:
            continue
        u = under(e.facts, {t: k, S: 'x' * 8}, {S})
        if u:
            raise Bad('a plot is created with a %s of %d bytes' % (what, k), e.l)
    return False


def pool_rule(p, r, f, o):
    g = Group(p, f, o, ['contract', 'poolkey'])
    C, P = g.o['contract'], g.o['poolkey']
    und = None
    for s, e in g.calls:
        for c in ('', 'xch1abc'):
            for k in ('', 'abcdef'):
                if bool(c) != bool(k):
                    continue
                u = under(e.facts, {C: c, P: k}, {C, P})
                if u is None:
                    continue
                lens = [y for x in e.facts.items for y in T.subterms(x) if isinstance(y, tuple) and y and y[0] == 'fld' and (T.contains(y, C) or T.contains(y, P))]
                u2 = under(e.facts, dict({y: 32 if T.contains(y, C) else 48 for y in lens}, **{}) | {C: c, P: k}, {C, P})
                if u2:
                    raise Bad('a plot is created with %s of pool key and contract' % ('both' if c else 'none'), e.l)
                und = und or 'pool key and contract'
        a, h = param(f, e['vals'], p, 'pool_key_bytes'), param(f, e['vals'], p, 'puzzle_hash_bytes')
        if not (isinstance(a, tuple) and a[0] == 'ref' and isinstance(h, tuple) and h[0] == 'ref'):
            raise Unk('pool key')
        if h[2] == 0 or e.facts.decide(T.eq(h[2], 0)) is True:
            if not need(g, e, P, a[2], 48, False, 'pool key'):
                und = und or 'length of the pool key'
        elif a[2] == 0 or e.facts.decide(T.eq(a[2], 0)) is True:
            if not need(g, e, C, h[2], 32, False, 'puzzle hash'):
                und = und or 'length of the puzzle hash'
        else:
            und = und or 'pool key or contract'
    for s, v in g.ends():
        if v == 0:
            for x in s.facts.items:
                if x[0] == 'not' and (len_fact(x[1], P, 48) or len_fact(x[1], C, 32)):
                    raise Bad('an invalid pool key or contract ends the program with status 0', f['l'])
            for c, k in (('', ''), ('xch1abc', 'abcdef')):
                lf = last_fact(s, g)
                if lf is not None and under(s.facts, {C: c, P: k}, {C, P}) is True and under(s.facts, {C: c, P: 'x' if not k else ''}, {C, P}) is None \
                        and under(s.facts, {C: 'x' if not c else '', P: k}, {C, P}) is None:
                    raise Bad('with %s of pool key and contract the program ends with status 0' % ('both' if c else 'none'), f['l'])
    r.count('paths', len(g.sts))
    if und:
        raise Unk(und)


BADDIR = ('abc', '/a', 'tmp', 'a/b', 'x\\y')


def dir_rule(p, r, f, o, name, others):
    g = Group(p, f, o, [name] + others)
    D = g.o[name]
    rest = {o[n]: '/dir-%s/' % n for n in ('tmpdir', 'tmpdir2', 'finaldir', 'stagedir') if n in o and n != name}
    und = None
    for s, e in g.calls:
        if under(e.facts, rest | {D: ''}, {D}) is True and e.facts.decide(T.eq(0, 0)) and not any(under(e.facts, rest | {D: d}, {D}) is not None for d in BADDIR + ('/t/',)):
            continue                  # not given
        for d in BADDIR:
            u = under(e.facts, rest | {D: d}, {D})
            if u is True:
                raise Bad('a plot is created with the %s "%s"' % (name, d), e.l)
            if u is False:
                und = und or 'trailing separator of %s' % name
        if under(e.facts, rest | {D: '/t/'}, {D}) is None:
            continue
        # trial file
        pr = [x for x in s.ev if x.kind == 'call' and x['name'] in ('fopen', 'std::fopen') and (is_in(x['args'][0], D) or same_dir(x['args'][0], D, e.facts))]
        loops = [x for x, lo in flat(s.ev) if lo and x.kind == 'call' and x['name'] == 'fopen']
        okp = False
        for x in pr:
            m = x['args'][1]
            if not (isinstance(m, tuple) and m[0] == 'str'):
                continue
            if m[1][:1] not in ('w', 'a'):
                continue
            d = e.facts.decide(T.eq(x['ret'], 0))
            if d is False:
                okp = True
            elif not any(T.contains(y, x['ret']) for y in e.facts.items):
                raise Bad('a plot is created although no file can be created in the %s' % name, x.l)
        if not okp:
            others_ = [x for x in s.ev if x.kind == 'call' and not x['name'].startswith(('std::', 'cxxopts::')) and x['name'] not in ('fopen', 'remove', 'create_plot')
                       and any(isinstance(a, tuple) and (T.contains(a, D) or a[0] == 'ptr' and a[1] == g.cfg.vars.get(D[1][4:])) for a in x['args'])]
            if others_ or streams(p, f) or any(not known(x['args'][0], o) for x in loops + [y for y in s.ev if y.kind == 'call' and y['name'] in ('fopen', 'std::fopen')]) or any(is_in(x['args'][0], D) for x in loops):
                und = und or 'trial file in %s' % name
            elif pr and any(not isinstance(x['args'][1], tuple) for x in pr):
                und = und or 'trial file in %s' % name
            else:
                raise Bad('a plot is created without a file having been created in the %s' % name, e.l)
    for s, v in g.ends():
        if v == 0:
            for x in s.ev:
                if x.kind == 'call' and x['name'] == 'fopen' and is_in(x['args'][0], D) and s.facts.decide(T.eq(x['ret'], 0)) is True:
                    raise Bad('an unusable %s ends the program with status 0' % name, x.l)
            if any(under(s.facts, rest | {D: d}, {D}) is True for d in BADDIR) and under(s.facts, rest | {D: '/t/'}, {D}) is None and under(s.facts, rest | {D: ''}, {D}) is None:
                raise Bad('an invalid %s ends the program with status 0' % name, f['l'])
    r.count('paths', len(g.sts))
    if und:
        raise Unk(und)


def same_dir(path, D, facts):
    x = sval_prefix(path) if isinstance(path, tuple) and path and path[0] == 'cat' else None
    return isinstance(x, tuple) and x != D and (T.eq(x, D) in facts.items or facts.decide(T.eq(x, D)) is True)


def streams(p, f):
    """does code of the same file open files by other means"""
    fl = f['l'].split(':')[0]
    return any(w in repr(g['b']) for g in p.functions.values() if g.get('b') and g.get('l', '').split(':')[0] == fl for w in ('fstream', 'filesystem', 'fdopen', 'freopen'))


def known(path, o):
    x = sval_prefix(path) if isinstance(path, tuple) and path and path[0] == 'cat' else path
    return isinstance(x, tuple) and x and (x[0] == 'str' or x in o.values())


def is_in(path, D):
    """is it a file inside directory D"""
    return isinstance(path, tuple) and path and path[0] == 'cat' and T.contains(path, D) and sval_prefix(path) == D


def sval_prefix(t):
    ps = t[1] if len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:]
    x = ps[0]
    if isinstance(x, tuple) and x and x[0] == 'cat':
        return sval_prefix(x)
    return x


def check(r, tier):
    r.rule = RULE
    for tag, kmax in (('K32', 32), ('K34', 34)):
        p = load(tag)
        try:
            f, o = options(p)
        except Unk as e:
            r.undecided('%s: %s' % (tag, e))
            continue
        r.saw('main')
        nb = (-5, 0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 256, 1 << 15, 1 << 16, (1 << 17) - 1, 1 << 17, 1 << 18, (1 << 31) - 1)
        go = lambda what, fn: rule(r, '%s, %s' % (what, tag), 'src/chia_plot.cpp: main', what, fn)
        go('range of k', lambda: int_rule(p, r, f, o, ['k'], 'k', 16, kmax, [(x,) for x in (-1, 0, 15, 16, 17, 31, 32, 33, 34, 35, 50, 288)], 'k'))
        if tag != 'K32' and tier == 'quick':
            continue
        go('number of threads', lambda: int_rule(p, r, f, o, ['threads'], 'num_threads', 1, 1024, [(x,) for x in (-1, 0, 1, 2, 4, 1023, 1024, 1025, 65537)], 'number of threads'))
        go('buckets', lambda: int_rule(p, r, f, o, ['buckets'], 'log_num_buckets', 4, 16, [(x,) for x in nb], 'log2 of the number of buckets'))
        go('buckets3', lambda: int_rule(p, r, f, o, ['buckets', 'buckets3'], 'log_num_buckets_3', 4, 16, [(x, y) for x in nb for y in nb], 'log2 of the number of buckets in phases 3 and 4'))
        go('pool key or contract', lambda: pool_rule(p, r, f, o))
        go('farmer key', lambda: size_rule(p, r, f, o, 'farmerkey', 'farmer_key_bytes', 48, False, 'farmer key'))
        go('plot id', lambda: size_rule(p, r, f, o, 'id', 'plot_id', 32, True, 'plot id'))
        go('tmpdir', lambda: dir_rule(p, r, f, o, 'tmpdir', []))
        go('tmpdir2', lambda: dir_rule(p, r, f, o, 'tmpdir2', ['tmpdir']))
        go('finaldir', lambda: dir_rule(p, r, f, o, 'finaldir', ['tmpdir']))
        go('stagedir', lambda: dir_rule(p, r, f, o, 'stagedir', ['tmpdir']))
