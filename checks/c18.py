"""C18: interrupts stop between plots, the requested number of plots is made, every finished plot is delivered before exit.

main() is executed abstractly (see C17); the signal handler and the function of the copy stage are executed separately.
"""
from sa.prog import load
from sa.disk import Bad, Unk, rule
from sa.engine import Engine, L, State, show, walk
from sa.pipe import flat
from sa.mainprog import MainCfg, options, paths, plots
from sa import terms as T
from checks.c17 import val, under, param

TECHNIQUE = 'abstract interpretation of main(), of the signal handler and of the copy stage function: path facts and effects at every call that creates a plot, hands over a plot or ends the process'
RULE = ('the handler exits only shortly after an earlier interrupt and otherwise sets the flag; every call that creates a plot is on paths where the flag, read after the last blocking call, is zero; one plot per iteration, '
        'iterations 0..count-1; a plot made outside the final directory is handed over with its name in the final directory; the copy function returns only after a copy that did not throw; '
        'the stage is closed or destroyed on every normal end after a hand-over')
NOW = 1700000000 * 10**6
MAINF = 'src/chia_plot.cpp: main'


class M:
    def __init__(self, p):
        self.p = p
        self.f, self.o = options(p)
        if 'count' not in self.o:
            raise Unk('option count')
        n = self.o['count']
        tr = {n} | {self.o[x] for x in ('directout',) if x in self.o}
        c, sts, e = paths(p, self.f, {n}, events=('create_plot', 'signal', 'sigaction', 'std::signal'))
        hs = {}
        for s, v in sts:
            for x in s.ev:
                if x.kind == 'call' and x['name'] in ('signal', 'std::signal') and len(x['args']) == 2:
                    hs.setdefault(x['args'][1], set()).add(x['args'][0])
        self.other = any(x.kind == 'call' and x['name'] in ('sigaction', 'sigprocmask', 'pthread_sigmask') for s, v in sts for x, _ in flat(s.ev))
        self.handlers = hs
        fs = [h for h in hs if isinstance(h, tuple) and h and h[0] == 'fn']
        self.handler = p.functions.get(fs[0][1]) if len(fs) == 1 else None
        self.hval = fs[0] if len(fs) == 1 else None
        self.flags = ()
        self.sts0, self.n, self.tr = sts, n, tr

    def handler_paths(self):
        if not self.handler or not self.handler.get('b'):
            raise Unk('no single handler')
        c = MainCfg(())
        c.join_at = 10**6
        return Engine(self.p, c).run(self.handler)


def globs(t):
    return {x for x in T.subterms(t) if isinstance(x, tuple) and x and x[0] == 'rd' and x[1][1][0] == 'g'} if isinstance(t, tuple) else set()


def fval(t, env):
    """value of a term with floating point division"""
    if isinstance(t, (int, float)):
        return t
    if not isinstance(t, tuple) or not t:
        return None
    if t in env:
        return env[t]
    h = t[0]
    if h == 'flt':
        try:
            return float(t[1])
        except ValueError:
            return None
    if h == 'poly':
        s = t[1]
        for m, k in t[2]:
            q = k
            for a in m:
                v = fval(a, env)
                if v is None:
                    return None
                q *= v
            s += q
        return s
    if h == 'op' and len(t) == 4:
        a, b = fval(t[2], env), fval(t[3], env)
        if a is None or b is None:
            return None
        if t[1] == 'f/':
            return a / b if b else None
        if t[1] == 'f*':
            return a * b
        if t[1] == 'f-':
            return a - b
        if t[1] == 'f+':
            return a + b
        if t[1] == '/':
            return int(a / b) if b else None
        return None
    if h in ('le', 'eq', 'not'):
        v = fval(t[1], env)
        return None if v is None else int(v <= 0 if h == 'le' else v == 0 if h == 'eq' else not v)
    if h in ('and', 'or'):
        a, b = fval(t[1], env), fval(t[2], env)
        if a is None or b is None:
            return None
        return int(a and b if h == 'and' else a or b)
    if h == 'ite':
        c = fval(t[1], env)
        return None if c is None else fval(t[2] if c else t[3], env)
    if h == 'cast':
        return fval(t[2], env)
    return None


def handler_rule(m, r):
    sts = m.handler_paths()
    # the variable that holds the time of the last interrupt: receives a clock value; the flag: receives a non-zero constant
    def wr(s):
        return {k: v for k, v in s.store.items() if k[1][0] == 'g'}
    clock = lambda v: isinstance(v, tuple) and v and v[0] == 'sym' and ('time' in str(v[1]) or 'now' in str(v[1]))
    times, flags = set(), set()
    for s, v in sts:
        for k, x in wr(s).items():
            (times if clock(x) else flags).add(k)
    for s, v in sts:
        for t in s.facts.items:
            xs = list(T.subterms(t))
            if any(clock(x) for x in xs):
                times |= {x[1] for x in xs if isinstance(x, tuple) and x and x[0] == 'rd' and x[1][1][0] == 'g'}
    flags -= times
    if len(times) > 1:
        raise Unk('several clock variables')
    ps = m.handler['p']
    sigp = ('sym', 'p:' + (ps[0]['n'] or '0')) if ps else None
    m.times = times
    ends = []
    for s, v in sts:
        ex = bool(s.out and s.out[0] == 'abort') or any(e.kind == 'exit' for e in s.ev)
        ends.append((s, ex))
    m.flagl = sorted(flags, key=repr)
    if not flags:
        if any(not ex for s, ex in ends):
            raise Bad('an interrupt has no effect on the plotting loop', m.handler['l'])
        raise Bad('an interrupt terminates the process', m.handler['l'])
    und = None
    for gap, what in ((NOW, 'the first interrupt'), (3600 * 10**6, 'an interrupt an hour after the last one'), (5 * 10**6, 'an interrupt five seconds after the last one'), (2 * 10**5, 'a second interrupt within a second')):
        for sig in (2, 15):
            fl = 0 if gap == NOW else 1
            hit = False
            for s, ex in ends:
                env = {sigp: sig}
                terms = list(s.facts.items) + list(s.store.values())
                for t in terms:
                    for x in T.subterms(t) if isinstance(t, tuple) else ():
                        if isinstance(x, tuple) and x and x[0] == 'rd' and x[1] in times:
                            env[x] = NOW - gap
                        elif isinstance(x, tuple) and x and x[0] == 'rd' and x[1] in flags:
                            env[x] = fl
                        elif clock(x):
                            env[x] = NOW
                vs = [fval(x, env) for x in s.facts.items]
                r.count('handler_points')
                if 0 in vs:
                    continue
                if None in vs:
                    und = und or 'condition of the handler'
                    continue
                hit = True
                if ex and gap > 2 * 10**6:
                    raise Bad('%s terminates the process' % what, ([e.l for e in s.ev if e.kind == 'exit'] or [m.handler['l']])[0])
                if not ex and gap < 10**6 and times:
                    raise Bad('%s does not terminate the process' % what, m.handler['l'])
                if not ex and gap > 2 * 10**6:
                    on = []
                    for k in m.flagl:
                        x = s.store.get(k)
                        on.append(fl if x is None else fval(x, env))
                    if not any(on):
                        if None in on:
                            und = und or 'value of the flag'
                        else:
                            raise Bad('%s does not set the flag' % what, m.handler['l'])
                    if times and not all(clock(s.store.get(k)) for k in times):
                        raise Bad('%s is not remembered, so a second one within a second does not terminate the process' % what, m.handler['l'])
            if not hit and not und:
                und = 'no path of the handler for %s' % what
    if und:
        raise Unk(und)


def installed_rule(m, r):
    und = None
    for s, v in m.sts0:
        pl = plots(s)
        if not pl:
            continue
        pre = [x for x, _ in flat(s.ev) if x.kind == 'call' and x['name'] in ('signal', 'std::signal')]
        for n in (2, 7, -1):
            u = under(s.facts, {m.n: n}, {m.n})
            if u is None:
                continue
            for sig, nm in ((2, 'SIGINT'), (15, 'SIGTERM')):
                hs = [x for x in pre if x['args'][0] == sig]
                r.count('handler_obligations')
                if hs and hs[-1]['args'][1] == m.hval:
                    continue
                if u is not True or m.other or any(not isinstance(x['args'][0], int) for x in pre) or hs and m.hval is None:
                    und = und or 'handler of %s' % nm
                    continue
                raise Bad('with %d plots requested %s is not handled' % (n, nm), pl[0][0].l)
    if und:
        raise Unk(und)


def loops_of(m):
    """(state, loop, path) for the loop that makes plots"""
    out = []
    for s, v in m.sts:
        for e in s.ev:
            if e.kind == 'loop' and any(x.kind == 'plot' for q in e['paths'] for x, _ in flat(q.ev)):
                out.append((s, e))
    return out


def flag_rule(m, r):
    if not m.flags:
        raise Unk('no flag')
    und = None
    for s, v in m.sts:
        for e, lo in plots(s):
            r.count('plot_calls')
            ok = False
            for x in e['flags']:
                if x == 0 or isinstance(x, tuple) and e.facts.decide(T.eq(x, 0)) is True:
                    ok = True
            if ok:
                continue
            if any(isinstance(x, tuple) and any(T.contains(y, x) for y in e.facts.items) for x in e['flags']):
                und = und or 'condition on the flag'
                continue
            raise Bad('a plot is started without looking whether there was an interrupt since the last plot', e.l)
    if und:
        raise Unk(und)


def count_rule(m, r):
    ls = loops_of(m)
    if not ls:
        raise Unk('no loop that makes plots')
    lst = {id(s) for s, e in ls}
    flat_ = [(s, [e for e, lo in plots(s)]) for s, v in m.sts if plots(s) and id(s) not in lst]       # loops that were unrolled
    und = None
    for n in (-1, 0, 1, 2, 3, 5):
        for j in range(7):
            some, sure = False, False
            w = None
            for s, e in ls:
                it = ('it', e['id'])
                for q in e['paths']:
                    k = sum(1 for x in q.ev if x.kind == 'plot')
                    if any(x.kind == 'plot' for x, lo in flat(q.ev) if lo):
                        raise Unk('nested loop makes plots')
                    if not k:
                        continue
                    u = under(q.facts, {m.n: n, it: j}, {m.n, it})
                    r.count('count_points')
                    if u is None:
                        continue
                    some = True
                    w = [x.l for x in q.ev if x.kind == 'plot'][0]
                    sure = sure or u
                    if k > 1 and u:
                        raise Bad('one iteration makes %d plots' % k, w)
            for s, pl in flat_:
                u = under(s.facts, {m.n: n}, {m.n})
                if u is not None and len(pl) > j:
                    some, w = True, pl[j].l
                    sure = sure or u
            want = n < 0 or j < n
            if want and not some:
                raise Bad('plot %d of %s is not made' % (j + 1, n if n >= 0 else 'infinitely many'), ls[0][1].l)
            if not want and sure:
                if counted(ls, m):
                    raise Bad('a plot is made after %d of %d' % (j, n), w)
                und = und or 'loop condition'
            elif not want and some:
                und = und or 'loop condition'
    for s, e in ls:
        it = ('it', e['id'])
        for q in e['paths']:
            if q.out in (None, ('continue',)) and not any(x.kind == 'plot' for x, _ in flat(q.ev)):
                if counted(ls, m) and any(under(q.facts, {m.n: n, it: j}, {m.n, it}) is True for n, j in ((3, 0), (3, 1), (-1, 5))):
                    raise Bad('an iteration makes no plot', e.l)
                und = und or 'iteration without a plot'
            if q.out == ('break',) and not any(x.kind == 'plot' for x, _ in flat(q.ev)):
                # leaving early is for interrupts only
                if not any(fl_in(x, m) for x in q.facts.items) and any(under(q.facts, {m.n: n, it: j}, {m.n, it}) is True for n, j in ((3, 0), (3, 1), (-1, 5))):
                    und = und or 'loop left early'
    if und:
        raise Unk(und)


def fl_in(t, m):
    return any(isinstance(x, tuple) and x and x[0] == 'rd' and x[1] in m.flags for x in T.subterms(t))


def counted(ls, m):
    """is the condition of every loop expressed in the number of the iteration and the count alone"""
    for s, e in ls:
        it = ('it', e['id'])
        for q in e['paths']:
            for x in q.facts.items:
                if T.contains(x, m.n) and not T.contains(x, it):
                    if any(isinstance(y, tuple) and y and y[0] in ('phi', 'phx') for y in T.subterms(x)):
                        return False
    return any(T.contains(x, ('it', e['id'])) for s, e in ls for q in e['paths'] for x in q.facts.items)


def hand_rule(m, r):
    ls = loops_of(m)
    und = None
    done = False
    for s, e in ls:
        stages = [x for x in s.ev if x.kind == 'stage']
        for q in e['paths']:
            pl = [x for x in q.ev if x.kind == 'plot']
            if len(pl) != 1 or q.out not in (None, ('continue',), ('break',)):
                continue
            x = pl[0]
            i = q.ev.index(x)
            ret = [y['ret'] for y in q.ev[i:] if y.kind == 'call' and y['name'] == 'create_plot']
            if len(ret) != 1:
                raise Unk('result of create_plot')
            ret = ret[0]
            fo, so = m.o.get('finaldir'), m.o.get('stagedir')
            if not fo or not so:
                raise Unk('directory options')
            vf, vs = x['opts'].get(fo[1][4:]), x['opts'].get(so[1][4:])
            a = param(m.f, x['vals'], m.p, 'plot_dir')
            if isinstance(a, tuple) and a and a[0] == 'ref':
                a = a[1]
            takes = [y for y in q.ev[i:] if y.kind == 'take']
            r.count('plots_followed')
            done = True
            if takes:
                if len(takes) > 1:
                    und = und or 'several hand-overs'
                    continue
                und = given(takes[0], ret, vf, a, q, und)
                continue
            if a == vf or T.eq(a, vf) in q.facts.items or q.facts.decide(T.eq(a, vf)) is True:
                continue
            # the plot is not in the final directory and stays where it is?
            others = [v for n, v in sorted(x['opts'].items()) if m.o.get('tmpdir') == ('sym', 'opt:' + n) or m.o.get('tmpdir2') == ('sym', 'opt:' + n)]
            others = [v for v in others if isinstance(v, tuple) and v not in (vf, vs)]
            for dv, od in ((0, '/t/'), (1, '/t/'), (0, '/f/'), (1, '/f/')):
                e2 = {v: od for v in others}
                e2.update({vf: '/f/', vs: '/s/'})
                if 'directout' in m.o:
                    e2[m.o['directout']] = dv
                syms = {y for y in e2}
                u = under(q.facts, e2, syms)
                av = place(a, e2)
                if u is None or av == '/f/':
                    continue
                if u is True and av == '/s/':
                    raise Bad('a plot made in the stage directory is not moved to the final directory', x.l)
                und = und or 'where the plot is made'
    if not done:
        raise Unk('no plot followed')
    if und:
        raise Unk(und)


def place(t, env):
    if isinstance(t, tuple) and t in env:
        return env[t]
    if isinstance(t, tuple) and t and t[0] == 'ite':
        c = val(t[1], env)
        return None if c is None else place(t[2] if c else t[3], env)
    return None


def given(tk, ret, vf, a, q, und):
    v = tk['val']
    if not (isinstance(v, tuple) and v and v[0] == 'obj'):
        return und or 'value handed over'
    d = dict(v[2])
    a1, a2 = d.get((('f', 'first'),)), d.get((('f', 'second'),))
    src = ('fld', ret, (('f', 'plot_file_name'),))
    if a1 is None or a2 is None:
        return und or 'value handed over'
    if a1 != src:
        if isinstance(a1, tuple) and a1 and (a1[0] in ('str', 'cat', 'fld') or a1 == vf) and not any(isinstance(y, tuple) and y and y[0] == 'call' for y in T.subterms(a1)):
            raise Bad('the plot handed over is %s, not the file that was made' % show(a1)[:100], tk.l)
        return und or 'file handed over'
    want = [vf, ('fld', ret, (('f', 'params'), ('f', 'plot_name'))), ('str', '.plot')]
    got = cat(a2)
    if got == want:
        return und
    if got and all(isinstance(y, tuple) and y and y[0] in ('str', 'fld', 'sym', 'phi', 'rd') for y in got):
        raise Bad('the plot is moved to %s' % show(a2)[:150], tk.l)
    return und or 'destination'


def cat(t):
    if not (isinstance(t, tuple) and t and t[0] == 'cat'):
        return [t]
    ps = t[1] if len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:]
    out = []
    for x in ps:
        out += cat(x)
    return out


def end_rule(m, r):
    """after a hand-over the process ends only after the stage was closed or destroyed"""
    und = None
    for s, v in m.sts:
        tk = {e['to'] for e, lo in flat(s.ev) if e.kind == 'take'}
        if not tk:
            continue
        if s.out and s.out[0] not in ('ret', 'abort'):
            continue
        r.count('ends')
        for t in tk:
            last = max(i for i, e in enumerate(s.ev) if e.kind == 'take' and e['to'] == t or e.kind == 'loop' and any(x.kind == 'take' and x['to'] == t for x, _ in flat([e])))
            cl = [e for e in s.ev[last:] if e.kind == 'call' and e.get('this') == t and e['name'].split('::')[-1] in ('close', 'wait', '~Thread')]
            if cl:
                continue
            if s.out and s.out[0] == 'abort':
                raise Bad('the process is ended while plots may still wait to be moved', ([e.l for e in s.ev if e.kind == 'exit'] or [m.f['l']])[0])
            und = und or 'end of the copy stage'
        ex = [e for e, lo in flat(s.ev) if lo and e.kind == 'exit']
        if ex:
            raise Bad('the process is ended while plots may still wait to be moved', ex[0].l)
    if und:
        raise Unk(und)


def thrown(p):
    ts = set()
    seen = set()
    todo = [f for f in p.fns('final_copy') if f.get('b')]
    if not todo:
        raise Unk('final_copy')
    while todo:
        f = todo.pop()
        if f['id'] in seen:
            continue
        seen.add(f['id'])
        for n in walk(f['b']):
            if n.get('k') == 'Throw':
                t = None
                for y in walk(n):
                    if y.get('k') in ('Construct', 'TempObj', 'Ctor', 'New') and 'error' in y.get('t', '') + 'exception':
                        t = t or y.get('t')
                ts.add((t or 'std::runtime_error').replace('class ', '').replace('const ', '').strip())
            fr = n.get('f')
            if isinstance(fr, dict) and fr.get('id') in p.functions:
                g = p.functions[fr['id']]
                if g.get('b') and g['base'] in ('copy_file', 'final_copy'):
                    todo.append(g)
    return tuple(sorted(ts)) or ('std::runtime_error',)


def copy_rule(m, r):
    th = thrown(m.p)
    st = [(s, x) for s, v in m.sts for x in s.ev if x.kind == 'stage' and any(e.kind == 'take' and e['to'] == ('ptr', x['loc']) for e, _ in flat(s.ev))]
    if not st:
        raise Unk('copy stage')
    s, x = st[0]
    fv = x['fn']
    f = m.p.functions.get(fv[1]) if isinstance(fv, tuple) and fv[0] == 'lam' else None
    if f is None or not f.get('b'):
        raise Unk('function of the copy stage')
    r.saw('function of the copy stage')
    c = MainCfg(())
    c.join_at = 10**6
    c.throws = th
    a0 = L(('o', ('sym', 'arg0')))
    und = None
    for s2, v in Engine(m.p, c).run(f, caps=fv, args={0: ('ptr', a0)}):
        fc = [e for e, _ in flat(s2.ev) if e.kind == 'call' and e['name'] == 'final_copy']
        for e in fc:
            for i, n in enumerate(('first', 'second')):
                if e['args'][i] not in (('ptr', ('L', a0[1], (('f', n),))), ('rd', ('L', a0[1], (('f', n),)), 0)):
                    if e['args'][i] in (('ptr', ('L', a0[1], (('f', k),))) for k in ('first', 'second')):
                        raise Bad('the copy stage copies %s' % show(e['args'])[:120], e.l)
                    und = und or 'arguments of final_copy'
        r.count('copy_paths')
        if s2.out and s2.out[0] == 'throw':
            if s2.out[2] == ('exc', 'final_copy'):
                raise Bad('a failing move is not retried (the exception leaves the copy function)', s2.out[3])
            continue
        if s2.out and s2.out[0] != 'ret':
            raise Bad('the copy stage ends the process', ([e.l for e in s2.ev if e.kind == 'exit'] or [f['l']])[0])
        top = [i for i, e in enumerate(s2.ev) if e.kind == 'call' and e['name'] == 'final_copy']
        if top:
            e = s2.ev[top[-1]]
            if e['ret'] == ('undef',):
                raise Bad('a failing move is given up', e.l)
            continue
        lp = [e for e in s2.ev if e.kind == 'loop' and any(y.kind == 'call' and y['name'] == 'final_copy' for y, _ in flat([e]))]
        if not lp:
            if fc:
                und = und or 'copy function'
                continue
            if not any(e.kind == 'call' and not e['name'].startswith('std::') and e['name'] not in ('get_wall_time_micros',) for e, _ in flat(s2.ev)):
                raise Bad('the copy stage returns without moving the plot', f['l'])
            und = und or 'copy function'
            continue
        lp = lp[-1]
        # left by its condition: must not be possible after a failing move
        ph = {y for t in s2.facts.items for y in T.subterms(t) if isinstance(y, tuple) and y and y[0] in ('phi', 'phx') and len(y) > 1 and y[1] == lp['id']}
        itn = [t for t in s2.facts.items if T.contains(t, ('itn', lp['id']))]
        if not ph and (itn or isinstance(lp.get('bound'), int)):
            raise Bad('a failing move is given up after a number of attempts', lp.l)
        und = und or 'condition of the retry loop'
        for q in lp['paths']:
            fcq = [y for y in q.ev if y.kind == 'call' and y['name'] == 'final_copy']
            if not fcq or fcq[-1]['ret'] != ('undef',):
                continue
            for k, (a, b) in q.ends.items():
                nm = {y for y in ph if y[2:] and y[2] == k}
                for t in s2.facts.items:
                    if any(T.contains(t, y) for y in nm):
                        w = T.subst(t, {y: b for y in nm})
                        w = w if isinstance(w, int) else val(w, {})
                        if w == 1:
                            raise Bad('after a failing move the copy function returns', fcq[-1].l)
    if und:
        raise Unk(und)


def check(r, tier):
    r.rule = RULE
    for tag in ('K32',) if tier == 'quick' else ('K32', 'K34'):
        p = load(tag)
        try:
            m = M(p)
        except Unk as e:
            r.undecided('%s: %s' % (tag, e))
            continue
        r.saw('main')
        if m.handler:
            r.saw(m.handler['base'])
        go = lambda what, fn: rule(r, '%s, %s' % (what, tag), MAINF, what, fn)
        go('signal handler', lambda: handler_rule(m, r))
        go('handler installed', lambda: installed_rule(m, r))
        m.flags = tuple(getattr(m, 'flagl', ()))
        tr = set(m.tr) | {x for x in m.flags}
        m.cfg, m.sts, m.eng = paths(p, m.f, tr, extra=m.flags, events=('create_plot', 'signal', 'sigaction', 'std::signal', 'Thread::close', 'Thread::~Thread'))
        if m.eng.stats['truncated']:
            r.undecided('%s: too many paths' % tag)
            continue
        go('no plot is started after an interrupt', lambda: flag_rule(m, r))
        go('number of plots', lambda: count_rule(m, r))
        go('every plot is handed over', lambda: hand_rule(m, r))
        go('moves finish before the end', lambda: end_rule(m, r))
        go('retry of a failing move', lambda: copy_rule(m, r))
