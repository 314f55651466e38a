"""Layout of the plot file (phases 3 and 4): what is written where, as terms.

Formulas are compared by evaluating both sides at grid points (all k, boundary entry counts), so the way the arithmetic is written does not matter; a term that
cannot be evaluated makes the rule undecided."""
from .prog import base, walk
from .engine import Engine, State, L, show, is_prefix, loc_ext
from .pipe import PipeCfg, flat
from .disk import Bad, Unk, eqv, want, rule, is_rd, null_fact
from .backprop import obj, arg_loc, stages, fieldval, W
from . import terms as T

OPAQUE = ('phase3::compute_stage1', 'phase3::compute_stage2', 'phase3::WriteHeader', 'phase3::WritePark', 'Util::IntToEightBytes', 'Util::IntToTwoBytes', 'Util::IntToTwoBytesLE',
          'fwrite_at', 'fwrite_ex', 'fseek_set')
PREF = ('BitsGeneric::', 'Encoding::', 'bitfield::')
KS = (16, 17, 18, 19, 20, 21, 24, 25, 31, 32, 33, 34)
HEADER = ('sym', 'header')
UNSIGNED = ('unsigned', 'bool', 'size_t')


def trunc(v, ty):
    n = W.get(ty)
    if n is None:
        return v if ty == 'bool' and v in (0, 1) else None
    v &= (1 << n) - 1
    if not ty.startswith('unsigned') and v >> (n - 1):
        v -= 1 << n
    return v


def ev(t, env):
    """integer value of a term, or None"""
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, int):
        return t
    if not isinstance(t, tuple) or not t:
        return None
    if t in env:
        return env[t]
    h = t[0]
    if h == 'poly':
        s = t[1]
        for m, k in t[2]:
            p = k
            for a in m:
                v = ev(a, env)
                if v is None:
                    return None
                p *= v
            s += p
        return s
    if h == 'op' and len(t) == 4:
        a, b = ev(t[2], env), ev(t[3], env)
        if a is None or b is None:
            if t[1] == '&' and (a == 0 or b == 0):
                return 0
            return None
        o = t[1]
        try:
            if o == '/':
                return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if b else None
            if o == '%':
                return a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)) if b else None
            return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}[o]()
        except (KeyError, ValueError):
            return None
    if h in ('min', 'max'):
        vs = [ev(x, env) for x in t[1:]]
        return None if None in vs else (min if h == 'min' else max)(vs)
    if h == 'cast':
        v = ev(t[2], env)
        return None if v is None else trunc(v, t[1])
    if h == 'eq':
        v = ev(t[1], env)
        return None if v is None else int(v == 0)
    if h == 'le':
        v = ev(t[1], env)
        return None if v is None else int(v <= 0)
    if h == 'not':
        v = ev(t[1], env)
        return None if v is None else int(not v)
    if h in ('and', 'or'):
        a, b = ev(t[1], env), ev(t[2], env)
        if h == 'and':
            return 0 if a == 0 or b == 0 else None if a is None or b is None else 1
        return 1 if a or b else None if a is None or b is None else 0
    if h == 'ite':
        c = ev(t[1], env)
        return None if c is None else ev(t[2] if c else t[3], env)
    if is_rd(t):
        # the same location read at another time
        return env.get(('at', t[1]))
    if h == 'fld' and len(t) == 3 and isinstance(t[1], tuple) and t[1] and (t[1][0] in ('phi', 'phx') or is_rd(t[1])):
        loc = t[1][2] if t[1][0] in ('phi', 'phx') else t[1][1]
        return env.get(('at', ('L', loc[1], loc[2] + tuple(t[2]))))
    if h == 'fld' and len(t) == 3 and isinstance(t[1], tuple) and t[1][:1] == ('filled',) and len(t[1]) > 1:
        return ev(t[1][1], env)
    if h in ('phi', 'phx') and len(t) >= 3:
        return env.get(('at', t[2]))
    return None


def possible(facts, env):
    """False: excluded by these values; True otherwise"""
    for f in facts.items:
        if ev(f, env) == 0:
            return False
    return True


def unread(t, env):
    """atoms without a value"""
    out = []
    def go(x):
        if ev(x, env) is not None or isinstance(x, int):
            return
        if isinstance(x, tuple) and x and x[0] in ('poly', 'op', 'min', 'max', 'cast', 'eq', 'le', 'not', 'and', 'or', 'ite'):
            for y in (x[1:] if x[0] != 'poly' else [a for m, k in x[2] for a in m]):
                if isinstance(y, tuple):
                    go(y)
        else:
            out.append(x)
    go(t)
    return out


def expect(t, env, val, msg, l):
    v = ev(t, env)
    if v is None:
        raise Unk('%s: %s (no value for %s)' % (msg, show(t)[:100], [show(x)[:60] for x in unread(t, env)][:3]))
    if v != val:
        raise Bad('%s: %d instead of %d' % (msg, v, val), l)


class LayCfg(PipeCfg):
    keep_paths = True
    max_paths = 400

    def __init__(self, inline=()):
        PipeCfg.__init__(self)
        self.inl = inline

    def opaque(self, eng, f):
        b = f['base']
        if b in self.inl:
            return False
        return b in OPAQUE or b.startswith(PREF) or PipeCfg.opaque(self, eng, f)

    def track(self, loc):
        return True

    def model(self, eng, st, name, node, this, args):
        if name == 'get_wall_time_micros':
            return [(st, ('sym', 'time', st.fresh()))]
        if name in ('fwrite_at', 'fwrite_ex') and len(args) == (4 if name == 'fwrite_at' else 3):
            # returns the number of bytes (decided on the IR)
            eng.emit(st, 'call', node.get('l', ''), name=name, this=None, args=tuple(args), ret=args[-1])
            return [(st, args[-1])]
        if name == 'Util::IntToEightBytes' and len(args) == 2 and obj(args[0]) is not None:
            eng.emit(st, 'call', node.get('l', ''), name=name, this=None, args=tuple(args), ret=None)
            return [(st, None)]
        if name == 'phase3::WriteHeader':
            eng.emit(st, 'call', node.get('l', ''), name=name, this=None, args=tuple(args), ret=HEADER)
            return [(st, HEADER)]
        if name == 'phase3::compute_stage2' and len(args) == 8:
            n = sum(1 for e in st.ev if e.kind == 'call' and e['name'] == name)
            eng.emit(st, 'call', node.get('l', ''), name=name, this=None, args=tuple(args), ret=('sym', 'written%d' % n))
            if obj(args[7]) is not None:
                eng.write(st, obj(args[7]), ('sym', 'end%d' % n), node.get('l', ''))
            return [(st, ('sym', 'written%d' % n))]
        r = PipeCfg.model(self, eng, st, name, node, this, args)
        if r is not None and name in ('Thread::Thread', 'ThreadPool::ThreadPool'):
            for e in st.ev[-3:]:
                if e.kind == 'stage' and 'st' not in e.d:
                    e.d['st'] = dict(st.store)
        if name in ('Thread::close', 'Thread::wait', 'ThreadPool::close', 'ThreadPool::wait'):
            # what the stage function may have changed meanwhile
            o = obj(this)
            for e in st.ev:
                if e.kind == 'stage' and e['loc'] == o and isinstance(e['fn'], tuple) and e['fn'][0] == 'lam':
                    f = eng.p.functions.get(e['fn'][1])
                    for c in e['fn'][2]:
                        if c[1] == 'ref' and isinstance(c[2], tuple) and c[2][0] == 'ptr':
                            loc = c[2][1]
                            if ('L', loc[1], ()) == loc and isinstance(st.store.get(loc), tuple) and st.store[loc][0] == 'stage':
                                continue
                            eng.havoc(st, loc)
        return r


def stage_runs(p, e, s):
    """paths of a stage function with captured values; scalars of the enclosing function captured by reference are arbitrary"""
    fv = e['fn']
    if not (isinstance(fv, tuple) and fv[0] == 'lam'):
        raise Unk('stage function is not a closure')
    f = p.functions.get(fv[1])
    if f is None or not f.get('b'):
        raise Unk('stage function has no body')
    st = State()
    st.cnt = 1000000
    for k, v in e['st'].items():
        if isinstance(v, tuple) and v and v[0] in ('ptr', 'lam', 'bind', 'fn', 'stage'):
            st.store[k] = v
    args = {i: ('ptr', L(('o', ('sym', 'arg%d' % i)))) if q['t'].endswith('&') else ('sym', 'arg%d' % i) for i, q in enumerate(f['p'])}
    return f, [(s2, v) for s2, v in Engine(p, LayCfg()).run(f, caps=fv, args=args, st=st) if not s2.out or s2.out[0] == 'ret']


def normal(p, f, **kw):
    return [(s, v) for s, v in Engine(p, LayCfg()).run(f, **kw) if not s.out or s.out[0] == 'ret']


def at(loc):
    return ('at', loc)


def param(n):
    return ('sym', 'p:' + n)


def deep(v, path):
    """component of an object value"""
    path = tuple(path)
    if not path:
        return v
    if isinstance(v, tuple) and v and v[0] == 'obj':
        best = None
        for q, x in v[2]:
            if q == path:
                return x
            if path[:len(q)] == q and (best is None or len(q) > len(best[0])):
                best = (q, x)
        if best:
            return deep(best[1], path[len(best[0]):])
        return deep(v[1], path)
    if is_rd(v):
        return ('rd', loc_ext(v[1], *path), v[2])
    if isinstance(v, tuple) and v and v[0] == 'phi':
        return ('phi', v[1], loc_ext(v[2], *path))
    return None


def elem_loop(s, vec):
    """the one loop over the elements of vec; None if the path knows that it is empty"""
    n = ('rd', loc_ext(vec, ('f', '#n')), 0)
    ls = [e for e in s.ev if e.kind == 'loop' and (e.get('bound') == n or e.get('raw_bound') == n)]
    if not ls:
        if eqv(n, 0, s.facts) is True:
            return None
        raise Unk('no loop over the elements handed over')
    if len(ls) > 1:
        raise Unk('several loops over the elements handed over')
    return ls[0]


def through(lp):
    """paths of a loop body; errors are left out"""
    return [q for q in lp['paths'] if not (q.out and q.out[0] in ('throw', 'abort'))]


def writes_of(evs):
    """[(file, offset, buffer, size, line)] of a straight sequence of events"""
    out, pos = [], {}
    for e in evs:
        if e.kind != 'call':
            continue
        n, a = e['name'], e.get('args') or ()
        if n == 'fwrite_at':
            out.append((a[0], a[1], a[2], a[3], e.l))
            pos[a[0]] = None
        elif n == 'fseek_set':
            pos[a[0]] = a[1]
        elif n == 'fwrite_ex':
            out.append((a[0], pos.get(a[0]), a[1], a[2], e.l))
            if pos.get(a[0]) is not None:
                pos[a[0]] = T.add(pos[a[0]], a[2])
        elif n in ('fwrite', 'fseek', 'fseeko', 'pwrite', 'write', 'fputc', 'putc'):
            raise Unk('%s used directly' % n)
    return out


def write_rule(p, e, s, file):
    """output stage: every {offset, buffer} element is written whole at its offset -> (offset field, buffer field)"""
    f, runs = stage_runs(p, e, s)
    vec = arg_loc(0)
    res = set()
    for s2, v in runs:
        outer = [x for x in s2.ev if x.kind == 'call' and x['name'] in ('fwrite_at', 'fwrite_ex')]
        if outer:
            n = ('rd', loc_ext(vec, ('f', '#n')), 0)
            if not any(x.kind == 'loop' for x in s2.ev) and possible(s2.facts, {n: 7, at(n[1]): 7}) and not any(T.contains(x, n) and ev(x, {n: 7}) is None for x in s2.facts.items):
                raise Bad('of 7 buffers handed over %d are written' % len(outer), outer[0].l)
            raise Unk('write outside of the loop')
        lp = elem_loop(s2, vec)
        if lp is None:
            continue
        if lp.get('bound') is None:
            raise Bad('not every buffer handed over is written', lp.l)
        for q in through(lp):
            if q.out:
                raise Bad('not every buffer handed over is written', lp.l)
            el = loc_ext(vec, ('f', '#b'), ('e', ('it', lp['id'])))
            ws = writes_of(q.ev)
            if any(x.kind == 'loop' for x in q.ev):
                raise Unk('inner loop')
            if not ws:
                sizes = [x for x in q.facts.items if T.contains(x, ('f', '#n')) and T.contains(x, el[2][-1])]
                if any(x[0] == 'eq' for x in sizes):
                    continue        # nothing to write
                raise Bad('a buffer is not written', lp.l)
            if len(ws) != 1:
                raise Unk('%d writes per buffer' % len(ws))
            fl, off, buf, n, l = ws[0]
            if fl != file:
                raise Unk('file %s' % show(fl)[:60])
            if off is None:
                raise Bad('a buffer is written at the current file position', l)
            if not is_rd(off) or not is_prefix(el, off[1]):
                if ev(off, {}) is not None:
                    raise Bad('every buffer is written at the same offset', l)
                raise Unk('offset %s' % show(off)[:80])
            b = obj(buf)
            if b is None or not is_prefix(el, b):
                raise Unk('buffer %s' % show(buf)[:80])
            bf = b[2][len(el[2]):]
            if not bf or bf[-1] != ('f', '#b'):
                raise Unk('buffer %s' % show(buf)[:80])
            want(n, ('rd', loc_ext(el, *(bf[:-1] + (('f', '#n'),))), 0), 'not the whole buffer is written', l, q.facts)
            res.add((off[1][2][len(el[2]):], bf[:-1]))
    if len(res) != 1:
        raise Unk('fields of the buffers: %s' % (res,))
    return res.pop()


def fwd(p, e, st):
    """stage that receives the output of a pool"""
    t = st.get(obj(e.get('out')))
    if t is None:
        raise Unk('output stage')
    return t


def park_rule(p, e, s, offf, buff, prm, size, grid):
    """park stage of phase 3: -> (index field, points field, counter location or None)"""
    f, runs = stage_runs(p, e, s)
    vec, out = arg_loc(0), arg_loc(1)
    res = set()
    ctr = set()
    for s2, v in runs:
        lp = elem_loop(s2, vec)
        if lp is None:
            continue
        if lp.get('bound') is None:
            raise Bad('not every park is written', lp.l)
        el = loc_ext(vec, ('f', '#b'), ('e', ('it', lp['id'])))
        for q in through(lp):
            if q.out:
                raise Bad('not every park is written', lp.l)
            ps = [x for x in q.ev if x.kind == 'vec' and x['op'] in ('push', 'emplace') and x['vec'] == out]
            if len(ps) != 1:
                raise Bad('a park is passed on %d times' % len(ps), lp.l)
            val = ps[0]['val']
            off, bn = deep(val, offf), deep(val, buff + (('f', '#n'),))
            idx = {x[1][2][len(el[2]):] for x in T.subterms(off) if is_rd(x) and is_prefix(el, x[1])} if off is not None else set()
            idx = {x for x in idx if x and x[-1] != ('f', '#n')}
            if off is None or bn is None:
                raise Unk('offset or size of the park')
            if not idx:
                if not unread(off, {prm['k']: 32, prm['L']: 1, prm['begin']: 0}):
                    raise Bad('every park is written at the same offset', ps[0].l)
                raise Unk('offset %s' % show(off)[:80])
            if len(idx) != 1:
                raise Unk('offset %s' % show(off)[:80])
            ix = idx.pop()
            wp = [x for x in q.ev if x.kind == 'call' and x['name'] == 'phase3::WritePark']
            if len(wp) != 1:
                raise Bad('%d parks are encoded into one buffer' % len(wp), lp.l) if wp else Unk('park encoder')
            wp = wp[0]
            a = wp['args']
            pts = a[0]
            if not is_rd(pts) or not is_prefix(el, pts[1]) or ('f', '#b') not in pts[1][2][len(el[2]):]:
                raise Unk('first line point %s' % show(pts)[:80])
            tail = pts[1][2][len(el[2]):]
            pf = tail[:tail.index(('f', '#b'))]
            if tail[tail.index(('f', '#b')) + 1:] not in ((), (('e', 0),)):
                raise Bad('the park does not start with its first line point', wp.l)
            n = ('rd', loc_ext(el, *(pf + (('f', '#n'),))), 0)
            for k in KS:
                for t in range(1, 7):
                    env = {prm['k']: k, prm['L']: t}
                    if not possible(q.facts, dict(env)) or not possible(s.facts, dict(env)):
                        continue
                    for b in (0, 252, 2**40 + 17):
                        for i in (0, 1, 2, 2**21 + 5):
                            env2 = dict(env)
                            env2[prm['begin']] = b
                            env2[at(loc_ext(el, *ix))] = i
                            expect(off, env2, b + i * size(k, t), 'offset of park %d of table %d for k=%d, table begin %d' % (i, t, k, b), ps[0].l)
                    expect(bn, env, size(k, t), 'bytes written per park of table %d for k=%d' % (t, k), ps[0].l)
                    expect(a[3], env, k, 'k handed to the park encoder', wp.l)
                    expect(a[4], env, t, 'table handed to the park encoder', wp.l)
                    expect(a[6], env, size(k, t), 'size handed to the park encoder', wp.l)
                    grid[0] += 1
            # the buffer that is encoded into is the one passed on
            bo = obj(a[5])
            if bo is None:
                raise Unk('buffer of the park encoder')
            # deltas and stubs
            dl, sb = obj(a[1]), obj(a[2])
            if dl is None or sb is None:
                raise Unk('deltas of the park encoder')
            inner = [x for x in q.ev if x.kind == 'loop']
            if len(inner) != 1:
                raise Unk('%d loops over the points' % len(inner))
            il = inner[0]
            if q.ev.index(il) > q.ev.index(wp):
                raise Bad('the park is encoded before its deltas are computed', wp.l)
            if il.get('bound') is None or eqv(il['bound'], T.sub(n, 1), q.facts) is not True:
                if il.get('bound') is not None and eqv(il['bound'], T.sub(n, 1), q.facts) is False:
                    raise Bad('the number of deltas is not the number of points less one', il.l)
                bd = il.get('bound') if il.get('bound') is not None else il.get('raw_bound')
                if bd is None:
                    raise Unk('number of deltas')
                for m in (1, 2, 3, 2047, 2048):
                    if possible(q.facts, {n: m}):
                        expect(bd, {n: m}, m - 1, 'number of deltas of %d points' % m, il.l)
                if il.get('bound') is None:
                    raise Unk('number of deltas')
            it = ('it', il['id'])
            pl = lambda j: loc_ext(el, *(pf + (('f', '#b'), ('e', j))))
            for q2 in through(il):
                if q2.out:
                    raise Bad('deltas of a park are left out', il.l)
                ap = [x for x in q2.ev if x.kind == 'call' and x['name'].startswith('BitsGeneric::') and obj(x.get('this')) == sb]
                dw = [x['val'] for x in q2.ev if x.kind == 'wr' and is_prefix(loc_ext(dl, ('f', '#b')), x['loc'])]
                if len(ap) != 1 or ap[0]['name'] != 'BitsGeneric::AppendValue':
                    raise Unk('stub bits') if ap else Bad('the stub of an entry is not stored', il.l)
                if len(dw) != 1:
                    raise Unk('delta') if dw else Bad('the delta of an entry is not stored', il.l)
                dloc = [x['loc'] for x in q2.ev if x.kind == 'wr' and is_prefix(loc_ext(dl, ('f', '#b')), x['loc'])][0]
                ei = [z[1] for z in dloc[2][len(dl[2]):] if z[0] == 'e']
                if ei and not (T.contains(ei[0], it) and eqv(ei[0], it) is True) and eqv(ei[0], it) is False and T.contains(ei[0], it):
                    raise Bad('the delta of an entry is stored in another place', il.l)
                for k in KS:
                    for x0, d in ((0, 0), (5, 1), (2**(2*k-2), 2**(k-3) - 1), (77, 2**(k-3)), (1, 2**(k-3) * 255 + 3), (9, 2**(k-3) * 256), (9, 2**(k-3) * 257)):
                        env = {prm['k']: k, at(pl(it)): x0, at(pl(T.add(it, 1))): x0 + d}
                        if d >> (k - 3) > 255:
                            # does not fit: must not get here
                            if any(ev(y, env) == 0 for y in q2.facts.items):
                                continue
                            if all(ev(y, env) is not None for y in q2.facts.items if T.contains(y, at(pl(it))) or any(is_rd(z) and z[1] == pl(it) for z in T.subterms(y))):
                                raise Bad('a delta that does not fit into a byte is stored', il.l)
                            raise Unk('delta of more than a byte')
                        expect(dw[0], env, d >> (k - 3), 'delta of two points', il.l)
                        expect(ap[0]['args'][0], env, d & (2**(k-3) - 1), 'stub of two points', ap[0].l)
                        expect(ap[0]['args'][1], env, k - 3, 'bits of a stub', ap[0].l)
            for c, se in (q.ends or {}).items():
                if se[0] is not None and se[1] is not None and T.numericish(se[1]) and T.numericish(se[0]) and eqv(T.sub(se[1], se[0]), n, q.facts) is True:
                    ctr.add(c)
            res.add((ix, pf))
    if len(res) != 1:
        raise Unk('park fields')
    ix, pf = res.pop()
    return ix, pf, ctr


BOUND = (0, 1, 2, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 10239, 10240, 123456, 2048 * 1000, 2**21, 2**31, 2**32 - 1)


def one_path(lp, env, what):
    qs = [q for q in lp['paths'] if not (q.out and q.out[0] in ('throw', 'abort')) and possible(q.facts, env)]
    return qs


def slice_rule(p, e, s, target, ix, pf, pmax):
    """slicing stage: 2048 consecutive points per park -> (location of the park counter or None, location of the points)"""
    f, runs = stage_runs(p, e, s)
    vec = arg_loc(0, ('f', 'first'))
    start = ('rd', arg_loc(0, ('f', 'second')), 0)
    seen = set()
    for s2, v in runs:
        lp = elem_loop(s2, vec)
        takes = [x for x in s2.ev if x.kind == 'take' and obj(x['to']) == target]
        if lp is None:
            continue
        if lp.get('bound') is None:
            raise Bad('not every point is stored', lp.l)
        el = loc_ext(vec, ('f', '#b'), ('e', ('it', lp['id'])))
        it = ('it', lp['id'])
        inl = [x for q in lp['paths'] for x in q.ev if x.kind == 'take' and obj(x['to']) == target]
        if inl:
            raise Unk('parks passed on inside the loop')
        # vector of finished parks
        pushes = [(q, x) for q in lp['paths'] for x in q.ev if x.kind == 'vec' and x['op'] in ('push', 'emplace') and is_rd(x['val']) and is_prefix(el, x['val'][1])]
        vecs = {x['vec'] for q, x in pushes}
        if len(vecs) != 1:
            raise Unk('vector of points') if vecs else Bad('no point is stored', lp.l)
        P = vecs.pop()
        if {x['val'][1][2][len(el[2]):] for q, x in pushes} != {(('f', 'point'),)}:
            raise Bad('the points of a park are not the line points of the entries', lp.l)
        ems = [(q, x) for q in lp['paths'] for x in q.ev if x.kind == 'vec' and x['op'] in ('push', 'emplace') and x['vec'] != P and deep(x['val'], pf) is not None]
        outs = {x['vec'] for q, x in ems}
        if not outs:
            raise Bad('no park is ever completed', lp.l)
        if len(outs) != 1:
            raise Unk('vector of parks')
        O = outs.pop()
        if len(takes) != 1 or obj(takes[0]['ref']) != O:
            if not takes and not (s2.facts and eqv(('rd', loc_ext(O, ('f', '#n')), 0), 0, s2.facts)):
                raise Bad('completed parks are not passed on', lp.l)
            raise Unk('%d blocks of parks passed on' % len(takes))
        for x in s2.ev:
            if x.kind == 'vec' and x['op'] in ('push', 'emplace') and x['vec'] in (O, P):
                env = {at(loc_ext(P, ('f', '#n'))): 5}
                if x['vec'] == O and possible(x.facts, env) and any(ev(y, env) for y in x.facts.items):
                    raise Bad('a park of 5 points is completed at the end of a block', x.l)
                raise Unk('points or parks stored outside of the loop')
        cs = set()
        for q, x in ems:
            t = deep(x['val'], ix)
            for y in T.subterms(t) if t is not None else ():
                if isinstance(y, tuple) and y and y[0] == 'phi' and y[1] == lp['id']:
                    cs.add(y[2])
        if len(cs) > 1:
            raise Unk('park counter')
        C = cs.pop() if cs else None
        for i, sts in [(i, (0,)) for i in BOUND] + [(i, sorted({i, max(0, i - 3)})) for i in BOUND]:
            if i >= 2**pmax:
                continue
            for st0 in sts:
                env = {start: st0, it: i - st0, ('rd', loc_ext(vec, ('f', '#n')), 0): i - st0 + 10}
                env[at(loc_ext(P, ('f', '#n')))] = (i - 1) % 2048 + 1 if i else 0
                for dl in lp['mods']:
                    if is_prefix(P, dl):
                        pass
                if C is not None:
                    env[at(C)] = max(0, (i - 1) // 2048)
                # counters that run with the entries
                for loc, (init, step) in lp['mods'].items():
                    if isinstance(step, int) and not isinstance(step, bool) and init is not None and at(loc) not in env:
                        b = ev(init, env)
                        if b is not None:
                            env[at(loc)] = b + step * (i - st0)
                if st0 == 0:
                    for loc, v0 in e['st'].items():
                        if isinstance(v0, int) and not isinstance(v0, bool) and loc not in lp['mods'] and loc[1][:1] == ('v',) and not any(is_prefix(w, loc) for w in lp['wild']):
                            env.setdefault(at(loc), v0)
                qs = one_path(lp, env, 'entry %d' % i)
                if not qs:
                    raise Unk('no path for entry %d' % i)
                for q in qs:
                    if q.out:
                        if not any(T.contains(x, it) or T.contains(x, start) for x in q.facts.items):
                            raise Unk('loop left')
                        bad = [x for x in q.facts.items if ev(x, env) is None]
                        if bad:
                            raise Unk('loop left')
                        raise Bad('the slicing stops at entry %d' % i, lp.l)
                    em = [x for x in q.ev if x.kind == 'vec' and x['op'] in ('push', 'emplace') and x['vec'] == O]
                    ps = [x for x in q.ev if x.kind == 'vec' and x['op'] in ('push', 'emplace') and x['vec'] == P]
                    sure = all(ev(x, env) is not None for x in q.facts.items)
                    should = i > 0 and i % 2048 == 0
                    def fail(msg, l):
                        if sure or len(qs) == 1:
                            raise Bad(msg, l)
                        raise Unk(msg)
                    if len(ps) != 1:
                        fail('entry %d is stored %d times' % (i, len(ps)), lp.l)
                    if bool(em) != should or len(em) > 1:
                        fail('a park is %scompleted before entry %d' % ('' if em else 'not ', i), lp.l)
                    if em:
                        if q.ev.index(em[0]) > q.ev.index(ps[0]):
                            fail('the first point of a park is stored in the park before', em[0].l)
                        t = deep(em[0]['val'], ix)
                        if t is None:
                            raise Unk('number of the park')
                        expect(t, env, i // 2048 - 1, 'number of the park completed before entry %d' % i, em[0].l)
                    if C is not None:
                        end = (q.ends or {}).get(C)
                        if end is not None:
                            expect(end[1], env, i // 2048, 'park counter after entry %d' % i, lp.l)
                    end = (q.ends or {}).get(loc_ext(P, ('f', '#n')))
                    if end is None or end[1] is None:
                        raise Unk('number of points')
                    expect(end[1], env, i % 2048 + 1, 'points collected after entry %d' % i, lp.l)
        if C is not None:
            init = e['st'].get(C)
            if init != 0:
                if isinstance(init, int):
                    raise Bad('the first park is number %d' % init, e.l)
                raise Unk('start of the park counter')
        if e['st'].get(loc_ext(P, ('f', '#n'))) != 0:
            raise Unk('points at the start')
        seen.add((C, P))
    if len(seen) != 1:
        raise Unk('slicing paths')
    return seen.pop()


def stage2_rule(p, f, r, size, pmax):
    names = [q['n'] for q in f['p']]
    if len(names) < 8:
        raise Unk('parameters of compute_stage2')
    prm = {'L': param(names[0]), 'k': param(names[1]), 'begin': param(names[6]), 'end': param(names[7])}
    file = param(names[5])
    runs = normal(p, f)
    if not runs:
        raise Unk('no normal path')
    grid = [0]
    cache = {}
    hits = 0
    for s, v in runs:
        if null_fact(s.facts, prm['end']) or any(x == ('eq', prm['end']) for x in s.facts.items):
            continue
        st = stages(s)
        fd = [e for e in s.ev if e.kind == 'call' and e['name'] == 'DiskSort::read']
        if len(fd) != 1:
            raise Unk('%d inputs' % len(fd))
        sl = st.get(obj(fd[0]['args'][0]))
        if sl is None:
            raise Unk('slicing stage')
        if sl['cls'] != 'Thread' and sl.get('n') != 1:
            raise Bad('points are sliced into parks by several workers', sl.l)
        pk = [e for e in st.values() if e.get('out') is not None and e['cls'] == 'ThreadPool' and st.get(obj(e.get('out'))) is not None]
        if len(pk) != 1:
            raise Unk('park stage')
        pk = pk[0]
        wr = fwd(p, pk, st)
        key = (sl.l, pk.l, wr.l, show(pk['fn']))
        if key not in cache:
            offf, buff = write_rule(p, wr, s, file)
            ix, pf, ctr = park_rule(p, pk, s, offf, buff, prm, size, grid)
            C, P = slice_rule(p, sl, s, pk['loc'], ix, pf, pmax)
            cache[key] = (offf, buff, ix, pf, ctr, C, P)
            r.count('stage functions', 3)
        offf, buff, ix, pf, ctr, C, P = cache[key]
        takes = [e for e in s.ev if e.kind == 'take' and obj(e['to']) == pk['loc']]
        if any(e.kind == 'take' for e, lo in flat(s.ev) if lo):
            raise Unk('parks passed on in a loop')
        endw = [e for e in s.ev if e.kind == 'wr' and e['loc'] == L(('o', prm['end']))]
        if not endw:
            raise Bad('the end of the table is not handed back', f['l'])
        end = endw[-1]
        closes = [i for i, e in enumerate(s.ev) if e.kind == 'call' and e['name'] in ('Thread::close', 'Thread::wait', 'ThreadPool::close', 'ThreadPool::wait') and obj(e['this']) == sl['loc']]
        if not closes:
            raise Unk('end of the slicing stage')
        for n in BOUND:
            if n > 2**pmax:
                continue
            env = {at(loc_ext(P, ('f', '#n'))): (n - 1) % 2048 + 1 if n else 0, prm['k']: 32, prm['L']: 1, prm['end']: 1}
            if C is not None:
                env[at(C)] = max(0, (n - 1) // 2048)
            for c in ctr:
                env.setdefault(at(c), n)
            for t in (1, 3):
                env[prm['L']] = t
                if not possible(s.facts, env):
                    continue
                hits += 1
                np = 0
                for e in takes:
                    m = ev(deep(e['val'], (('f', '#n'),)), env)
                    if m is None:
                        raise Unk('parks passed on at the end')
                    for j in range(m):
                        t2 = deep(e['val'], (('f', '#b'),) + ((('e', j),) if j else ()) + ix)
                        if t2 is None:
                            raise Unk('last park')
                        expect(t2, env, (n - 1) // 2048, 'number of the last park of %d entries' % n, e.l)
                        np += 1
                if np != (1 if n else 0):
                    raise Bad('with %d entries the last points are written in %d parks' % (n, np), takes[0].l if takes else sl.l)
                for k in KS:
                    env[prm['k']] = k
                    if not possible(s.facts, env):
                        continue
                    for b in (252, 2**38 + 1):
                        env[prm['begin']] = b
                        expect(end['val'], env, b + (n + 2047) // 2048 * size(k, t), 'begin of the next table after %d entries of table %d, k=%d' % (n, t, k), end.l)
                env[prm['k']] = 32
                env.pop(prm['begin'])
        # number of entries
        if ctr:
            if not is_rd(v) or v[1] not in ctr:
                mine = [c for c in ctr if c[1][:1] == ('v',) and c[1][2:3] == (1,)]
                if mine and (isinstance(v, int) or is_rd(v)):
                    raise Bad('the number of entries written is not handed back', f['l'])
                raise Unk('returned value %s' % show(v)[:80])
    if not hits:
        raise Unk('no path of compute_stage2 evaluated')
    r.count('grid points', grid[0] + hits)


def pointer_writes(evs):
    """{offset term: value term} of eight-byte big-endian numbers written"""
    out, last = [], {}
    pos = {}
    for e in evs:
        if e.kind != 'call':
            continue
        a = e.get('args') or ()
        if e['name'] == 'Util::IntToEightBytes':
            last[obj(a[0])] = a[1]
        elif e['name'] == 'fseek_set':
            pos[a[0]] = a[1]
        elif e['name'] in ('fwrite_ex', 'fwrite_at'):
            if e['name'] == 'fwrite_at':
                off, buf, n = a[1], a[2], a[3]
            else:
                off, buf, n = pos.get(a[0]), a[1], a[2]
            if obj(buf) in last and n == 8:
                out.append((a[0], off, last[obj(buf)], e.l))
            pos[a[0]] = T.add(off, n) if off is not None else None
    return out


def compute_rule(p, r):
    fs = [f for f in p.fns('phase3::compute') if f.get('b')]
    if not fs:
        raise Unk('phase3::compute not found')
    f = fs[0]
    runs = normal(p, f)
    if not runs:
        raise Unk('no normal path')
    for s, v in runs:
        if any(e.kind == 'call' and e['name'] in ('phase3::compute_stage2', 'fwrite_ex', 'fwrite_at') for e, lo in flat(s.ev) if lo):
            raise Unk('a loop is not unrolled')
        hd = [e for e in s.ev if e.kind == 'call' and e['name'] == 'phase3::WriteHeader']
        if len(hd) != 1:
            raise Unk('header')
        file = hd[0]['args'][0]
        a = hd[0]['args']
        inp = L(('o', param(f['p'][0]['n'])))
        rd = lambda *q: ('rd', loc_ext(inp, *[('f', x) for x in q]), 0)
        kk = rd('params', 'k')
        for k in KS:
            expect(a[1], {kk: k}, k, 'k in the header', hd[0].l)
        if obj(a[2]) is None or not is_prefix(loc_ext(inp, ('f', 'params'), ('f', 'id')), obj(a[2])):
            raise Unk('plot id in the header')
        if obj(a[3]) is None or not is_prefix(loc_ext(inp, ('f', 'params'), ('f', 'memo')), obj(a[3])):
            raise Unk('memo in the header')
        mn = rd('params', 'memo', '#n')
        expect(a[4], {mn: 128}, 128, 'length of the memo in the header', hd[0].l)
        op = [e for e in s.ev if e.kind == 'call' and e['name'] == 'fopen' and e['ret'] == file]
        if len(op) != 1:
            raise Unk('file')
        if op[0]['args'][1] not in (('str', 'wb'), ('str', 'wb+'), ('str', 'w+b'), ('str', 'w'), ('str', 'w+')):
            if isinstance(op[0]['args'][1], tuple) and op[0]['args'][1][0] == 'str':
                raise Bad('the plot file is opened with mode "%s": an old file is not replaced' % op[0]['args'][1][1], op[0].l)
            raise Unk('mode')
        calls = [e for e in s.ev if e.kind == 'call' and e['name'] == 'phase3::compute_stage2']
        if [e['args'][0] for e in calls] != [1, 2, 3, 4, 5, 6]:
            raise Bad('the tables are not written once each, from 1 to 6 (%s)' % [show(e['args'][0]) for e in calls], calls[0].l if calls else f['l'])
        begin = HEADER
        for n, e in enumerate(calls):
            if e['args'][5] != file:
                raise Unk('file of table %d' % (n + 1))
            for k in (16, 32, 34):
                expect(e['args'][1], {kk: k}, k, 'k of table %d' % (n + 1), e.l)
            b = e['args'][6]
            if b != begin:
                syms = {HEADER: 252}
                syms.update({('sym', 'end%d' % j): 10**6 * (j + 1) for j in range(6)})
                v = ev(b, syms)
                if v is None:
                    raise Unk('begin of table %d: %s' % (n + 1, show(b)[:80]))
                if v != syms[begin]:
                    raise Bad('table %d does not begin where the section before it ends' % (n + 1), e.l)
            if obj(e['args'][7]) is None:
                if e['args'][7] == 0:
                    raise Bad('the end of table %d is not recorded' % (n + 1), e.l)
                raise Unk('end of table %d' % (n + 1))
            begin = ('sym', 'end%d' % n)
        syms = {HEADER: 252}
        syms.update({('sym', 'end%d' % j): 10**6 * (j + 1) for j in range(6)})
        got = {}
        for fl, off, val, l in pointer_writes(s.ev):
            if fl != file:
                continue
            o, v = ev(off, syms) if off is not None else None, ev(val, syms)
            if o is None or v is None:
                raise Unk('pointer %s at %s' % (show(val)[:60], show(off)[:60] if off is not None else '?'))
            got[o] = (v, l)
        exp = {252 - 80 + 8 * j: syms[HEADER if j == 0 else ('sym', 'end%d' % (j - 1))] for j in range(7)}
        if not got:
            raise Bad('no table pointer is written', f['l'])
        for o, v in sorted(exp.items()):
            if o not in got:
                raise Bad('the pointer of table %d is not written (80 bytes before the end of the header)' % ((o - 172) // 8 + 1), sorted(got.items())[0][1][1])
            if got[o][0] != v:
                raise Bad('the pointer of table %d does not hold the offset where the table was written' % ((o - 172) // 8 + 1), got[o][1])
        for o in got:
            if o not in exp:
                raise Bad('a pointer is written outside of the pointer table (header end %+d)' % (o - 252), got[o][1])
        # handed on
        out = L(('o', param(f['p'][1]['n'])))
        st = lambda n: s.store.get(loc_ext(out, ('f', n)))
        for n, e2, what in (('header_size', HEADER, 'the size of the header'), ('final_pointer_7', ('sym', 'end5'), 'the begin of table 7'), ('num_written_7', ('sym', 'written5'), 'the number of entries of table 7')):
            v = st(n)
            if v is None:
                raise Bad('%s is not handed on' % what, f['l'])
            if v != e2:
                env = dict(syms)
                env.update({('sym', 'written%d' % j): 7 + j for j in range(6)})
                x = ev(v, env)
                if x is None:
                    raise Unk('%s: %s' % (what, show(v)[:60]))
                if x != env[e2]:
                    raise Bad('%s is handed on wrongly' % what, f['l'])
        if st('plot_file_name') is not None and op[0]['args'][0] != st('plot_file_name') and eqv(op[0]['args'][0], st('plot_file_name')) is False:
            raise Bad('the name handed on is not that of the file', op[0].l)
        v = st('sort_7')
        if v is None:
            raise Unk('table 7 handed on')
        if v != calls[5]['args'][4] and obj(v) is not None and obj(calls[5]['args'][4]) is not None:
            raise Bad('the sort of table 7 handed on is not the one filled with table 6', f['l'])
        r.count('paths')


# ---- phase 4 -----------------------------------------------------------------
M1, M2, EP = 10000, 100000000, 2048
cd = lambda a, b: -(-a // b)
NS = (0, 1, 2, 2047, 2048, 2049, 4096, 9999, 10000, 10001, 10002, 19999, 20000, 20001, 20480, 1280000, 10**8 - 1, 10**8, 10**8 + 1, 3 * 10**8 + 5, 2**32 - 1)
TEMPL = [
    ('parks', lambda i: max(0, (i - 1) // EP), 2048),
    ('c1', lambda i: cd(i, M1), 0),
    ('c2', lambda i: cd(i, M2), 0),
    ('all', lambda i: i, 0),
    ('inpark', lambda i: (i - 1) % EP + 1 if i else 0, None),
    ('indelta', lambda i: (i - 1) % M1 if i else 0, None),
]


def infer(lp, init, base, start, it, nloc):
    """values of the loop-carried scalars before entry i: {loc: (name, function of (i, env0))}, checked to be inductive at every boundary"""
    out = {}
    pts = sorted(set(NS))
    for loc, (i0, step) in lp['mods'].items():
        if loc not in init:
            continue
        v0 = ev(init[loc], base)
        if v0 is None:
            continue
        for name, fn, at0 in TEMPL:
            def val(i, c):
                return v0 + c * fn(i) if at0 is not None else fn(i)
            cs = [1] if at0 is None else None
            if cs is None:
                env = dict(base)
                env.update({start: at0, it: 0, nloc: 10, ('at', loc): v0})
                ds = set()
                for q in lp['paths']:
                    if q.out or not possible(q.facts, env):
                        continue
                    e = (q.ends or {}).get(loc)
                    v = ev(e[1], env) if e is not None and e[1] is not None else None
                    if e is None:
                        v = v0
                    ds.add(None if v is None else v - v0)
                cs = [d for d in ds if d] if None not in ds else []
                if len(cs) != 1:
                    continue
            elif v0 != 0:
                continue
            c = cs[0]
            good = True
            for i in pts:
                env = dict(base)
                env.update({start: i, it: 0, nloc: 10, ('at', loc): val(i, c)})
                hit = 0
                for q in lp['paths']:
                    if q.out or not possible(q.facts, env):
                        continue
                    e = (q.ends or {}).get(loc)
                    v = ev(e[1], env) if e is not None and e[1] is not None else (val(i, c) if e is None or e[1] is None else None)
                    if v is None or v != val(i + 1, c):
                        good = False
                        break
                    hit += 1
                if not good or not hit:
                    good = False
                    break
            if good:
                out[loc] = (name, (lambda i, v0=v0, c=c, fn=fn, at0=at0: v0 + c * fn(i) if at0 is not None else fn(i)))
                break
    return out


SIM = {0, 1, 2, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 10001, 10002, 19999, 20000, 20001}


def history(lp, init, base, start, it, nloc, keyt):
    """(i, env, paths) for the first entries of the table: the loop-carried scalars are followed from their initial values through the summaries of the loop body; ends when the path is not unique"""
    vals = {}
    for loc in lp['mods']:
        v0 = ev(init.get(loc), base) if loc in init else None
        if v0 is not None:
            vals[loc] = v0
    for i in range(max(SIM) + 1):
        env = dict(base)
        env.update({start: i, it: 0, nloc: 10, keyt: 1000 + 3 * i})
        for loc, v in vals.items():
            env[('at', loc)] = v
        qs = [q for q in lp['paths'] if possible(q.facts, env)]
        if i in SIM:
            yield i, env, qs
        if len(qs) != 1:
            return
        nv = {}
        for loc, v in vals.items():
            e = (qs[0].ends or {}).get(loc)
            if e is None or e[1] is None:
                nv[loc] = v
            else:
                x = ev(e[1], env)
                if x is not None:
                    nv[loc] = x
        vals = nv


def bits_value(evs, buf):
    """the value and width of the single number written with ToBytes into buf: (value, width)"""
    made = {}
    res = None
    for e in evs:
        if e.kind != 'call' or not e['name'].startswith('BitsGeneric::'):
            continue
        m = e['name'].split('::')[1]
        o = obj(e.get('this'))
        if m == 'BitsGeneric':
            made[o] = e['args'] if len(e['args']) == 2 else ()
        elif m == 'ToBytes':
            b = obj(e['args'][0])
            if b == buf:
                res = made.get(o)
        elif o in made:
            made[o] = None
    return res


def phase4_rule(p, r, c3size):
    fs = [f for f in p.fns('phase4::compute') if f.get('b') and 'FILE' in f['p'][0]['t']]
    if not fs:
        raise Unk('phase4::compute not found')
    f = fs[0]
    names = [q['n'] for q in f['p']]
    if len(names) != 7:
        raise Unk('parameters')
    P = [param(n) for n in names]
    file, K, H, TH, B7, N = P[0], P[1], P[2], P[4], P[5], P[6]
    runs = normal(p, f)
    if not runs:
        raise Unk('no normal path')
    done = set()
    cov = set()
    for s, v in runs:
        st = stages(s)
        fd = [e for e in s.ev if e.kind == 'call' and e['name'] == 'DiskSort::read']
        if len(fd) != 1:
            raise Unk('input')
        rs = st.get(obj(fd[0]['args'][0]))
        if rs is None:
            raise Unk('reading stage')
        if rs['cls'] != 'Thread' and rs.get('n') != 1:
            raise Bad('the checkpoints are computed by several workers', rs.l)
        pools = [e for e in st.values() if e['cls'] == 'ThreadPool']
        wrs = {obj(e.get('out')) for e in pools}
        if len(pools) != 2 or len(wrs) != 1 or st.get(list(wrs)[0]) is None:
            raise Unk('stages of phase 4')
        wr = st[list(wrs)[0]]
        p7 = [e for e in pools if e['ty'].startswith('ThreadPool<std::vector<')]
        c3 = [e for e in pools if e not in p7]
        if len(p7) != 1 or len(c3) != 1:
            raise Unk('stages of phase 4')
        p7, c3 = p7[0], c3[0]
        ks = [k for k in KS if possible(s.facts, {K: k})]
        if not ks:
            continue
        key = tuple(sorted((e.l, show(e['fn'])) for e in st.values()))
        if key not in done:
            done.add(key)
            offf, buff = write_rule(p, wr, s, file)
            p7o, p7a = p7_rule(p, p7, s, offf, buff, K, ks)
            c3o, c3d = c3_rule(p, c3, s, offf, buff, K, ks, c3size)
            read_rule(p, rs, s, st, wr, p7, c3, (offf, buff, p7o, p7a, c3o, c3d), (K, B7, N), ks, c3size, r)
            r.count('stage functions', 4)
        final_rule(p, s, v, rs, wr, p7, c3, (offf, buff, p7o, p7a, c3o, c3d), (file, K, H, B7, N), ks, c3size, r)
        cov |= set(ks)
    if cov != set(KS):
        raise Unk('k %s not covered' % sorted(set(KS) - cov))


def p7_rule(p, e, s, offf, buff, K, ks):
    f, runs = stage_runs(p, e, s)
    vec, out = arg_loc(0), arg_loc(1)
    res = set()
    for s2, v in runs:
        lp = elem_loop(s2, vec)
        if lp is None:
            continue
        if lp.get('bound') is None:
            raise Bad('not every park of table 7 is written', lp.l)
        el = loc_ext(vec, ('f', '#b'), ('e', ('it', lp['id'])))
        for q in through(lp):
            if q.out:
                raise Bad('not every park of table 7 is written', lp.l)
            ps = [x for x in q.ev if x.kind == 'vec' and x['op'] in ('push', 'emplace') and x['vec'] == out]
            if len(ps) != 1:
                raise Bad('a park of table 7 is passed on %d times' % len(ps), lp.l)
            off, bn = deep(ps[0]['val'], offf), deep(ps[0]['val'], buff + (('f', '#n'),))
            if not is_rd(off) or not is_prefix(el, off[1]):
                if isinstance(off, int):
                    raise Bad('the offset of a park of table 7 is lost', ps[0].l)
                raise Unk('offset of a park of table 7')
            for k in ks:
                expect(bn, {K: k}, cd((k + 1) * EP, 8), 'size of a park of table 7, k=%d' % k, ps[0].l)
            il = [x for x in q.ev if x.kind == 'loop']
            tb = [x for x in q.ev if x.kind == 'call' and x['name'] == 'BitsGeneric::ToBytes']
            if len(il) != 1 or len(tb) != 1:
                raise Unk('content of a park of table 7')
            il, tb = il[0], tb[0]
            if q.ev.index(tb) < q.ev.index(il):
                raise Bad('a park of table 7 is converted before its entries are added', tb.l)
            if il.get('bound') is None or not is_rd(il['bound']) or not is_prefix(el, il['bound'][1]) or il['bound'][1][2][-1] != ('f', '#n'):
                raise Unk('entries of a park of table 7')
            af = il['bound'][1][2][len(el[2]):-1]
            ent = loc_ext(el, *(af + (('f', '#b'), ('e', ('it', il['id'])))))
            for q2 in through(il):
                if q2.out:
                    raise Bad('entries of a park of table 7 are left out', il.l)
                bs = [x for x in q2.ev if x.kind == 'call' and x['name'].startswith('BitsGeneric::') and '~' not in x['name']]
                add = [x for x in bs if x['name'].split('::')[1] in ('operator+=', 'AppendValue')]
                if len(add) != 1 or obj(add[0]['this']) != obj(tb['this']):
                    raise Unk('bits of an entry') if add else Bad('an entry of table 7 is not stored', il.l)
                if add[0]['name'].endswith('AppendValue'):
                    a = add[0]['args']
                else:
                    mk = [x for x in bs if x['name'] == 'BitsGeneric::BitsGeneric']
                    if len(mk) != 1:
                        raise Unk('bits of an entry')
                    a = mk[0]['args']
                for k in ks:
                    expect(a[1], {K: k}, k + 1, 'bits of an entry of table 7', add[0].l)
                    expect(a[0], {at(ent): 12345}, 12345, 'entry of table 7', add[0].l)
            res.add((off[1][2][len(el[2]):], af))
    if len(res) != 1:
        raise Unk('park fields')
    return res.pop()


def c3_rule(p, e, s, offf, buff, K, ks, c3size):
    f, runs = stage_runs(p, e, s)
    out = arg_loc(1)
    res = set()
    for s2, v in runs:
        ps = [x for x in s2.ev if x.kind == 'vec' and x['op'] in ('push', 'emplace') and x['vec'] == out]
        if len(ps) != 1:
            raise Bad('a C3 park is passed on %d times' % len(ps), e.l)
        off, bn = deep(ps[0]['val'], offf), deep(ps[0]['val'], buff + (('f', '#n'),))
        if not is_rd(off) or not is_prefix(arg_loc(0), off[1]):
            raise Unk('offset of a C3 park')
        for k in ks:
            expect(bn, {K: k}, c3size(k), 'size of a C3 park, k=%d' % k, ps[0].l)
        en = [x for x in s2.ev if x.kind == 'call' and x['name'] == 'Encoding::ANSEncodeDeltas']
        tw = [x for x in s2.ev if x.kind == 'call' and x['name'].startswith('Util::IntToTwoBytes')]
        if len(en) == 1 and not tw:
            b = obj(en[0]['args'][2])
            if b is not None and not [x for x in s2.ev if x.kind == 'wr' and x['loc'][1] == b[1] and ('f', '#b') in x['loc'][2]] and not [
                    x for x in s2.ev if x.kind == 'call' and x is not en[0] and any(obj(y) is not None and obj(y)[1] == b[1] for y in (x.get('args') or ()))]:
                raise Bad('the size of a C3 park is not stored', e.l)
        if len(en) != 1 or len(tw) != 1:
            raise Unk('content of a C3 park')
        d = en[0]['args'][0]
        dl = obj(d) if obj(d) is not None else (d[1] if is_rd(d) else None)
        if dl is None or not is_prefix(arg_loc(0), dl):
            raise Unk('deltas of a C3 park')
        o1, o2 = obj(en[0]['args'][2]), obj(tw[0]['args'][0])
        if tw[0]['name'].endswith('LE'):
            raise Bad('the size of a C3 park is stored with the wrong byte order', tw[0].l)
        if o1 is None or o2 is None:
            raise Unk('content of a C3 park')
        i1 = [x[1] for x in o1[2] if x[0] == 'e'] or [0]
        i2 = [x[1] for x in o2[2] if x[0] == 'e'] or [0]
        if i2[-1] != 0 or i1[-1] != 2:
            if isinstance(i1[-1], int) and isinstance(i2[-1], int):
                raise Bad('a C3 park is not stored as two size bytes followed by the deltas', en[0].l)
            raise Unk('content of a C3 park')
        val = tw[0]['args'][1]
        if val != en[0]['ret'] and not (isinstance(val, tuple) and val[0] == 'cast' and val[2] == en[0]['ret']):
            if ev(T.sub(val, en[0]['ret']) if T.numericish(val) else None, {}) not in (None, 0):
                raise Bad('the stored size of a C3 park is not the number of bytes', tw[0].l)
            raise Unk('size of a C3 park')
        for k in ks:
            for n in (c3size(k) - 1, c3size(k), c3size(k) + 5):
                if possible(s2.facts, {K: k, en[0]['ret']: n}) and possible(s.facts, {K: k}):
                    raise Bad('a C3 park that does not fit is written (k=%d, %d bytes)' % (k, n + 2), e.l)
            if not possible(s2.facts, {K: k, en[0]['ret']: c3size(k) - 2}):
                raise Unk('C3 park of full size')
        res.add((off[1][2][len(arg_loc(0)[2]):], dl[2][len(arg_loc(0)[2]):]))
    if len(res) != 1:
        raise Unk('C3 fields')
    return res.pop()


def sections(k, b7, n, c3size):
    cb = cd(k, 8)
    ps = cd((k + 1) * EP, 8)
    parks = (max(n, 1) - 1) // EP + 1
    c1 = b7 + parks * ps
    e1 = cd(n, M1)
    c2 = c1 + (e1 + 1) * cb
    e2 = cd(e1, M1)
    c3 = c2 + (e2 + 1) * cb
    return cb, ps, c1, c2, c3, c3 + e1 * c3size(k)


def read_rule(p, e, s, st, wr, p7, c3, fields, prm, ks, c3size, r):
    offf, buff, p7o, p7a, c3o, c3d = fields
    K, B7, N = prm
    f, runs = stage_runs(p, e, s)
    vec = arg_loc(0, ('f', 'first'))
    start = ('rd', arg_loc(0, ('f', 'second')), 0)
    nloc = ('rd', loc_ext(vec, ('f', '#n')), 0)
    for s2, v in runs:
        lp = elem_loop(s2, vec)
        if lp is None:
            continue
        if lp.get('bound') is None:
            raise Bad('not every entry of table 7 is processed', lp.l)
        it = ('it', lp['id'])
        el = loc_ext(vec, ('f', '#b'), ('e', it))
        keyt = ('rd', loc_ext(el, ('f', 'key')), 0)
        after = [x for x in s2.ev[s2.ev.index(lp):] if x.kind == 'take']
        t7 = [x for x in after if obj(x['to']) == p7['loc']]
        for q in through(lp):
            if q.out:
                raise Bad('entries of table 7 are left out', lp.l)
        if len(t7) != 1:
            raise Bad('completed parks of table 7 are not passed on', lp.l) if not after else Unk('parks of table 7')
        O = obj(t7[0]['ref'])
        # the first entries of a table
        k, b7, n = ks[-1], 2**20 + 3, 2**32 - 1
        cb, ps, c1, c2b, c3b, end = sections(k, b7, n, c3size)
        for i, env, qs in history(lp, e['st'], {K: k, B7: b7, N: n}, start, it, nloc, keyt):
            try:
                for q in qs:
                    entry(q, qs, i, env, el, keyt, O, (wr, p7, c3), fields, (k, cb, ps, c1, c3b, b7), c3size, lp)
            except Unk:
                pass
            r.count('grid points')
        for k in (ks if len(ks) <= 4 else ks[:2] + [x for x in ks if x in (31, 32, 33)]):
            for b7, n in ((2**20 + 3, 2**32 - 1), (2**36, 25000)):
                cb, ps, c1, c2b, c3b, end = sections(k, b7, n, c3size)
                base = {K: k, B7: b7, N: n, keyt: 1000}
                inv = infer(lp, e['st'], base, start, it, nloc)
                e.d.setdefault('invs', {})[(k, b7, n)] = inv
                for i in NS:
                    env = dict(base)
                    env.update({start: i, it: 0, nloc: 10})
                    for loc, (nm, fn) in inv.items():
                        env[('at', loc)] = fn(i)
                    qs = [q for q in lp['paths'] if not q.out and possible(q.facts, env)]
                    if not qs:
                        raise Unk('no path for entry %d' % i)
                    for q in qs:
                        entry(q, qs, i, env, el, keyt, O, (wr, p7, c3), fields, (k, cb, ps, c1, c3b, b7), c3size, lp)
                        r.count('grid points')


def entry(q, qs, i, env, el, keyt, O, tg, fields, nums, c3size, lp):
    wr, p7, c3 = tg
    offf, buff, p7o, p7a, c3o, c3d = fields
    k, cb, ps, c1, c3b, b7 = nums
    sure = len(qs) == 1 or all(ev(x, env) is not None for x in q.facts.items)

    def fail(msg, l):
        raise Bad(msg, l) if sure else Unk(msg)
    takes = [x for x in q.ev if x.kind == 'take']
    pushes = [x for x in q.ev if x.kind == 'vec' and x['op'] in ('push', 'emplace')]
    # table 7 parks
    em = [x for x in pushes if x['vec'] == O]
    should = i > 0 and i % EP == 0
    if len(em) != int(should):
        fail('%s park of table 7 is completed before entry %d' % ('no' if not em else 'a', i), lp.l)
    if em:
        expect(deep(em[0]['val'], p7o), env, b7 + (i // EP - 1) * ps, 'offset of park %d of table 7' % (i // EP - 1), em[0].l)
        n = deep(em[0]['val'], p7a + (('f', '#n'),))
        if n is None:
            raise Unk('entries of a park of table 7')
        expect(n, env, EP, 'entries of a completed park of table 7', em[0].l)
    en = [x for x in pushes if is_rd(x['val']) and is_prefix(el, x['val'][1]) and x['val'][1][2][-1] == ('f', 'pos')]
    if len(en) != 1:
        fail('entry %d is stored %d times in table 7' % (i, len(en)), lp.l)
    if em and q.ev.index(em[0]) > q.ev.index(en[0]):
        fail('the first entry of a park of table 7 is stored in the park before', em[0].l)
    # C1
    w = [x for x in takes if obj(x['to']) == wr['loc']]
    should = i % M1 == 0
    if len(w) != int(should):
        fail('%d C1 entries are written for entry %d' % (len(w), i), lp.l)
    if w:
        m = ev(deep(w[0]['val'], (('f', '#n'),)), env)
        if m != 1:
            raise Unk('C1 entry')
        x = (('f', '#b'),)
        expect(deep(w[0]['val'], x + offf), env, c1 + i // M1 * cb, 'offset of C1 entry %d, k=%d' % (i // M1, k), w[0].l)
        expect(deep(w[0]['val'], x + buff + (('f', '#n'),)), env, cb, 'size of a C1 entry, k=%d' % k, w[0].l)
        tb = [x for x in q.ev if x.kind == 'call' and x['name'] == 'BitsGeneric::ToBytes']
        mk = [x for x in q.ev if x.kind == 'call' and x['name'] == 'BitsGeneric::BitsGeneric' and len(x['args']) == 2]
        if len(tb) != 1 or len(mk) != 1:
            raise Unk('content of a C1 entry')
        expect(mk[0]['args'][0], env, env[keyt], 'value of a C1 entry', mk[0].l)
        expect(mk[0]['args'][1], env, k, 'bits of a C1 entry', mk[0].l)
    # C3
    w = [x for x in takes if obj(x['to']) == c3['loc']]
    should = i % M1 == 0 and i > 0
    if len(w) != int(should):
        fail('%d C3 parks are completed before entry %d' % (len(w), i), lp.l)
    if w:
        expect(deep(w[0]['val'], c3o), env, c3b + (i // M1 - 1) * c3size(k), 'offset of C3 park %d, k=%d' % (i // M1 - 1, k), w[0].l)
        n = deep(w[0]['val'], c3d + (('f', '#n'),))
        if n is None:
            raise Unk('deltas of a C3 park')
        expect(n, env, M1 - 1, 'deltas of a completed C3 park', w[0].l)
    # C2
    pk = [x for x in pushes if x['val'] == keyt or isinstance(x['val'], tuple) and x['val'][0] == 'cast' and x['val'][2] == keyt]
    should = i % M2 == 0
    if len(pk) != int(should):
        fail('%d C2 entries are made for entry %d' % (len(pk), i), lp.l)
    # deltas
    ds = [x for x in pushes if x not in pk and x not in en and x not in em and T.contains(x['val'], keyt)]
    if len(ds) != int(i % M1 != 0):
        fail('%d deltas are stored for entry %d' % (len(ds), i), lp.l)
    if ds:
        pv = [y for y in T.subterms(ds[0]['val']) if isinstance(y, tuple) and y and y[0] == 'phi']
        if len(pv) != 1:
            raise Unk('delta')
        e2 = dict(env)
        if ev(pv[0], env) is not None:
            expect(ds[0]['val'], env, env[keyt] - (1000 + 3 * (i - 1)), 'delta of entry %d' % i, ds[0].l)
        e2[pv[0]] = env[keyt] - 7
        expect(ds[0]['val'], e2, 7, 'delta of entry %d' % i, ds[0].l)
        for q3 in qs:
            end = (q3.ends or {}).get(pv[0][2])
            if end is None or ev(end[1], e2) is None:
                raise Unk('previous value')
            if ev(end[1], e2) != env[keyt]:
                fail('the delta of the next entry is not taken from this entry', lp.l)
    elif i:
        pass


def final_rule(p, s, ret, rs, wr, p7, c3, fields, prm, ks, c3size, r):
    offf, buff, p7o, p7a, c3o, c3d = fields
    file, K, H, B7, N = prm
    takes = [e for e in s.ev if e.kind == 'take']
    invs = rs.d.get('invs')
    if invs is None:
        for e in s.ev:
            if e.kind == 'stage' and e.d.get('invs'):
                invs = e['invs']
    if not invs:
        raise Unk('summary of the reading stage')
    lp2 = [e for e in s.ev if e.kind == 'loop' and any(x.kind == 'call' and x['name'] == 'fwrite_at' for x, lo in flat([e]))]
    if len(lp2) > 1:
        raise Unk('loops writing C2')
    names = {}
    for (k, b7, n0), inv in invs.items():
        for loc, (nm, fn) in inv.items():
            names[loc] = nm
    hit = 0
    for (k, b7, n0), inv in invs.items():
        if k not in ks:
            continue
        for n in NS:
            cb, ps, c1, c2b, c3b, end = sections(k, b7, n, c3size)
            env = {K: k, B7: b7, N: n, H: 252, file: 1}
            # the invariants are relative to the start values, which depend on the number of entries
            for loc, (nm, fn) in inv.items():
                i0 = rs['st'].get(loc)
                v0 = ev(i0, env)
                v00 = ev(i0, {K: k, B7: b7, N: n0})
                if v0 is None or v00 is None:
                    continue
                env[('at', loc)] = fn(n) - v00 + v0 if nm not in ('inpark', 'indelta') else fn(n)
            if not possible(s.facts, env):
                continue
            hit += 1
            expect(ret, env, end, 'plot size with %d entries, k=%d' % (n, k), '')
            t7 = [e for e in takes if obj(e['to']) == p7['loc']]
            m = 0
            for e in t7:
                c = ev(deep(e['val'], (('f', '#n'),)), env)
                if c is None:
                    raise Unk('last park of table 7')
                m += c
            if m != 1:
                if n == 0 and m == 0:
                    pass
                else:
                    raise Bad('with %d entries %d last parks of table 7 are written' % (n, m), rs.l)
            if m:
                expect(deep(t7[0]['val'], (('f', '#b'),) + p7o), env, b7 + (max(n, 1) - 1) // EP * ps, 'offset of the last park of table 7 (%d entries)' % n, t7[0].l)
            t3 = [e for e in takes if obj(e['to']) == c3['loc']]
            need = n > 0 and (n - 1) % M1 != 0
            if need and len(t3) != 1 or not need and len(t3) > 1:
                raise Bad('with %d entries %d last C3 parks are written' % (n, len(t3)), rs.l)
            if need:
                expect(deep(t3[0]['val'], c3o), env, c3b + (n - 1) // M1 * c3size(k), 'offset of the last C3 park (%d entries)' % n, t3[0].l)
            elif t3 and n:
                expect(deep(t3[0]['val'], c3o), env, c3b + (n - 1) // M1 * c3size(k), 'offset of the last C3 park (%d entries)' % n, t3[0].l)
            # direct writes
            e1 = cd(n, M1)
            seen = {}
            last = {}
            bitsv = {}
            for x in s.ev:
                if x.kind == 'call' and x['name'] == 'BitsGeneric::ToBytes':
                    last[obj(x['args'][0])] = ('bits', x)
                if x.kind == 'call' and x['name'] == 'Util::IntToEightBytes':
                    last[obj(x['args'][0])] = ('ptr', x)
                if x.kind == 'call' and x['name'] in ('fwrite_at', 'fwrite_ex', 'fseek_set'):
                    if x['name'] != 'fwrite_at':
                        raise Unk('writes of phase 4')
                    a = x['args']
                    off, sz = ev(a[1], env), ev(a[3], env)
                    if off is None or sz is None:
                        raise Unk('write at %s' % show(a[1])[:100])
                    seen[off] = (sz, last.get(obj(a[2])), x)
                if x in lp2:
                    for q in through(x):
                        if q.out:
                            raise Bad('C2 entries are left out', x.l)
                        ws = [y for y in q.ev if y.kind == 'call' and y['name'] == 'fwrite_at']
                        if len(ws) != 1:
                            raise Bad('a C2 entry is written %d times' % len(ws), x.l)
                        cnt = cd(n, M2)
                        env2 = dict(env)
                        if x.get('bound') is None:
                            raise Bad('not every C2 entry is written', x.l)
                        bl = [y for y in T.subterms(x['bound']) if is_rd(y)]
                        if ev(x['bound'], env2) is None:
                            if is_rd(x['bound']):
                                env2[x['bound']] = cnt
                        expect(x['bound'], env2, cnt, 'number of C2 entries written', x.l)
                        for j in {0, cnt // 2, max(0, cnt - 1)}:
                            if j >= cnt:
                                continue
                            e3 = dict(env2)
                            e3[('it', x['id'])] = j
                            for loc, (i0, stp) in x['mods'].items():
                                b0, sv = ev(i0, env) if i0 is not None else None, ev(stp, env) if stp is not None else None
                                if b0 is not None and sv is not None:
                                    e3[('phi', x['id'], loc)] = b0 + sv * j
                            expect(ws[0]['args'][1], e3, c2b + j * cb, 'offset of C2 entry %d (%d entries, k=%d)' % (j, n, k), ws[0].l)
                            expect(ws[0]['args'][3], e3, cb, 'size of a C2 entry', ws[0].l)
                        mk = [y for y in q.ev if y.kind == 'call' and y['name'] == 'BitsGeneric::BitsGeneric' and len(y['args']) == 2]
                        if len(mk) == 1:
                            expect(mk[0]['args'][1], env, k, 'bits of a C2 entry', mk[0].l)
                    for loc, (i0, stp) in x['mods'].items():
                        b0, sv = ev(i0, env) if i0 is not None else None, ev(stp, env) if stp is not None else None
                        if b0 is not None and sv is not None:
                            env[('phx', x['id'], loc)] = b0 + sv * cd(n, M2)
            for off, what in ((c1 + e1 * cb, 'C1'), (c2b + cd(n, M2) * cb, 'C2')):
                if off not in seen or seen[off][0] != cb:
                    raise Bad('the end mark of %s is not written at its place (%d entries, k=%d)' % (what, n, k), [x for z in seen.values() for x in [z[2].l]][0] if seen else '')
            ptrs = {252 - 24: c1, 252 - 16: c2b, 252 - 8: c3b}
            for o, val in ptrs.items():
                if o not in seen or seen[o][0] != 8 or seen[o][1] is None or seen[o][1][0] != 'ptr':
                    raise Bad('pointer %d is not written at its place in the header' % (8 + (o - 228) // 8), seen[max(seen)][2].l if seen else '')
                expect(seen[o][1][1]['args'][1], env, val, 'pointer %d with %d entries, k=%d' % (8 + (o - 228) // 8, n, k), seen[o][2].l)
            for o in seen:
                if o not in ptrs and o not in (c1 + e1 * cb, c2b + cd(n, M2) * cb):
                    raise Bad('something is written at offset %d, outside of the sections (%d entries, k=%d)' % (o, n, k), seen[o][2].l)
            r.count('grid points')
    if not hit:
        r.count('paths not reached')


def outer_rule(p, r):
    fs = [f for f in p.fns('phase4::compute') if f.get('b') and 'FILE' not in f['p'][0]['t']]
    inner = [f for f in p.fns('phase4::compute') if f.get('b') and 'FILE' in f['p'][0]['t']]
    if not fs or not inner:
        raise Unk('phase4::compute not found')
    f = fs[0]
    class C(LayCfg):
        def opaque(self, eng, g):
            return g['id'] == inner[0]['id'] or LayCfg.opaque(self, eng, g)
    runs = [(s, v) for s, v in Engine(p, C()).run(f) if not s.out or s.out[0] == 'ret']
    if not runs:
        raise Unk('no normal path')
    inp = L(('o', param(f['p'][0]['n'])))
    out = L(('o', param(f['p'][1]['n'])))
    rd = lambda *q: ('rd', loc_ext(inp, *[('f', x) for x in q]), 0)
    for s, v in runs:
        cs = [e for e in s.ev if e.kind == 'call' and e['name'] == 'phase4::compute']
        op = [e for e in s.ev if e.kind == 'call' and e['name'] == 'fopen']
        if len(cs) != 1 or len(op) != 1:
            raise Unk('calls of phase4::compute')
        a = cs[0]['args']
        md = op[0]['args'][1]
        if isinstance(md, tuple) and md[0] == 'str':
            if md[1] not in ('rb+', 'r+b', 'r+'):
                raise Bad('the plot file is opened with mode "%s", which %s' % (md[1], 'discards its content' if 'w' in md[1] else 'does not allow to write at an offset'), op[0].l)
        if op[0]['args'][0] != rd('plot_file_name'):
            raise Unk('file name')
        if a[0] != op[0]['ret']:
            raise Unk('file')
        for i, (t, what) in {1: (rd('params', 'k'), 'k'), 2: (rd('header_size'), 'header size'), 5: (rd('final_pointer_7'), 'begin of table 7'), 6: (rd('num_written_7'), 'number of entries')}.items():
            env = {rd('params', 'k'): 32, rd('header_size'): 252, rd('final_pointer_7'): 10**10 + 1, rd('num_written_7'): 10**9 + 7}
            expect(a[i], env, env[t], what + ' handed to phase 4', cs[0].l)
        z = s.store.get(loc_ext(out, ('f', 'plot_size')))
        if z is not None and z != cs[0]['ret'] and isinstance(z, int):
            raise Bad('the plot size is not handed on', cs[0].l)


def check(r, p, sizes):
    H = 'include/chia/phase3.hpp: '
    pmax = 32 if p.tag == 'K32' else 34
    for f in p.fns('phase3::compute_stage2'):
        if f.get('b'):
            rule(r, 'parks of a table, ' + p.tag, H + 'compute_stage2', 'compute_stage2', lambda: stage2_rule(p, f, r, sizes['park'], pmax))
            r.saw('phase3::compute_stage2')
    rule(r, 'chain of table pointers, ' + p.tag, H + 'compute', 'phase3::compute', lambda: compute_rule(p, r))
    r.saw('phase3::compute')
    H = 'include/chia/phase4.hpp: '
    rule(r, 'sections of phase 4, ' + p.tag, H + 'compute', 'phase4::compute', lambda: phase4_rule(p, r, sizes['c3']))
    r.saw('phase4::compute')
    rule(r, 'arguments of phase 4, ' + p.tag, H + 'compute', 'phase4::compute', lambda: outer_rule(p, r))
