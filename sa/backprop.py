"""Back-propagation stages (phase 2 and the table 1 filter of phase 3) as per-entry summaries.

A stage function that walks over its input vector is summarised per entry: for every path of the loop body, the bitmap bits tested, the bits set, and
the records appended.  The rules of C16 are stated on these summaries and on the order of events of the function that builds the stages."""
from .prog import base, walk
from .engine import Engine, State, L, show, is_prefix, loc_ext
from .pipe import PipeCfg, flat
from .disk import Bad, Unk, eqv, want, rule, normal, element, null_fact, is_rd
from . import terms as T

BF = ('bitfield::', 'bitfield_index::')
W = {'unsigned int': 32, 'int': 32, 'unsigned long': 64, 'long': 64, 'unsigned long long': 64, 'long long': 64, 'unsigned short': 16, 'short': 16,
     'unsigned char': 8, 'char': 8, 'signed char': 8, 'unsigned __int128': 128, '__int128': 128}


class BackCfg(PipeCfg):
    keep_paths = True
    max_paths = 250

    def __init__(self, extra=()):
        PipeCfg.__init__(self)
        self.extra2 = tuple(extra)

    def opaque(self, eng, f):
        b = f['base']
        return b.startswith(BF) or b in self.extra2 or PipeCfg.opaque(self, eng, f)

    def track(self, loc):
        return True

    def model(self, eng, st, name, node, this, args):
        r = PipeCfg.model(self, eng, st, name, node, this, args)
        if r is not None and name in ('Thread::Thread', 'ThreadPool::ThreadPool'):
            for e in st.ev[-3:]:
                if e.kind == 'stage' and 'st' not in e.d:
                    e.d['st'] = dict(st.store)
        return r

    def model2(self, eng, st, name, node, this, args):
        if name == 'get_wall_time_micros':
            return [(st, ('sym', 'time', st.fresh()))]
        return None


def obj(v):
    """the object a pointer value points at"""
    if isinstance(v, tuple) and v and v[0] == 'ptr':
        return v[1]
    return None


def same_obj(a, b):
    return obj(a) is not None and obj(a) == obj(b)


def ptr_sym(v):
    """pointer value as a term that facts speak about"""
    if isinstance(v, tuple) and v and v[0] == 'ptr':
        loc = v[1]
        if loc[1][0] == 'o' and not loc[2]:
            return loc[1][1]
    return v


def stage_paths(p, e, s, cfg):
    """paths of a stage function, entered with arbitrary arguments and the captured values"""
    fv = e['fn']
    if not (isinstance(fv, tuple) and fv[0] == 'lam'):
        raise Unk('stage function is not a closure')
    f = p.functions.get(fv[1])
    if f is None or not f.get('b'):
        raise Unk('stage function has no body')
    st = State()
    st.cnt = 1000000
    for k, v in s.store.items():
        if isinstance(v, tuple) and v and v[0] in ('ptr', 'lam', 'bind', 'fn', 'stage'):
            st.store[k] = v
    args = {}
    for i, q in enumerate(f['p']):
        a = ('sym', 'arg%d' % i)
        args[i] = ('ptr', L(('o', a))) if q['t'].endswith('&') else a
    return f, [(s2, v) for s2, v in Engine(p, cfg).run(f, caps=fv, args=args, st=st) if not s2.out or s2.out[0] == 'ret']


class Elem:
    """one path of the body of the loop over the input entries"""
    def __init__(self):
        self.gets, self.sets, self.pushes, self.calls, self.lookups, self.writes = [], [], [], [], [], []


def arg_loc(i, *path):
    return L(('o', ('sym', 'arg%d' % i)), *path) if False else ('L', ('o', ('sym', 'arg%d' % i)), tuple(path))


def loops_over(evs, vec):
    """loops of a path that read elements of vec"""
    out = []
    for e in evs:
        if e.kind != 'loop':
            continue
        n = ('rd', loc_ext(vec, ('f', '#n')), 0)
        b = e.get('bound')
        rb = e.get('raw_bound')
        if b == n or rb == n:
            out.append(e)
        elif any(T.contains(tuple(x for x in (y.d.get('loc'), y.d.get('args'), y.d.get('val')) if x is not None), ('it', e['id'])) and
                 any(isinstance(z, tuple) and z and z[0] == 'L' and is_prefix(loc_ext(vec, ('f', '#b')), z) for z in T.subterms(tuple(x for x in (y.d.get('loc'), y.d.get('args'), y.d.get('val')) if x is not None)))
                 for lp in e['paths'] for y in lp.ev):
            out.append(e)
    return out


def elements(f, paths, vec):
    """[(stage path, loop, loop path, Elem)] - the loop visits each entry exactly once, in order"""
    out = []
    n = ('rd', loc_ext(vec, ('f', '#n')), 0)
    for s, v in paths:
        lps = loops_over(s.ev, vec)
        if not lps:
            if eqv(n, 0, s.facts) is True:
                continue
            raise Unk('no loop over the input entries')
        if len(lps) > 1:
            raise Unk('several loops over the input entries')
        lp = lps[0]
        if lp.get('bound') is None:
            rb = lp.get('raw_bound')
            if rb is not None and eqv(rb, n, s.facts) is False:
                raise Bad('not all entries are visited', lp.l)
            raise Unk('number of iterations not known')
        if eqv(lp['bound'], n, s.facts) is not True:
            if eqv(lp['bound'], n, s.facts) is False:
                raise Bad('not all entries are visited (%s instead of %s)' % (show(lp['bound'])[:80], show(n)[:80]), lp.l)
            raise Unk('number of iterations')
        for q in lp['paths']:
            if q.out:
                if q.out[0] in ('throw', 'abort'):
                    continue
                if q.out[0] in ('break', 'ret'):
                    raise Bad('the walk over the entries ends early', lp.l)
                raise Unk('loop left by %s' % (q.out,))
            out.append((s, lp, q, elem(lp, q, s)))
    return out


def iteration_index(lp, q, t):
    """replaces counters that advance by one per entry by the entry number"""
    m = {}
    for x in T.subterms(t):
        if isinstance(x, tuple) and x and x[0] == 'phi' and x[1] == lp['id']:
            loc = x[2]
            init = lp['mods'].get(loc, (None,))[0]
            # every path that is possible under the conditions that do not change between entries
            steps = set()
            for o in lp['paths']:
                if o.out or incompatible(o.facts, q.facts, lp['id']):
                    continue
                end = (o.ends or {}).get(loc)
                if end is None:
                    steps.add(None)
                    continue
                d = T.sub(end[1], end[0]) if T.numericish(end[1]) and T.numericish(end[0]) else None
                steps.add(d if isinstance(d, int) else None)
            if len(steps) == 1 and None not in steps:
                m[x] = T.add(init, T.mul(steps.pop(), ('it', lp['id'])))
            elif None not in steps and T.numericish(init):
                return t, False
            else:
                return t, None
    return (T.subst(t, m) if m else t), True


def incompatible(a, b, lid):
    """the two fact sets disagree on a condition that is the same for all entries"""
    for f in a.items:
        if any(isinstance(x, tuple) and x and (x[0] in ('it', 'phi') and x[1] == lid or x[0] in ('sym', 'call') and isinstance(x[-1], int) and len(x) > 2) for x in T.subterms(f)):
            continue
        n = T.tnot(f) if f[0] != 'eq' else ('not', f)
        if any(n == g for g in b.items) or b.decide(f) == 0:
            return True
    return False


def elem(lp, q, s):
    e = Elem()
    for x, lo in flat(q.ev):
        if x.kind == 'call' and x['name'].startswith(BF):
            if lo:
                raise Unk('bitmap call in an inner loop')
            m = x['name'].split('::')[1]
            if m == 'get':
                e.gets.append(x)
            elif m == 'set':
                e.sets.append(x)
            elif m == 'lookup':
                e.lookups.append(x)
            else:
                raise Unk('bitmap %s in a stage' % m)
        elif x.kind == 'vec':
            if x['op'] in ('push', 'emplace'):
                if lo:
                    raise Unk('record appended in an inner loop')
                e.pushes.append(x)
            elif x['op'] not in ('reserve', 'size', 'resize', 'clear'):
                raise Unk('vector %s' % x['op'])
        elif x.kind == 'call' and x['name'].startswith(('DiskTable::', 'DiskSort::')):
            e.calls.append((x, bool(lo)))
        elif x.kind == 'wr':
            e.writes.append(x)
    return e


def filter_state(lp, q, e, s, R):
    """is the entry of this path used?  -> True (used), False (not used); raises Bad if the decision is not that of the bitmap R at the entry's own position"""
    null = null_fact(q.facts, ptr_sym(R)) if R is not None else True
    used = None
    for g in e.gets:
        if not same_obj(g['this'], R):
            raise Bad('an entry is tested in the bitmap of another table', g.l)
        i, ok = iteration_index(lp, q, g['args'][0])
        if ok is False:
            raise Bad('the position of an entry in the bitmap is counted wrongly: the counter does not advance once per entry', g.l)
        if ok is None:
            raise Unk('position %s' % show(g['args'][0])[:80])
        want(i, T.add(('rd', arg_loc(0, ('f', 'second')), 0), ('it', lp['id'])), 'an entry is tested at a position that is not its own', g.l, q.facts)
        d = eqv(g['ret'], 0, q.facts)
        if d is None or d is False:
            d = q.facts.decide(T.eq(g['ret'], 0))
            d = None if d is None else bool(d)
        if d is None:
            raise Unk('the tested bit is not used as a condition')
        used = not d
    if used is None:
        if null:
            return True
        return None
    return used


def strip(v, bits):
    """removes a conversion to a type of at least that many bits"""
    while isinstance(v, tuple) and v and v[0] == 'cast' and W.get(v[1], 0) >= bits:
        v = v[2]
    return v


def entry_fields(lp, vec):
    b = loc_ext(vec, ('f', '#b'), ('e', ('it', lp['id'])))
    return lambda n: ('rd', loc_ext(b, ('f', n)), 0)


def fieldval(v, n):
    """field n of an object value"""
    if isinstance(v, tuple) and v and v[0] == 'obj':
        for path, x in v[2]:
            if path == (('f', n),):
                return x
        return fieldval(v[1], n)
    if is_rd(v):
        return ('rd', loc_ext(v[1], ('f', n)), v[2])
    return None


def mark_rule(lp_elems, R, Lobj, vec):
    any_used = False
    for s, lp, q, e in lp_elems:
        u = filter_state(lp, q, e, s, R)
        F = entry_fields(lp, vec)
        if u is None:
            if e.sets:
                raise Bad('entries are marked without testing whether they are used themselves', lp.l)
            raise Bad('entries are dropped without testing whether they are used', lp.l)
        if not u:
            if e.sets:
                raise Bad('an unused entry marks its parents', e.sets[0].l)
            continue
        any_used = True
        got = []
        for x in e.sets:
            if not same_obj(x['this'], Lobj):
                raise Bad('a parent is marked in another bitmap', x.l)
            got.append((x['args'][0], x.l))
        exp = [F('pos'), T.add(F('pos'), F('off'))]
        for w in exp:
            if not any(eqv(a, w, q.facts) is True for a, l in got):
                if all(eqv(a, w, q.facts) is False for a, l in got):
                    raise Bad('a parent of a used entry (%s) is not marked' % show(w)[-60:], lp.l)
                raise Unk('marked positions %s' % [show(a)[-60:] for a, l in got])
        for a, l in got:
            if all(eqv(a, w, q.facts) is False for w in exp):
                raise Bad('a position that is no parent is marked (%s)' % show(a)[:100], l)
    if not any_used:
        raise Bad('no entry ever marks its parents', lp_elems[0][1].l if lp_elems else '')


def remap_rule(lp_elems, R, index, vec, out, posbits, keep=()):
    for s, lp, q, e in lp_elems:
        u = filter_state(lp, q, e, s, R)
        F = entry_fields(lp, vec)
        ps = [x for x in e.pushes if x['vec'] == out]
        if len(ps) != len(e.pushes):
            raise Unk('records appended elsewhere')
        if u is None:
            raise Bad('entries are %s without testing whether they are used' % ('kept' if ps else 'dropped'), lp.l)
        if not u:
            if ps:
                raise Bad('an unused entry is kept', ps[0].l)
            continue
        if len(ps) != 1:
            raise Bad('a used entry is passed on %d times' % len(ps), lp.l)
        v = ps[0]['val']
        yield s, lp, q, e, F, v, ps[0].l


def lookup_ok(lp_elems, R, index, vec, out, posbits, keep):
    for s, lp, q, e, F, v, l in remap_rule(lp_elems, R, index, vec, out, posbits, keep):
        if not e.lookups:
            raise Unk('no rank lookup')
        for x in e.lookups:
            if not same_obj(x['this'], index):
                raise Bad('positions are looked up in another index', x.l)
        if len(e.lookups) != 1:
            raise Unk('several lookups')
        x = e.lookups[0]
        want(x['args'][0], F('pos'), 'the rank of another position is looked up', x.l, q.facts)
        want(x['args'][1], F('off'), 'the rank distance of another position is looked up', x.l, q.facts)
        for name, part, nb in (('pos', 'first', posbits), ('off', 'second', 10)):
            fv = fieldval(v, name)
            if fv is None:
                raise Unk('field %s of the new record' % name)
            fv = strip(fv, nb)
            exp = ('fld', x['ret'], (('f', part),))
            if fv == exp:
                continue
            r = eqv(fv, exp, q.facts)
            other = ('fld', x['ret'], (('f', 'second' if part == 'first' else 'first'),))
            if r is False or fv == other or fv == F(name) or isinstance(fv, tuple) and fv[0] == 'cast' and T.contains(fv, x['ret']):
                raise Bad('the field %s of the renumbered entry is not the %s of the lookup' % (name, 'rank' if part == 'first' else 'rank distance'), l)
            raise Unk('field %s is %s' % (name, show(fv)[:100]))
        for name in keep:
            fv = fieldval(v, name)
            if fv is None or isinstance(fv, tuple) and fv and fv[0] == 'undef':
                raise Bad('the field %s of a kept entry is lost' % name, l)
            fv = strip(fv, 32)
            if fv != F(name):
                if eqv(fv, F(name), q.facts) is False:
                    raise Bad('the field %s of a kept entry is changed' % name, l)
                raise Unk('field %s is %s' % (name, show(fv)[:100]))


def fields_of(p, ty):
    r = p.records.get(ty) if hasattr(p, 'records') else None
    return r


def number_rule(p, paths, vec, store_main, numbered):
    """count stage: consecutive numbers from 0, and everything is passed on, once -> target"""
    tgt = None
    n = ('rd', loc_ext(vec, ('f', '#n')), 0)
    for s, v in paths:
        takes = [e for e in s.ev if e.kind == 'take']
        inner = [e for e, lo in flat(s.ev) if e.kind == 'take' and lo]
        if inner:
            raise Unk('records passed on in a loop')
        if len(takes) != 1:
            if not takes and eqv(n, 0, s.facts) is not True and not any(e.kind == 'call' and e['name'].endswith('::take') for e in s.ev):
                raise Bad('a block of entries is not passed on', '')
            if len(takes) > 1:
                raise Bad('a block of entries is passed on twice', takes[1].l)
            continue
        if takes[0]['ref'] != ('ptr', vec):
            raise Unk('another block is passed on')
        tgt = takes[0]['to']
        lps = loops_over(s.ev, vec)
        wr = [(e, lp, q) for lp in lps for q in lp['paths'] if not q.out for e in q.ev if e.kind == 'wr' and e['loc'][2][-1:] == (('f', 'key'),)]
        if not numbered:
            continue
        if len(lps) != 1:
            raise Unk('numbering loop not found')
        lp = lps[0]
        if lp.get('bound') is None or eqv(lp['bound'], n, s.facts) is not True:
            raise Unk('number of entries numbered')
        for q in lp['paths']:
            if q.out:
                if q.out[0] in ('throw', 'abort'):
                    continue
                raise Bad('the numbering ends early', lp.l)
            ws = [e for e in q.ev if e.kind == 'wr' and e['loc'][2][-1:] == (('f', 'key'),)]
            if len(ws) != 1:
                raise Bad('an entry is numbered %d times' % len(ws), lp.l)
            w = ws[0]
            if w['loc'] != loc_ext(vec, ('f', '#b'), ('e', ('it', lp['id'])), ('f', 'key')):
                raise Unk('numbered entry %s' % show(w['loc'])[:80])
            val = strip(w['val'], 32)
            d = T.sub(val, ('it', lp['id'])) if T.numericish(val) else None
            if not is_rd(d):
                # number = counter + entry number
                if d is not None and isinstance(d, int):
                    raise Bad('every block is numbered from the same start', w.l)
                if any(isinstance(x, tuple) and x and x[0] == 'phi' for x in T.subterms(val)):
                    # a counter that does not advance evenly
                    raise Bad('the numbers of the entries are not consecutive', w.l)
                if d is not None and T.is_poly(d) and not any(isinstance(x, tuple) and x and x[0] in ('sym', 'call') for x in T.subterms(d)):
                    raise Bad('the number of an entry is not the number of entries before it (%s)' % show(val)[:80], w.l)
                raise Unk('number %s' % show(val)[:80])
            ctr = d[1]
            end = s.store.get(ctr)
            if end is None:
                raise Bad('the number of entries is not carried over to the next block', w.l)
            want(end, T.add(d, n), 'the number of entries is not carried over to the next block', w.l, s.facts)
            init = store_main.get(ctr)
            if init is None:
                raise Unk('start of the numbering')
            if isinstance(init, int):
                if init != 0:
                    raise Bad('the numbering does not start at 0', w.l)
            else:
                raise Unk('start of the numbering %s' % show(init)[:60])
    return tgt


def sink_rule(paths, vec):
    """every entry of the block is written once, in order -> set of destination objects"""
    out = set()
    for s, v in paths:
        lps = loops_over(s.ev, vec)
        if len(lps) != 1:
            raise Unk('loop over the records')
        lp = lps[0]
        n = ('rd', loc_ext(vec, ('f', '#n')), 0)
        if lp.get('bound') is None or eqv(lp['bound'], n, s.facts) is not True:
            if lp.get('bound') is not None and eqv(lp['bound'], n, s.facts) is False:
                raise Bad('not all entries of a block are written', lp.l)
            raise Unk('number of records')
        for q in lp['paths']:
            if q.out:
                if q.out[0] in ('throw', 'abort'):
                    continue
                raise Bad('writing a block ends early', lp.l)
            cs = [x for x, lo in flat(q.ev) if x.kind == 'call' and x['name'] in ('DiskTable::write', 'DiskSort::WriteCache::add', 'DiskSort::add')]
            if len(cs) != 1:
                raise Bad('an entry is written %d times' % len(cs), lp.l)
            a = cs[0]['args'][0]
            el = loc_ext(vec, ('f', '#b'), ('e', ('it', lp['id'])))
            if a != ('ptr', el) and not (is_rd(a) and a[1] == el):
                raise Unk('written record %s' % show(a)[:80])
            out.add(cs[0]['name'].split('::')[0])
    return out


def feeds(s):
    return [(i, e) for i, e in enumerate(s.ev) if e.kind == 'call' and e['name'] in ('DiskTable::read', 'DiskSort::read')]


def stages(s):
    return {e['loc']: e for e in s.ev if e.kind == 'stage'}


def table_rule(p, f, r, posbits):
    """one instance of compute_table: -> None"""
    cfg = BackCfg()
    paths = normal(Engine(p, cfg), f)
    if not paths:
        raise Unk('no normal path')
    vec = arg_loc(0, ('f', 'first'))
    blk = arg_loc(0)
    done = set()
    info = {'clear': True}
    for s, v in paths:
        st = stages(s)
        fd = feeds(s)
        marks, maps = [], []
        for i, e in fd:
            t = st.get(obj(e['args'][0]))
            if t is None:
                raise Unk('fed stage not found')
            fn, sp = stage_paths(p, t, s, BackCfg())
            has_set = any(x.kind == 'call' and x['name'] == 'bitfield::set' for s2, v2 in sp for x, lo in flat(s2.ev))
            (marks if has_set else maps).append((i, e, t, fn, sp))
        if len(marks) != 1 or len(maps) != 1:
            if not marks:
                raise Bad('no stage marks the parents', f['l'])
            raise Unk('%d mark and %d remap passes' % (len(marks), len(maps)))
        (i1, e1, t1, f1, p1), (i2, e2, t2, f2, p2) = marks[0], maps[0]
        if i2 < i1:
            raise Bad('entries are renumbered before all parents are marked', e2.l)
        if e1['this'] != e2['this']:
            raise Unk('passes read different tables')
        # objects
        Ls = {obj(x['this']) for s2, v2 in p1 for x, lo in flat(s2.ev) if x.kind == 'call' and x['name'] == 'bitfield::set'}
        gs = {obj(x['this']) for q in (p1, p2) for s2, v2 in q for x, lo in flat(s2.ev) if x.kind == 'call' and x['name'] == 'bitfield::get'}
        prm = {}
        for j, q in enumerate(f['p']):
            if 'bitfield' in q['t']:
                prm[L(('o', ('sym', 'p:' + q['n'])))] = j
        if len(Ls) != 1:
            raise Bad('parents are marked in different bitmaps', t1.l)
        Lo = Ls.pop()
        if gs & {Lo}:
            raise Bad('entries are tested in the bitmap in which their parents are marked', t1.l)
        if len(gs) > 1:
            raise Bad('the two passes test entries in different bitmaps', t2.l)
        Ro = gs.pop() if gs else None
        if Ro is None:
            cand = [x for x in prm if x != Lo]
            if not cand:
                raise Unk('bitmap of the table')
            raise Bad('no entry is tested in the bitmap of its table', t1.l)
        if Lo not in prm or Ro not in prm:
            raise Unk('bitmaps are not parameters')
        info['L'], info['R'] = prm[Lo], prm[Ro]
        R, Lp = ('ptr', Ro), ('ptr', Lo)
        # order: clear, marks, wait, index
        clears = [i for i, x in enumerate(s.ev) if x.kind == 'call' and x['name'] == 'bitfield::clear' and obj(x['this']) == Lo]
        for i, x in enumerate(s.ev):
            if x.kind == 'call' and x['name'] == 'bitfield::clear' and obj(x['this']) == Ro:
                raise Bad('the bitmap of the table is cleared before its entries are tested', x.l)
        if any(i > i1 for i in clears):
            raise Bad('marks are cleared after they were set', s.ev[[i for i in clears if i > i1][0]].l)
        info['clear'] = info['clear'] and bool(clears)
        idx = [(i, x) for i, x in enumerate(s.ev) if x.kind == 'call' and x['name'] == 'bitfield_index::bitfield_index']
        if len(idx) != 1:
            raise Unk('%d rank indices' % len(idx))
        ii, ix = idx[0]
        if obj(ix['args'][0]) != Lo:
            raise Bad('the rank index is built over another bitmap', ix.l)
        ends = [i for i, x in enumerate(s.ev) if i > i1 and x.kind == 'call' and x['name'] in ('ThreadPool::close', 'ThreadPool::wait', 'ThreadPool::~ThreadPool', 'Thread::close', 'Thread::wait', 'Thread::~Thread')
                and obj(x['this']) == t1['loc']]
        if not ends or ii < ends[0]:
            raise Bad('the rank index is built before all parents are marked', ix.l)
        key = (t1.l, t2.l, show(t2.get('out')))
        k2 = tuple(sorted((x.l, show(x.get('out')), show(x['fn'])) for x in st.values()))
        if k2 in done:
            continue
        done.add(k2)
        mark_rule(elements(f1, p1, vec), R, Lp, vec)
        keep = [n for n in ('y',) if is_field(p, f2, n)]
        out = arg_loc(1)
        lookup_ok(elements(f2, p2, vec), R, ix['this'], vec, out, posbits, keep)
        # numbering
        t3 = st.get(obj(t2.get('out')))
        if t3 is None:
            raise Unk('stage after renumbering not found')
        if t3['cls'] != 'Thread' and t3.get('n') != 1:
            raise Bad('entries are numbered by several workers', t3.l)
        f3, p3 = stage_paths(p, t3, s, BackCfg())
        tgt = number_rule(p, p3, blk, t3['st'], not keep)
        if tgt is None:
            raise Unk('no target')
        t4 = st.get(obj(tgt))
        if t4 is None:
            raise Unk('output stage')
        f4, p4 = stage_paths(p, t4, s, BackCfg())
        sink_rule(p4, blk)
        r.count('stage functions', 4)
    return info


def is_field(p, f, n):
    """entries handed to this stage have a field of that name"""
    return 'entry_7' in f['p'][0]['t'] and n == 'y'


def maxargs(v):
    """operands of a nested maximum"""
    if isinstance(v, tuple) and v and v[0] in ('max', 'tmax') or isinstance(v, tuple) and v and v[0] == 'op' and v[1] == 'max':
        xs = v[2:] if v[0] == 'op' else v[1:]
        out = []
        for x in xs:
            if isinstance(x, (tuple, int)):
                sub = maxargs(x) if not (isinstance(x, tuple) and x and isinstance(x[0], tuple)) else sum((maxargs(y) for y in x), [])
                out += sub
        return out
    return [v]


def chain_rule(p, r, info):
    fs = [f for f in p.fns('phase2::compute') if f.get('b')]
    if not fs:
        raise Unk('phase2::compute not found')
    f = fs[0]
    paths = normal(Engine(p, BackCfg(('phase2::compute_table',))), f)
    if not paths:
        raise Unk('no normal path')
    li, ri = info['L'], info['R']
    for s, v in paths:
        calls = [(i, e) for i, e in enumerate(s.ev) if e.kind == 'call' and e['name'] == 'phase2::compute_table']
        if any(e.kind == 'call' and e['name'] == 'phase2::compute_table' for e, lo in flat(s.ev) if lo):
            raise Unk('tables processed in a loop that is not unrolled')
        ti = [j for j, q in enumerate(fs[0]['p'])]
        seq = []
        for i, e in calls:
            a = e['args']
            tab = [x for x in a if isinstance(x, tuple) and x and x[0] == 'ptr' and x[1][2] and x[1][2][-1][0] == 'e' and isinstance(x[1][2][-1][1], int)]
            if len(tab) != 1:
                raise Unk('table argument')
            seq.append((i, e, tab[0][1][2][-1][1], a[li], a[ri], tab[0]))
        if [x[2] for x in seq] != [6, 5, 4, 3, 2, 1]:
            raise Bad('the tables are not processed once each from 7 to 2 (%s)' % [x[2] + 1 for x in seq], calls[0][1].l if calls else f['l'])
        made = {}
        for i, e in enumerate(s.ev):
            if e.kind == 'make' and e['ty'] == 'bitfield':
                made[e['loc']] = (i, e)
        last = {}
        prev = None
        for i, e, n, Lv, Rv, tab in seq:
            if n == 6:
                if Rv != 0 and obj(Rv) is not None:
                    raise Bad('table 7 is filtered although no bitmap describes it', e.l)
            else:
                if obj(Rv) is None:
                    if Rv == 0:
                        raise Bad('table %d is not filtered' % (n + 1), e.l)
                    raise Unk('bitmap argument %s' % show(Rv)[:60])
                if obj(Rv) != prev:
                    raise Bad('table %d is filtered with a bitmap that is not the one filled by table %d' % (n + 1, n + 2), e.l)
            lo = obj(Lv)
            if lo is None:
                raise Unk('bitmap argument %s' % show(Lv)[:60])
            if lo == obj(Rv):
                raise Bad('table %d marks the previous table in its own bitmap' % (n + 1), e.l)
            if not info['clear']:
                cl = [j for j, x in enumerate(s.ev) if j < i and x.kind == 'call' and x['name'] == 'bitfield::clear' and obj(x['this']) == lo]
                if lo in last and not any(j > last[lo] for j in cl):
                    raise Bad('table %d marks into a bitmap that still holds the marks of another table' % (n + 1), e.l)
            last[lo] = i
            if lo not in made:
                raise Unk('origin of a bitmap')
            size = made[lo][1]['vals'][0]
            if size is None:
                raise Unk('size of the bitmap')
            need = [('rd', loc_ext(tab[1][:2] + (tab[1][2][:-1] + ((('e', n - 1),) if n > 1 else ()),), ('f', 'num_entries')), 0)]
            ops = maxargs(size)
            for w in need:
                if w not in ops:
                    if all(is_rd(x) or isinstance(x, int) for x in ops):
                        raise Bad('the bitmap for table %d may be smaller than the table' % n, made[lo][1].l)
                    d = s.facts.range(T.sub(size, w)) if T.numericish(size) else (None, None)
                    if d[0] is None or d[0] < 0:
                        raise Unk('size of the bitmap: %s' % show(size)[:100])
            prev = lo
        outb = [(k, v) for k, v in s.store.items() if isinstance(k, tuple) and k[0] == 'L' and k[2][-1:] == (('f', 'bitfield_1'),)]
        if not outb:
            raise Unk('bitmap of table 1 not found')
        if obj(outb[0][1]) is None:
            raise Unk('bitmap of table 1: %s' % show(outb[0][1])[:60])
        if obj(outb[0][1]) != prev:
            raise Bad('the bitmap handed on for table 1 is not the one filled by table 2', f['l'])
        for i, e in enumerate(s.ev):
            if i > seq[-1][0] and e.kind == 'call' and e['name'] == 'bitfield::clear' and obj(e['this']) == prev:
                raise Bad('the bitmap for table 1 is cleared', e.l)


def filter_rule(p, r):
    """table 1 filter in phase 3"""
    n = 0
    vec = arg_loc(0, ('f', 'first'))
    for f in p.fns('phase3::compute_stage1'):
        if not f.get('b'):
            continue
        fs = [(s, v) for s, v in Engine(p, BackCfg()).run(f)]
        for s, v in fs:
            for e in s.ev:
                if e.kind != 'stage' or 'entry_1' not in e['ty']:
                    continue
                fn, sp = stage_paths(p, e, s, BackCfg())
                gs = {obj(x['this']) for s2, v2 in sp for x, lo in flat(s2.ev) if x.kind == 'call' and x['name'] == 'bitfield::get'}
                if len(gs) > 1:
                    raise Bad('entries are tested in different bitmaps', e.l)
                if not gs:
                    raise Bad('the entries of table 1 are not filtered', e.l)
                R = ('ptr', gs.pop())
                els = elements(fn, sp, vec)
                for s2, lp, q, el, F, val, l in remap_rule(els, R, None, vec, arg_loc(1, ('f', 'first')), 32):
                    fv = fieldval(val, 'pos')
                    if fv is None:
                        raise Unk('field pos')
                    fv = strip(fv, 32)
                    if fv != F('x'):
                        if eqv(fv, F('x'), q.facts) is False:
                            raise Bad('the value of a kept table 1 entry is not passed on', l)
                        raise Unk('value %s' % show(fv)[:80])
                n += 1
                break
            if n:
                break
        if n:
            break
    if not n:
        raise Unk('filter stage not found')


def check(r, p):
    infos = []
    H = 'include/chia/phase2.hpp: '
    fs = [f for f in p.fns('phase2::compute_table') if f.get('b')]
    if not fs:
        r.undecided('phase2::compute_table not found')
    for j, f in enumerate(fs):
        what = 'mark, rank, remap and number stages, %s instance %d' % (p.tag, j + 1)
        def go():
            infos.append(table_rule(p, f, r, 32 if p.tag == 'K32' else 34))
        rule(r, what, H + 'compute_table', 'compute_table', go)
        r.saw('phase2::compute_table')
    if infos:
        info = dict(infos[0], clear=all(i['clear'] for i in infos))
        rule(r, 'chain of bitmaps between tables, ' + p.tag, H + 'compute', 'compute', lambda: chain_rule(p, r, info))
        r.saw('phase2::compute')
    rule(r, 'table 1 filter, ' + p.tag, 'include/chia/phase3.hpp: compute_stage1', 'filter', lambda: filter_rule(p, r))
    r.saw('phase3::compute_stage1')
