"""Path-sensitive dataflow over the resolved AST.

For a function the engine computes its abstract paths: for each path the facts
that hold on it, the effects it has (events, in order) and the abstract store at
its end.  Values are terms in normal form (value numbering), loops are summarised
by a fixpoint over the locations they change (induction variables get their
closed form), repository callees are analysed in place (context-sensitive), and
no solver is involved: a branch is decided only by the interval/equality facts
collected on the path.
"""
import re
from .prog import AnalysisBroken, base, walk
from . import terms as T
from .terms import add, sub, mul, eq, le, lt, tnot, tobool, tite, Facts, subst, INF

INT_TYPES = {
    'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    '__int128': (128, True), 'unsigned __int128': (128, False),
}


def strip_cv(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        elif t.endswith(' const'):
            t = t[:-6]
        else:
            return t.strip()


def int_type(t):
    return INT_TYPES.get(strip_cv(t))


def deref_type(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t


RANGE = {}


def set_range(term, ty):
    it = int_type(ty) if isinstance(ty, str) else None
    if it and isinstance(term, tuple) and term not in RANGE:
        w, s = it
        RANGE[term] = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if not s:
            T.NONNEG.add(term)
    return term


_old_atom = Facts._atom


def _atom(self, a, depth):
    l, h = _old_atom(self, a, depth)
    r = RANGE.get(a)
    if r:
        l, h = max(l, r[0]), min(h, r[1])
    if isinstance(a, tuple) and a and a[0] == 'cast':
        w, s = INT_TYPES[a[1]]
        if s:
            l, h = max(l, -(1 << (w - 1))), min(h, (1 << (w - 1)) - 1)
        else:
            l, h = max(l, 0), min(h, (1 << w) - 1)
    return l, h


Facts._atom = _atom


class Ev:
    __slots__ = ('kind', 'd', 'l', 'facts', 'locks', 'fn')

    def __init__(self, kind, d, l, facts, locks, fn=None):
        self.kind, self.d, self.l, self.facts, self.locks, self.fn = kind, d, l, facts, locks, fn

    def __eq__(self, o):
        return isinstance(o, Ev) and self.kind == o.kind and self.d == o.d

    def __hash__(self):
        return hash(self.kind)

    def __getitem__(self, k):
        return self.d[k]

    def get(self, k, dv=None):
        return self.d.get(k, dv)

    def __repr__(self):
        if self.kind == 'loop':
            return 'loop@%s{%s}' % (self.l, ' | '.join('%s:%s' % (p.out[0] if p.out else 'next', p.ev) for p in self.d['paths']))
        return '%s(%s)@%s' % (self.kind, ', '.join('%s=%s' % (k, show(v)) for k, v in self.d.items()), self.l)


class LPath:
    """one way through a loop body"""
    __slots__ = ('out', 'ev', 'facts', 'ends', 'store')

    def __init__(self, out, ev, facts, ends, store=None):
        self.out, self.ev, self.facts, self.ends, self.store = out, ev, facts, ends, store

    def __eq__(self, o):
        return self.out == o.out and self.ev == o.ev and self.ends == o.ends

    def __hash__(self):
        return 1


def show(v, depth=0):
    if isinstance(v, (int, str)) or v is None:
        return str(v)
    if isinstance(v, (list, set, frozenset)):
        return '[%s]' % ', '.join(show(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s:%s' % (show(a, depth + 1), show(b, depth + 1)) for a, b in v.items())
    if not isinstance(v, tuple) or not v:
        return repr(v)
    if not isinstance(v[0], str):
        return '(%s)' % ', '.join(show(x, depth + 1) for x in v)
    if v[0] == 'call':
        return '%s(%s)' % (v[1], ', '.join(show(x, depth + 1) for x in v[2]))
    if v[0] == 'str':
        return '"%s"' % v[1]
    if depth > 12:
        return '..'
    k = v[0]
    if k == 'poly':
        s = []
        for m, c in v[2]:
            t = '*'.join(show(a, depth + 1) for a in m)
            s.append(t if c == 1 else '-' + t if c == -1 else '%d*%s' % (c, t))
        if v[1]:
            s.append(str(v[1]))
        return '(' + ' + '.join(s) + ')'
    if k == 'L':
        r = v[1]
        s = r[0] + ':' + (show(r[1], depth + 1))
        if r[0] == 'v':
            s = '%s' % (r[3] if len(r) > 3 else r[1])
        elif r[0] == 'o' and r[1][0] == 'sym':
            s = r[1][1]
        elif r[0] == 'g':
            s = r[1]
        for p in v[2]:
            s += '.' + p[1] if p[0] == 'f' else '[%s]' % show(p[1], depth + 1)
        return s
    if k == 'ptr':
        return '&' + show(v[1], depth + 1)
    if k == 'rd':
        return show(v[1], depth + 1) + ('' if not v[2] else "'%s" % v[2])
    if k == 'sym':
        return str(v[1]) + ('' if len(v) < 3 else '#%s' % v[2])
    if k == 'eq':
        return '%s==0' % show(v[1], depth + 1)
    if k == 'le':
        return '%s<=0' % show(v[1], depth + 1)
    if k == 'not':
        return '!(%s)' % show(v[1], depth + 1)
    if k == 'op':
        return '(%s %s %s)' % (show(v[2], depth + 1), v[1], show(v[3], depth + 1))
    if k == 'it':
        return 'N%s' % v[1]
    if k == 'itn':
        return 'M%s' % v[1]
    return '%s(%s)' % (k, ', '.join(show(x, depth + 1) for x in v[1:]))


def L(root, *path):
    return ('L', root, tuple(path))


def loc_ext(loc, *path):
    p = loc[2]
    for x in path:
        if x[0] == 'e' and x[1] == 0:
            continue
        p = p + (x,)
    return ('L', loc[1], p)


def loc_index(loc, i):
    """pointer arithmetic: loc + i elements"""
    if i == 0:
        return loc
    p = loc[2]
    if p and p[-1][0] == 'e':
        n = add(p[-1][1], i)
        p = p[:-1]
    else:
        n = i
    if n == 0:
        return ('L', loc[1], p)
    return ('L', loc[1], p + (('e', n),))


def split_index(loc):
    p = loc[2]
    if p and p[-1][0] == 'e':
        return ('L', loc[1], p[:-1]), p[-1][1]
    return loc, 0


def is_prefix(a, b):
    return a[1] == b[1] and b[2][:len(a[2])] == a[2]


def ptr_diff(a, b):
    """a - b in elements for two pointers into the same object, else None"""
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'ptr' and b[0] == 'ptr'):
        return None
    la, ia = split_index(a[1])
    lb, ib = split_index(b[1])
    if la == lb:
        return sub(ia, ib)
    return None


def fld(v, rel):
    """sub-object of a value"""
    if not rel:
        return v
    if isinstance(v, int):
        return v if v == 0 else ('fld', v, rel)
    if v[0] == 'rd':
        return ('rd', loc_ext(v[1], *rel), v[2])
    if v[0] == 'fld':
        return ('fld', v[1], v[2] + rel)
    if v[0] == 'obj':
        best = None
        for r, x in v[2]:
            if rel[:len(r)] == r and (len(rel) == len(r) or rel[len(r)][0] != 'e') and (best is None or len(r) > len(best[0])):
                best = (r, x)
        sub_ = tuple((r[len(rel):], x) for r, x in v[2] if r[:len(rel)] == rel and len(r) > len(rel)
                     and r[len(rel)][0] != 'e')
        if best and best[0] == rel and not sub_:
            return best[1]
        b = None
        if best:
            b = fld(best[1], rel[len(best[0]):])
        elif v[1] is not None:
            b = fld(v[1], rel)
        if sub_:
            return ('obj', b, sub_)
        return b if b is not None else ('fld', ('undef',), rel)
    if v[0] == 'ite':
        return tite(v[1], fld(v[2], rel), fld(v[3], rel))
    return ('fld', v, rel)


def is_count(t):
    """sizes and powers of two are never negative"""
    if isinstance(t, tuple) and t:
        if t[0] == 'fld':
            return t[2][-1] == ('f', '#n')
        if t[0] == 'rd':
            return bool(t[1][2]) and t[1][2][-1] == ('f', '#n')
        if t[0] == 'op' and t[1] == '<<':
            return isinstance(t[2], int) and t[2] >= 0
        if t[0] == 'cast':
            return t[1].startswith('unsigned')
        if t[0] in ('phi', 'phx'):
            return bool(t[2][2]) and t[2][2][-1] == ('f', '#n')
    return False


class State:
    __slots__ = ('store', 'facts', 'ev', 'locks', 'epochs', 'cnt', 'out', 'scopes', 'fn', 'frames')

    def __init__(self):
        self.store = {}
        self.facts = Facts()
        self.ev = ()
        self.locks = ()
        self.epochs = ()      # ((prefix, n), ...)
        self.cnt = 0
        self.out = None
        self.scopes = []
        self.fn = None
        self.frames = ()

    def fork(self):
        s = State()
        s.store = dict(self.store)
        s.facts, s.ev, s.locks, s.epochs, s.cnt, s.out = \
            self.facts, self.ev, self.locks, self.epochs, self.cnt, self.out
        s.scopes = [list(x) for x in self.scopes]
        s.fn, s.frames = self.fn, self.frames
        return s

    def fresh(self):
        self.cnt += 1
        return self.cnt

    def epoch(self, loc, shared=None):
        e = 0
        for i, (p, n) in enumerate(self.epochs):
            if p[1] == ('*',):
                if shared is not None and shared(loc):
                    e = n
            elif is_prefix(p, loc):
                e = n
        return e


class Cfg:
    """what a particular analysis wants from the engine; override as needed"""
    max_depth = 14
    max_paths = 600
    unroll = 12
    join_at = 1 << 30
    rotate = False        # loop inversion: show the last iteration at the exit

    def join_key(self, st):
        """states with equal keys may be joined when there are many; None: never"""
        return None

    def opaque(self, eng, f):
        """treat this repository function as an uninterpreted call"""
        return False

    def pure(self, name):
        return False

    def model(self, eng, st, name, node, this, args):
        """return a list of (state, value) to override a call, or None"""
        return None

    def track(self, loc):
        """emit rd/wr events for accesses to this location"""
        return False

    def may_throw(self, name):
        return False

    def shared(self, loc):
        """may another thread change it while no lock is held"""
        return False

    def dtor(self, eng, st, loc, ty):
        return None


PURE = {
    'std::max', 'std::min', 'strlen', 'log2', 'pow', '__builtin_bswap16', '__builtin_bswap32', '__builtin_bswap64',
    'std::exception::what', 'strerror', '__errno_location', 'std::operator!=', 'std::operator==',
    'std::numeric_limits::max', 'std::numeric_limits::min',
}

EXC_STD = {'std::runtime_error', 'std::logic_error', 'std::exception', 'std::invalid_argument', 'std::out_of_range',
           'std::length_error', 'std::domain_error', 'std::range_error', 'std::overflow_error', 'std::bad_alloc',
           'std::system_error', 'std::underflow_error', 'std::bad_function_call', 'std::ios_base::failure'}


class Engine:
    def __init__(self, prog, cfg=None):
        self.p = prog
        self.cfg = cfg or Cfg()
        self.stats = {'functions': set(), 'calls': 0, 'loops': 0, 'paths': 0, 'unmodelled': {}, 'truncated': 0}
        self.depth = 0
        self.active = []
        self.dry = 0
        from . import stdmodel
        self.std = stdmodel.StdModel(self)

    # -- events ---------------------------------------------------------------
    def emit(self, st, kind, l, **d):
        st.ev = st.ev + (Ev(kind, d, l, st.facts, st.locks, st.fn),)

    # -- store ----------------------------------------------------------------
    def read(self, st, loc, ty='', l=''):
        v = self._read(st, loc, ty)
        if self.cfg.track(loc):
            self.emit(st, 'rd', l, loc=loc)
        return v

    def _read(self, st, loc, ty=''):
        v = st.store.get(loc)
        kids = None
        if v is not None:
            if isinstance(v, int) or not self._maybe_obj(ty):
                return v
            kids = self._kids(st, loc)
            return self._mkobj(v, kids) if kids else v
        if self._maybe_obj(ty):
            kids = self._kids(st, loc)
        # nearest ancestor with a direct value
        path = loc[2]
        b = None
        for n in range(len(path) - 1, -1, -1):
            if path[n][0] == 'e':
                continue          # element 0 is a sibling of element n, not its parent
            a = ('L', loc[1], path[:n])
            av = st.store.get(a)
            if av is not None:
                # a havoc of something between a and loc overrides the ancestor value
                e = st.epoch(loc, self.cfg.shared)
                if e and e > st.epoch(a, self.cfg.shared):
                    break
                b = fld(av, path[n:])
                break
        if b is None:
            b = ('rd', loc, st.epoch(loc, self.cfg.shared))
            if loc[1][0] == 'g' and not loc[2]:
                c = self.global_const(loc[1])
                if c is not None:
                    b = c
        if isinstance(b, tuple):
            set_range(b, ty)
        if kids:
            return self._mkobj(b, kids)
        return b

    def _maybe_obj(self, ty):
        t = strip_cv(deref_type(ty))
        return not (t in INT_TYPES or t.endswith('*') or t in ('double', 'float', ''))

    def _kids(self, st, loc):
        n = len(loc[2])
        r = loc[1]
        return tuple(sorted(((k[2][n:], v) for k, v in st.store.items()
                             if k[1] == r and len(k[2]) > n and k[2][:n] == loc[2] and k[2][n][0] != 'e'), key=lambda x: repr(x[0])))

    def _mkobj(self, b, kids):
        if isinstance(b, tuple) and b[0] == 'obj':
            d = dict(b[2])
            for r, v in kids:
                for k in [k for k in d if k[:len(r)] == r]:
                    del d[k]
                d[r] = v
            return ('obj', b[1], tuple(sorted(d.items(), key=lambda x: repr(x[0]))))
        return ('obj', b, kids)

    def erase(self, st, loc):
        n = len(loc[2])
        r = loc[1]
        for k in [k for k in st.store if k[1] == r and k[2][:n] == loc[2] and (len(k[2]) == n or k[2][n][0] != 'e')]:
            del st.store[k]

    def erase_all(self, st, loc):
        n = len(loc[2])
        r = loc[1]
        for k in [k for k in st.store if k[1] == r and k[2][:n] == loc[2]]:
            del st.store[k]

    def write(self, st, loc, v, l='', ty=''):
        if v is None:
            v = ('sym', 'void')
        self.erase(st, loc)
        if isinstance(v, tuple) and v and v[0] == 'obj':
            if v[1] is not None:
                st.store[loc] = v[1]
            else:
                st.store[loc] = ('undef',)
            for r, x in v[2]:
                st.store[loc_ext(loc, *r)] = x
        else:
            st.store[loc] = v
        if self.cfg.track(loc):
            self.emit(st, 'wr', l, loc=loc, val=v)

    def havoc(self, st, loc):
        if loc[1][0] == 'v' and ('L', loc[1], ()) not in st.store:
            st.store[('L', loc[1], ())] = ('rd', ('L', loc[1], ()), st.epoch(('L', loc[1], ())))
        self.erase_all(st, loc)
        st.epochs = tuple((p, n) for p, n in st.epochs if not is_prefix(loc, p)) + ((loc, st.fresh()),)
        if loc[1][0] == 'v' and not loc[2]:
            st.store[loc] = ('rd', loc, st.cnt)

    def havoc_shared(self, st):
        """another thread may have run: forget what is shared"""
        n = st.fresh()
        roots = {}
        for k in list(st.store):
            if self.cfg.shared(k):
                del st.store[k]
        # every shared location seen so far gets a new epoch through a wildcard
        st.epochs = tuple((p, e) for p, e in st.epochs if p[1] != ('*',)) + ((('L', ('*',), ()), n),)

    def global_const(self, root):
        g = self.p.globals.get(root[2]) if len(root) > 2 else None
        if g and g.get('const') and g.get('init'):
            e = g['init']
            if e['k'] == 'Int':
                return int(e['v'])
            for n in walk(e):
                if n['k'] == 'Str':
                    return ('str', n['v'])
        return None

    # -- running a function -----------------------------------------------------
    def run(self, f, this=None, args=None, caps=None, st=None):
        """all abstract paths of a function entered with unknown parameters"""
        st = st or State()
        vals = []
        for i, p in enumerate(f['p']):
            if args and i in args:
                vals.append(args[i])
                continue
            vals.append(self.sym_value(('sym', 'p:' + (p['n'] or str(i))), p['t']))
        if this is None and f.get('cls') and not f.get('lambda') and not f.get('static'):
            this = ('ptr', L(('o', ('sym', 'this'))))
        st.fn = f['id']
        return self.invoke(st, f, this, vals, f['l'], caps=caps)

    def sym_value(self, s, ty):
        if ty.endswith('&'):
            return ('ptr', L(('o', s)))
        set_range(s, ty)
        if self._maybe_obj(ty):
            return ('rd', L(('o', s)), 0)
        return s

    def invoke(self, st, f, this, vals, l, caps=None):
        """analyse the body of f in place; returns [(state, return value)]"""
        if not self.dry:
            self.stats['functions'].add(f['id'])
        self.stats['calls'] += 1
        frame = st.fresh()
        saved_fn, saved_frames, saved_scopes = st.fn, st.frames, st.scopes
        st.fn = f['id']
        st.frames = st.frames + ((frame, f['id'], this, self._caps(caps)),)
        st.scopes = [[]]
        for p, v in zip(f['p'], vals):
            loc = L(('v', p['id'], frame, p['n']))
            if p['t'].endswith('&'):
                st.store[loc] = v if v is not None else ('sym', 'ref')
            else:
                self.write_local(st, loc, v)
                if self._needs_dtor(p['t']):
                    st.scopes[-1].append((loc, p['t']))
        self.depth += 1
        self.active.append(f['id'])
        try:
            if f.get('kind') == 'ctor':
                sts = self._ctor_inits(st, f, this)
            else:
                sts = [st]
            outs = []
            for s in sts:
                if s.out:
                    outs.append(s)
                elif f.get('b'):
                    outs.extend(self.stmt(f['b'], s))
                else:
                    outs.append(s)
        finally:
            self.depth -= 1
            self.active.pop()
        res = []
        for s0 in outs:
            for s in self._unwind(s0, 0, l):
                rv = None
                o = s.out
                if o and o[0] == 'ret':
                    rv = o[1]
                    s.out = None
                elif o and o[0] in ('break', 'cont'):
                    s.out = None
                self._drop_frame(s, frame, rv)
                s.fn, s.frames = saved_fn, saved_frames
                s.scopes = [list(x) for x in saved_scopes]
                res.append((s, rv))
        res = self.merge_vals(res)
        if len(res) > self.cfg.max_paths:
            self.stats['truncated'] += 1
            res = res[:self.cfg.max_paths]
        return res

    def write_local(self, st, loc, v):
        if isinstance(v, tuple) and v and v[0] == 'obj':
            st.store[loc] = v[1] if v[1] is not None else ('undef',)
            for r, x in v[2]:
                st.store[loc_ext(loc, *r)] = x
        elif v is not None:
            st.store[loc] = v

    def _caps(self, caps):
        return caps

    def _drop_frame(self, s, frame, rv):
        for k in [k for k in s.store if k[1][0] == 'v' and k[1][2] == frame]:
            # keep locals that escaped through a returned or captured pointer
            del s.store[k]

    def merge_vals(self, res):
        if len(res) < 2 or getattr(self.cfg, 'keep_paths', False) and len(res) < 64:
            return res
        out = []
        for s, v in res:
            for i, (s2, v2) in enumerate(out):
                if v == v2 and self._same(s, s2):
                    s2.facts = self._meet(s.facts, s2.facts)
                    s2.cnt = max(s.cnt, s2.cnt)
                    break
            else:
                out.append((s, v))
        return out

    def merge(self, sts):
        return [s for s, v in self.merge_vals([(s, None) for s in sts])]

    def _same(self, a, b):
        return a.out == b.out and a.locks == b.locks and a.ev == b.ev and a.store == b.store and a.epochs == b.epochs \
            and len(a.scopes) == len(b.scopes)

    def _meet(self, a, b):
        bs = set(b.items)
        return Facts(tuple(x for x in a.items if x in bs or b.decide(x)) +
                     tuple(x for x in b.items if x not in a.items and a.decide(x)))

    # -- constructors -----------------------------------------------------------
    def _ctor_inits(self, st, f, this):
        sts = [st]
        loc = this[1]
        for i in f.get('inits', []):
            nxt = []
            for s in sts:
                if s.out:
                    nxt.append(s)
                    continue
                if 'f' in i:
                    tgt = loc_ext(loc, ('f', i['f']))
                    rec = self.p.records.get(f.get('rid'))
                    ft = ''
                    if rec:
                        for fd in rec['fields']:
                            if fd['n'] == i['f']:
                                ft = fd['t']
                    nxt.extend(self.init_into(s, i['e'], tgt, ft))
                elif 'base' in i or i.get('deleg'):
                    nxt.extend(self.init_into(s, i['e'], loc, i.get('base', '')))
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    def init_into(self, st, e, loc, ty=''):
        """initialise the object at loc from expression e"""
        if e is None:
            return [st]
        if ty.endswith('&'):
            out = []
            for s, v in self.ev(e, st):
                if not s.out:
                    s.store[loc] = v
                out.append(s)
            return out
        k = e['k']
        if k in ('Tmp',):
            return self.init_into(st, e['e'], loc, ty)
        if k == 'Cast' and e['ck'] in ('ToVoid',):
            return [s for s, v in self.ev(e, st)]
        if k == 'Ctor':
            return self.construct(st, e, loc, ty)
        if k == 'List':
            return self.init_list(st, e, loc, ty)
        out = []
        for s, v in self.ev(e, st):
            if not s.out:
                if e.get('lv'):
                    v = self.read(s, v[1], e['t'], e.get('l')) if isinstance(v, tuple) and v[0] == 'ptr' else v
                self.write(s, loc, v, e.get('l', ''), ty)
            out.append(s)
        return out

    def init_list(self, st, e, loc, ty):
        t = strip_cv(e['t'])
        self.erase(st, loc)
        if not e.get('fs'):
            if len(e['a']) == 1 and int_type(t):
                return self.init_into(st, e['a'][0], loc, ty)
            if not e['a'] and int_type(t):
                st.store[loc] = 0
                return [st]
        st.store[loc] = 0 if (not e['a'] or e.get('fill') or e.get('fs')) else ('undef',)
        sts = [st]
        fs = e.get('fs') or []
        m = re.match(r'std::array<', t)
        for i, a in enumerate(e['a']):
            nxt = []
            for s in sts:
                if s.out:
                    nxt.append(s)
                    continue
                if fs and i < len(fs):
                    if fs[i].startswith('#base:') or fs[i] == '_M_elems':
                        tgt = loc
                    else:
                        tgt = loc_ext(loc, ('f', fs[i]))
                else:
                    tgt = loc_index(loc_ext(loc, ('f', '#a')), i)
                if a is None:
                    nxt.append(s)
                elif tgt == loc and a['k'] == 'List' and a.get('fill') is not None and not a['a']:
                    s.store[loc] = 0
                    nxt.append(s)
                elif a['k'] == 'Zero':
                    s.store[tgt] = 0
                    nxt.append(s)
                else:
                    sub_ = self.init_into(s, a, tgt)
                    nxt.extend(sub_)
            sts = nxt
        return sts

    def construct(self, st, e, loc, ty=''):
        f = e['f']
        cls = base(f.get('cls', ''))
        name = base(f['n'])
        fn = self.p.functions.get(f['id'])
        if (e.get('copy') or e.get('move')) and e['a'] and (e.get('triv') or not fn):
            # copying / moving a value
            out = []
            a = e['a'][0]
            for s, v in self.ev(a, st):
                if s.out:
                    out.append(s)
                    continue
                src = None
                if a.get('lv') and isinstance(v, tuple) and v[0] == 'ptr':
                    src = v[1]
                    v = self.read(s, src, e['t'], e.get('l'))
                self.write(s, loc, v, e.get('l', ''), ty)
                if e.get('move') and src is not None:
                    self.moved_from(s, src, e['t'])
                out.append(s)
            return out
        if fn is not None and not self.cfg.opaque(self, fn):
            res = []
            for s, vals in self.args(e['a'], f['pt'], st):
                if s.out:
                    res.append(s)
                    continue
                r = self.cfg.model(self, s, name, e, ('ptr', loc), vals)
                if r is None:
                    r = self.invoke(s, fn, ('ptr', loc), vals, e.get('l', ''))
                res.extend(x for x, v in r)
            return res
        res = []
        for s, vals in self.args(e['a'], f['pt'], st):
            if s.out:
                res.append(s)
                continue
            r = self.cfg.model(self, s, name, e, ('ptr', loc), vals)
            if r is None:
                r = self.std.construct(s, cls, name, e, loc, vals)
            if r is None:
                if e.get('dflt') and e.get('triv'):
                    # implicit default constructor: nothing is initialised
                    r = [(s, None)]
                else:
                    self.unmodelled(name)
                    v = ('call', name, tuple(vals), s.fresh())
                    self.emit(s, 'call', e.get('l', ''), name=name, this=('ptr', loc), args=tuple(vals), ret=v)
                    self.write(s, loc, v, e.get('l', ''))
                    r = [(s, None)]
            res.extend(x for x, v in r)
        return res

    def moved_from(self, s, src, ty):
        t = strip_cv(ty)
        if self.std.is_container(t):
            self.erase_all(s, src)
            s.store[src] = ('undef',)
            s.store[loc_ext(src, ('f', '#n'))] = 0
        elif t.startswith(('std::shared_ptr', 'std::unique_ptr')):
            s.store[src] = 0
        elif t.startswith('std::basic_string') or t.startswith('std::function'):
            s.store[src] = ('moved', s.fresh())
        else:
            rec = self.p.by_type.get(t)
            if rec:
                for fd in rec['fields']:
                    self.moved_from(s, loc_ext(src, ('f', fd['n'])), fd['t'])
            elif t.startswith('std::pair<'):
                from .stdmodel import template_args
                ta = template_args(t)
                for n, x in zip(('first', 'second'), ta):
                    self.moved_from(s, loc_ext(src, ('f', n)), x)

    # -- calls --------------------------------------------------------------------
    def args(self, exprs, pt, st):
        """evaluate call arguments; by-value class arguments are copied"""
        res = [(st, [])]
        for i, a in enumerate(exprs):
            nxt = []
            for s, vs in res:
                if s.out:
                    nxt.append((s, vs))
                    continue
                p = pt[i] if i < len(pt) else ''
                for s2, v in self.ev(a, s):
                    if not s2.out and a is not None and a.get('lv') and not p.endswith('&') and p and \
                            isinstance(v, tuple) and v[0] == 'ptr':
                        v = self.read(s2, v[1], a['t'], a.get('l'))
                    elif not s2.out and p.endswith('&') and a is not None and not a.get('lv'):
                        # bind a temporary
                        tl = L(('v', 't%d' % s2.fresh(), s2.frames[-1][0] if s2.frames else 0, 'tmp'))
                        self.write_local(s2, tl, v)
                        v = ('ptr', tl)
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def unmodelled(self, name):
        if not self.dry:
            self.stats['unmodelled'][name] = self.stats['unmodelled'].get(name, 0) + 1

    def call(self, st, e, f, this, vals):
        """f: callee info; returns [(state, value)]"""
        name = base(f['n'])
        r = self.cfg.model(self, st, name, e, this, vals)
        if r is not None:
            return r
        fn = self.p.functions.get(f['id'])
        if fn is None and f.get('virt') and this is not None:
            pass
        if fn is not None and fn.get('b') is not None and not (fn.get('implicit') or fn.get('defaulted')):
            if self.depth >= self.cfg.max_depth or self.active.count(fn['id']) >= 2 or self.cfg.opaque(self, fn):
                return self.opaque_call(st, e, name, f, this, vals)
            return self.invoke(st, fn, this, vals, e.get('l', ''))
        if fn is not None and (fn.get('implicit') or fn.get('defaulted')) and name.endswith('operator='):
            # implicit copy / move assignment
            src = vals[0]
            v = src
            if isinstance(src, tuple) and src[0] == 'ptr':
                rt = strip_cv(deref_type(f['pt'][0]))
                v = self.read(st, src[1], rt, e.get('l'))
                self.write(st, this[1], v, e.get('l', ''))
                if f['pt'][0].endswith('&&'):
                    self.moved_from(st, src[1], rt)
            return [(st, this)]
        r = self.std.call(st, name, e, f, this, vals)
        if r is not None:
            return r
        return self.opaque_call(st, e, name, f, this, vals)

    def opaque_call(self, st, e, name, f, this, vals):
        rt = f.get('rt', '')
        if name in PURE or self.cfg.pure(name):
            v = ('call', name, tuple(vals))
            if this is not None:
                v = ('call', name, (this,) + tuple(vals))
            set_range(v, rt)
            return [(st, v)]
        if f['id'] not in self.p.functions:
            self.unmodelled(name)
        v = ('sym', name, st.fresh())
        set_range(v, rt)
        if rt.endswith('&'):
            v = ('ptr', L(('o', v)))
        # an unknown callee may change what it gets by non-const reference or pointer
        mut, raw = [], []
        for i, x in enumerate(vals):
            p = f['pt'][i] if i < len(f['pt']) else ''
            if isinstance(x, tuple) and x[0] == 'ptr' and (p.endswith('&') or p.endswith('*')) \
                    and not p.startswith('const ') and p not in ('FILE *',):
                self.havoc(st, x[1])
                mut.append(x[1])
            elif p.endswith('*') and not p.startswith('const ') and p != 'FILE *':
                raw.append(x)
        if this is not None and not f.get('const') and isinstance(this, tuple) and this[0] == 'ptr':
            self.havoc(st, this[1])
            mut.append(this[1])
        self.emit(st, 'call', e.get('l', ''), name=name, this=this, args=tuple(vals), ret=v, mut=tuple(mut), raw=tuple(raw))
        res = [(st, v)]
        if self.cfg.may_throw(name):
            s2 = st.fork()
            s2.out = ('throw', 'unknown', ('exc', name), e.get('l', ''))
            res.append((s2, None))
        return res

    def call_value(self, st, e, fv, vals):
        """call through a callable value"""
        if isinstance(fv, tuple):
            if fv[0] == 'lam':
                fn = self.p.functions.get(fv[1])
                if fn is not None:
                    if self.depth >= self.cfg.max_depth:
                        return self.opaque_call(st, e, fn['base'], {'id': -1, 'pt': []}, None, vals)
                    vals = self.adapt(st, fn, vals)
                    return self.invoke(st, fn, None, vals, e.get('l', ''), caps=fv)
            if fv[0] == 'fn':
                fn = self.p.functions.get(fv[1])
                if fn is not None and fn.get('b'):
                    this, rest = None, vals
                    if fn.get('cls') and not fn.get('static'):
                        this, rest = vals[0], vals[1:]
                    r = self.cfg.model(self, st, fn['base'], e, this, rest)
                    if r is not None:
                        return r
                    if self.cfg.opaque(self, fn):
                        return self.opaque_call(st, e, fn['base'], {'id': fn['id'], 'pt': [p['t'] for p in fn['p']], 'rt': fn['rt']}, this, rest)
                    rest = self.adapt(st, fn, rest)
                    return self.invoke(st, fn, this, rest, e.get('l', ''))
            if fv[0] == 'bind':
                out = []
                for a in fv[2]:
                    if isinstance(a, tuple) and a and a[0] == 'ph':
                        out.append(vals[a[1] - 1] if a[1] - 1 < len(vals) else ('sym', 'missing'))
                    else:
                        out.append(a)
                return self.call_value(st, e, fv[1], out)
        r = self.cfg.model(self, st, '#callvalue', e, fv, vals)
        if r is not None:
            return r
        v = ('sym', '#callvalue', st.fresh())
        for x in vals:
            if isinstance(x, tuple) and x[0] == 'ptr':
                self.havoc(st, x[1])
        self.emit(st, 'callfn', e.get('l', ''), f=fv, args=tuple(vals), ret=v)
        res = [(st, v)]
        if self.cfg.may_throw('#callvalue'):
            s2 = st.fork()
            s2.out = ('throw', 'unknown', ('exc', '#callvalue'), e.get('l', ''))
            res.append((s2, None))
        return res

    def adapt(self, st, fn, vals):
        """match values to parameter kinds (by value / by reference)"""
        out = []
        for i, p in enumerate(fn['p']):
            v = vals[i] if i < len(vals) else self.sym_value(('sym', 'p:' + p['n']), p['t'])
            if not p['t'].endswith('&') and isinstance(v, tuple) and v[0] == 'ptr' and not strip_cv(p['t']).endswith('*'):
                v = self.read(st, v[1], p['t'])
            elif p['t'].endswith('&') and not (isinstance(v, tuple) and v[0] == 'ptr'):
                tl = L(('v', 't%d' % st.fresh(), st.frames[-1][0] if st.frames else 0, 'tmp'))
                self.write_local(st, tl, v)
                v = ('ptr', tl)
            out.append(v)
        return out

    # -- expressions ------------------------------------------------------------
    def bind(self, results, fn):
        out = []
        for s, v in results:
            if s.out:
                out.append((s, None))
            else:
                out.extend(fn(s, v))
        return out

    def evs(self, exprs, st):
        res = [(st, ())]
        for e in exprs:
            nxt = []
            for s, vs in res:
                if s.out:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + (v,)))
            res = nxt
        return res

    def ev(self, e, st):
        if e is None:
            return [(st, None)]
        m = getattr(self, 'x_' + e['k'], None)
        if m is None:
            self.unmodelled('expr:' + e['k'])
            return [(st, ('sym', 'unk:' + e['k'], st.fresh()))]
        return m(e, st)

    def rv(self, e, st):
        """evaluate to an rvalue (loads glvalues)"""
        def f(s, v):
            if e.get('lv') and isinstance(v, tuple) and v[0] == 'ptr':
                return [(s, self.read(s, v[1], e['t'], e.get('l')))]
            return [(s, v)]
        return self.bind(self.ev(e, st), f)

    def x_Int(self, e, st):
        return [(st, int(e['v']))]

    def x_Str(self, e, st):
        return [(st, ('str', e['v']))]

    def x_Flt(self, e, st):
        return [(st, ('flt', e['v']))]

    def x_Null(self, e, st):
        return [(st, 0)]

    def x_Zero(self, e, st):
        return [(st, 0)]

    def x_This(self, e, st):
        for fr in reversed(st.frames):
            if fr[2] is not None:
                return [(st, fr[2])]
            if fr[3] is not None:
                for c in fr[3][2]:
                    if c[0] == 'this':
                        return [(st, c[1])]
            break
        return [(st, ('ptr', L(('o', ('sym', 'this')))))]

    def x_Fn(self, e, st):
        f = e['f']
        return [(st, ('fn', f['id'], base(f['n'])))]

    def var_loc(self, e, st):
        """location of a variable: own frame, captured, enclosing frame or global"""
        if e.get('g'):
            return L(('g', e['g'], e['id'])), e.get('vt', '').endswith('&')
        ref = e.get('vt', '').endswith('&')
        vid = e['id']
        for fr in reversed(st.frames):
            loc = L(('v', vid, fr[0], e['n']))
            if loc in st.store or any(k[1] == loc[1] for k in st.store):
                return loc, ref
            if fr[3] is not None:
                for c in fr[3][2]:
                    if c[0] == vid:
                        return c, ref
                if fr[3][0] == 'lam' and fr[1] == fr[3][1]:
                    break
        return None, ref

    def x_Var(self, e, st):
        loc, ref = self.var_loc(e, st)
        if loc is None:
            # declared without initialiser in the current frame, or a free variable of a lambda
            fr = st.frames[-1] if st.frames else (0, None, None, None)
            if ('decl', e['id'], fr[0]) in st.store:
                loc = L(('v', e['id'], fr[0], e['n']))
            else:
                s = ('sym', 'c:' + e['n'])
                if not ref:
                    l = L(('o', s))
                    return [(st, ('ptr', l))]
                return [(st, ('ptr', L(('o', s))))]
        if loc[0] != 'L':
            # capture record (id, mode, value)
            if loc[1] == 'ref':
                return [(st, loc[2])]
            v = loc[2]
            # captured by value: an immutable object owned by the closure
            if ref and isinstance(v, tuple) and v[0] == 'ptr':
                return [(st, v)]
            cl = L(('c', e['id'], st.frames[-1][3][3] if st.frames[-1][3] and len(st.frames[-1][3]) > 3 else 0, e['n']))
            if cl not in st.store and not any(k[1] == cl[1] for k in st.store):
                self.write_local(st, cl, v)
            return [(st, ('ptr', cl))]
        if ref:
            v = st.store.get(loc)
            if v is None:
                v = ('ptr', L(('o', ('sym', 'r:' + e['n']))))
            elif not (isinstance(v, tuple) and v[0] == 'ptr'):
                v = ('ptr', L(('o', v)))
            return [(st, v)]
        return [(st, ('ptr', loc))]

    def x_Bind(self, e, st):
        if e.get('e') is not None:
            return self.ev(e['e'], st)
        fr = st.frames[-1] if st.frames else (0,)
        loc = L(('v', e['id'], fr[0], e['n']))
        if loc in st.store:
            return [(st, st.store[loc])]
        return [(st, ('ptr', L(('o', ('sym', 'b:' + e['n'])))))]

    def as_loc(self, v):
        if isinstance(v, tuple) and v[0] == 'ptr':
            return v[1]
        return L(('o', v))

    def x_Mem(self, e, st):
        def f(s, v):
            loc = self.as_loc(v)
            if not e.get('arrow') and not e['b'].get('lv') and not (isinstance(v, tuple) and v[0] == 'ptr'):
                # member of a prvalue
                r = fld(v, (('f', e['n']),)) if isinstance(v, tuple) or v == 0 else v
                return [(s, r if not e.get('lv') else ('ptr', L(('o', v), ('f', e['n']))))]
            loc = loc_ext(loc, ('f', e['n']))
            if e.get('ft', '').endswith('&'):
                r = self._read(s, loc, '')
                if not (isinstance(r, tuple) and r[0] == 'ptr'):
                    r = ('ptr', L(('o', r)))
                return [(s, r)]
            return [(s, ('ptr', loc))]
        return self.bind(self.ev(e['b'], st), f)

    def x_Idx(self, e, st):
        def f(s, vs):
            b, i = vs
            return [(s, ('ptr', loc_index(self.as_loc(b), i)))]
        return self.bind(self.evs([e['b'], e['i']], st), f)

    def x_Ld(self, e, st):
        def f(s, v):
            if isinstance(v, tuple) and v[0] == 'ptr':
                return [(s, self.read(s, v[1], e['t'], e.get('l')))]
            return [(s, v)]
        return self.bind(self.ev(e['e'], st), f)

    def x_Tmp(self, e, st):
        # materialise a temporary
        tl = L(('v', 't%d' % st.fresh(), st.frames[-1][0] if st.frames else 0, 'tmp'))
        sub_ = e['e']
        out = []
        for s in self.init_into(st, sub_, tl, ''):
            if not s.out and self._needs_dtor(e['t']) and s.scopes:
                s.scopes[-1].append((tl, e['t']))
            out.append((s, ('ptr', tl) if not s.out else None))
        return out

    def x_Un(self, e, st):
        op = e['op']
        if op == '!':
            return self.bind(self.rv(e['e'], st), lambda s, v: [(s, tnot(tobool(v)))])
        if op == '&':
            return self.ev(e['e'], st)
        if op == '*':
            def f(s, v):
                if isinstance(v, tuple) and v[0] == 'fn':
                    return [(s, v)]
                return [(s, ('ptr', self.as_loc(v)))]
            return self.bind(self.ev(e['e'], st), f)
        if op in ('++', '--'):
            def f(s, v):
                loc = self.as_loc(v)
                old = self.read(s, loc, e['e']['t'], e.get('l'))
                d = 1 if op == '++' else -1
                if isinstance(old, tuple) and old[0] == 'ptr':
                    new = ('ptr', loc_index(old[1], d))
                else:
                    new = add(old, d)
                self.write(s, loc, new, e.get('l', ''))
                if e.get('lv'):
                    return [(s, ('ptr', loc))]
                return [(s, old if e.get('post') else new)]
            return self.bind(self.ev(e['e'], st), f)
        if op == '-':
            return self.bind(self.rv(e['e'], st), lambda s, v: [(s, T.scale(v, -1) if T.numericish(v) else ('op', 'neg', v, 0))])
        if op == '~':
            return self.bind(self.rv(e['e'], st), lambda s, v: [(s, sub(-1, v) if isinstance(v, int) else ('op', '~', v, 0))])
        if op == '+':
            return self.rv(e['e'], st)
        return self.bind(self.rv(e['e'], st), lambda s, v: [(s, ('op', op, v, 0))])

    def arith(self, s, op, a, b, ty):
        if isinstance(a, tuple) and a[0] == 'flt' or isinstance(b, tuple) and b[0] == 'flt' or \
                strip_cv(ty) in ('double', 'float', 'long double'):
            return ('op', 'f' + op, a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == 'ptr':
                if op in ('+', '-'):
                    if isinstance(y, tuple) and y[0] == 'ptr' and op == '-':
                        d = ptr_diff(a, b)
                        return d if d is not None else ('op', 'pdiff', a, b)
                    if op == '+' or x is a:
                        return ('ptr', loc_index(x[1], y if op == '+' else T.scale(y, -1)))
                if op in ('==', '!=', '<', '<=', '>', '>='):
                    d = ptr_diff(a, b)
                    if d is not None:
                        return T.binop(op, d, 0)
                    if op == '==':
                        return eq(a, b)
                    if op == '!=':
                        return tnot(eq(a, b))
                    return ('fcmp', op, a, b)
                return ('op', op, a, b)
        if strip_cv(ty).endswith('*') and op in ('+', '-'):
            return ('ptr', loc_index(self.as_loc(a), b if op == '+' else T.scale(b, -1)))
        if op in ('<', '<=', '>', '>=') and not (T.numericish(a) and T.numericish(b)):
            return ('fcmp', op, a, b)
        if T.isboolterm(a) and op not in ('==', '!='):
            a = tite(a, 1, 0) if not isinstance(a, int) else a
            a = ('ite', a, 1, 0) if T.isboolterm(a) else a
        if T.isboolterm(b) and op not in ('==', '!='):
            b = ('ite', b, 1, 0)
        if op in ('+', '-', '*') and not (T.numericish(a) and T.numericish(b)):
            return ('op', op, a, b)
        return T.binop(op, a, b)

    def x_Bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            if self.is_pure(e['b']):
                def f(s, vs):
                    a, b = tobool(vs[0]), tobool(vs[1])
                    if op == '&&':
                        if a == 0 or b == 0:
                            return [(s, 0)]
                        if a == 1:
                            return [(s, b)]
                        return [(s, a if b == 1 else ('and', a, b))]
                    if a == 1 or b == 1:
                        return [(s, 1)]
                    if a == 0:
                        return [(s, b)]
                    return [(s, a if b == 0 else ('or', a, b))]
                return self.bind(self.rvs([e['a'], e['b']], st), f)
            out = []
            for s, v in self.rv(e['a'], st):
                if s.out:
                    out.append((s, None))
                    continue
                for s2, tr in self.branch(s, tobool(v)):
                    if tr == (op == '&&'):
                        out.extend(self.bind(self.rv(e['b'], s2), lambda s3, w: [(s3, tobool(w))]))
                    else:
                        out.append((s2, int(tr)))
            return out
        if op == ',':
            return self.bind(self.evs([e['a'], e['b']], st), lambda s, vs: [(s, vs[1])])
        return self.bind(self.rvs([e['a'], e['b']], st), lambda s, vs: [(s, self.arith(s, op, vs[0], vs[1], e['t']))])

    def rvs(self, exprs, st):
        res = [(st, ())]
        for e in exprs:
            nxt = []
            for s, vs in res:
                if s.out:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.rv(e, s):
                    nxt.append((s2, vs + (v,)))
            res = nxt
        return res

    def is_pure(self, e):
        c = e.get('_pure')
        if c is None:
            c = True
            for n in walk(e):
                k = n['k']
                if k in ('Asn', 'CAsn', 'New', 'Delete', 'Throw', 'Lambda', 'StmtExpr') or \
                        (k == 'Un' and n['op'] in ('++', '--')):
                    c = False
                elif k in ('Call', 'MCall', 'Op', 'Ctor'):
                    f = n.get('f')
                    if not f:
                        c = False
                        continue
                    nm = base(f['n'])
                    if self.p.functions.get(f['id']) or not (nm in PURE or self.std.is_pure(nm, f)):
                        c = False
                if not c:
                    break
            e['_pure'] = c
        return c

    def x_Asn(self, e, st):
        def f(s, vs):
            v, tgt = vs
            loc = self.as_loc(tgt)
            self.write(s, loc, v, e.get('l', ''), e['t'])
            return [(s, tgt if e.get('lv') else v)]
        res = []
        for s, v in self.rv(e['b'], st):
            if s.out:
                res.append((s, None))
                continue
            for s2, t in self.ev(e['a'], s):
                if s2.out:
                    res.append((s2, None))
                else:
                    res.extend(f(s2, (v, t)))
        return res

    def x_CAsn(self, e, st):
        def f(s, vs):
            v, tgt = vs
            loc = self.as_loc(tgt)
            old = self.read(s, loc, e['a']['t'], e.get('l'))
            new = self.arith(s, e['op'], old, v, e.get('ct', e['t']))
            self.write(s, loc, new, e.get('l', ''))
            return [(s, tgt if e.get('lv') else new)]
        res = []
        for s, v in self.rv(e['b'], st):
            if s.out:
                res.append((s, None))
                continue
            for s2, t in self.ev(e['a'], s):
                if s2.out:
                    res.append((s2, None))
                else:
                    res.extend(f(s2, (v, t)))
        return res

    def x_Cond(self, e, st):
        if self.is_pure(e['a']) and self.is_pure(e['b']) and not e.get('lv'):
            out = []
            for s, c in self.rv(e['c'], st):
                if s.out:
                    out.append((s, None))
                    continue
                c = tobool(c)
                d = s.facts.decide(c) if not isinstance(c, int) else bool(c)
                if d is not None:
                    out.extend(self.rv(e['a'] if d else e['b'], s))
                else:
                    out.extend(self.bind(self.rvs([e['a'], e['b']], s), lambda s2, vs: [(s2, tite(c, vs[0], vs[1]))]))
            return out
        out = []
        for s, c in self.rv(e['c'], st):
            if s.out:
                out.append((s, None))
                continue
            for s2, tr in self.branch(s, tobool(c)):
                out.extend(self.ev(e['a'] if tr else e['b'], s2))
        return self.merge_vals(out)

    def x_Cast(self, e, st):
        ck = e['ck']
        if ck == 'ArrayToPointerDecay':
            return self.bind(self.ev(e['e'], st), lambda s, v: [(s, ('ptr', loc_ext(v[1], ('f', '#a')))
                                                                 if isinstance(v, tuple) and v[0] == 'ptr' else v)])
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BitCast', 'BaseToDerived'):
            return self.ev(e['e'], st)
        if ck == 'NullToPointer':
            return [(st, 0)]
        if ck in ('PointerToBoolean', 'IntegralToBoolean'):
            return self.bind(self.rv(e['e'], st), lambda s, v: [(s, tobool(v))])
        if ck == 'ToVoid':
            return self.bind(self.ev(e['e'], st), lambda s, v: [(s, None)])
        if ck == 'IntegralCast':
            return self.bind(self.rv(e['e'], st), lambda s, v: [(s, self.int_cast(s, v, e['st'], e['t'], e['e']))])
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            return self.bind(self.rv(e['e'], st), lambda s, v: [(s, v if ck != 'FloatingToIntegral' else set_range(('call', 'trunc', (v,)), e['t']))])
        if ck in ('IntegralToPointer', 'PointerToIntegral', 'MemberPointerToBoolean'):
            return self.rv(e['e'], st)
        return self.rv(e['e'], st)

    def int_cast(self, s, v, st_, tt, node=None):
        a, b = int_type(st_), int_type(tt)
        if T.isboolterm(v):
            return v
        if a is None or b is None or not T.numericish(v):
            return v
        if isinstance(v, int):
            w, sg = b
            m = v & ((1 << w) - 1)
            if sg and m >> (w - 1):
                m -= 1 << w
            return m
        if b[0] < a[0] and b[0] < 64:
            lo, hi = s.facts.range(v)
            l2, h2 = (-(1 << (b[0] - 1)), (1 << (b[0] - 1)) - 1) if b[1] else (0, (1 << b[0]) - 1)
            if lo >= l2 and hi <= h2:
                return v
            return ('cast', strip_cv(tt), v)
        if b[0] > a[0] and a[0] == 32 and not a[1] and node is not None and T.is_poly(v):
            # a 32-bit unsigned sum or product that is widened afterwards wraps before
            n = node
            while n.get('k') in ('Ld',):
                n = n['e']
            if n.get('k') == 'Bin' and n['op'] in ('+', '*', '<<'):
                lo, hi = s.facts.range(v)
                if hi > 0xffffffff:
                    return ('cast', 'unsigned int', v)
        return v

    def x_Op(self, e, st):
        f = e.get('f')
        if f is None:
            return self.bind(self.evs(e['a'], st), lambda s, vs: [(s, ('sym', 'op', s.fresh()))])
        name = base(f['n'])
        member = bool(f.get('cls'))
        # streaming to the console is not an effect the analyses look at
        if name in ('std::operator<<', 'std::basic_ostream::operator<<'):
            return self.std.stream(st, e)
        if f.get('cls') and '(lambda' in f['cls'] or (e['op'] == '()' and self.is_lambda(f)):
            def g(s, vs):
                fv = vs[0]
                if isinstance(fv, tuple) and fv[0] == 'ptr':
                    fv = self.read(s, fv[1], '')
                return self.call_value(s, e, fv, list(vs[1:]))
            return self.bind(self.evs(e['a'], st), g)
        if member:
            res = []
            for s, t in self.ev(e['a'][0], st):
                if s.out:
                    res.append((s, None))
                    continue
                if not (isinstance(t, tuple) and t[0] == 'ptr'):
                    # a prvalue object: materialise
                    tl = L(('v', 't%d' % s.fresh(), s.frames[-1][0] if s.frames else 0, 'tmp'))
                    self.write_local(s, tl, t)
                    t = ('ptr', tl)
                for s2, vals in self.args(e['a'][1:], f['pt'], s):
                    if s2.out:
                        res.append((s2, None))
                        continue
                    res.extend(self.call(s2, e, f, t, vals))
            return res
        return self.bind(self.args(e['a'], f['pt'], st), lambda s, vals: self.call(s, e, f, None, vals))

    def is_lambda(self, f):
        fn = self.p.functions.get(f['id'])
        return bool(fn and fn.get('lambda'))

    def x_MCall(self, e, st):
        f = e.get('f')
        res = []
        for s, t in self.ev(e['o'], st):
            if s.out:
                res.append((s, None))
                continue
            if not e.get('arrow') and not (isinstance(t, tuple) and t[0] == 'ptr'):
                tl = L(('v', 't%d' % s.fresh(), s.frames[-1][0] if s.frames else 0, 'tmp'))
                self.write_local(s, tl, t)
                t = ('ptr', tl)
            elif e.get('arrow') and not (isinstance(t, tuple) and t[0] == 'ptr'):
                t = ('ptr', L(('o', t)))
            if f is None:
                res.append((s, ('sym', 'mcall', s.fresh())))
                continue
            for s2, vals in self.args(e['a'], f['pt'], s):
                if s2.out:
                    res.append((s2, None))
                    continue
                res.extend(self.call(s2, e, f, t, vals))
        return res

    def x_Call(self, e, st):
        f = e.get('f')
        if f is None:
            def g(s, vs):
                return self.call_value(s, e, vs[0], list(vs[1:]))
            return self.bind(self.rvs([e['ce']] + e['a'], st), g)
        name = base(f['n'])
        if name == '__assert_fail':
            st.out = ('abort', name)
            return [(st, None)]
        return self.bind(self.args(e['a'], f['pt'], st), lambda s, vals: self.call(s, e, f, None, vals))

    def x_Ctor(self, e, st):
        # a prvalue: build in a temporary and return its value
        tl = L(('v', 't%d' % st.fresh(), st.frames[-1][0] if st.frames else 0, 'tmp'))
        out = []
        for s in self.construct(st, e, tl, e['t']):
            if s.out:
                out.append((s, None))
                continue
            v = self._read(s, tl, e['t'])
            if self._needs_dtor(e['t']) and s.scopes:
                s.scopes[-1].append((tl, e['t']))
            else:
                self.erase(s, tl)
            out.append((s, v))
        return out

    def x_List(self, e, st):
        tl = L(('v', 't%d' % st.fresh(), st.frames[-1][0] if st.frames else 0, 'tmp'))
        t = strip_cv(e['t'])
        if int_type(t) and len(e['a']) == 1:
            return self.rv(e['a'][0], st)
        if not e['a']:
            return [(st, 0)]
        if t.startswith('std::initializer_list') or not e.get('fs'):
            return self.bind(self.rvs(e['a'], st), lambda s, vs: [(s, ('list', vs))])
        out = []
        for s in self.init_list(st, e, tl, e['t']):
            if s.out:
                out.append((s, None))
            else:
                v = self._read(s, tl, e['t'])
                self.erase(s, tl)
                out.append((s, v))
        return out

    def x_Lambda(self, e, st):
        def f(s, vs):
            caps = []
            for c, v in zip(e['c'], vs):
                if c.get('this'):
                    caps.append(('this', v))
                elif c.get('ref'):
                    caps.append((c['id'], 'ref', v, c['n']))
                else:
                    caps.append((c['id'], 'val', v, c['n']))
            return [(s, ('lam', e['f']['id'], tuple(caps), s.fresh()))]
        res = [(st, ())]
        for c in e['c']:
            nxt = []
            for s, vs in res:
                if s.out:
                    nxt.append((s, vs))
                    continue
                ce = c.get('e')
                if c.get('this'):
                    r = self.x_This({}, s)
                elif c.get('ref'):
                    r = self.ev(ce, s)
                else:
                    r = self.rv(ce, s)
                    if c.get('vt', '').endswith('&') and False:
                        r = r
                for s2, v in r:
                    nxt.append((s2, vs + (v,)))
            res = nxt
        return self.bind(res, f)

    def x_New(self, e, st):
        def f(s, n):
            loc = L(('h', s.fresh(), e.get('l', '')))
            self.emit(s, 'new', e.get('l', ''), loc=loc, n=n, ty=e['nt'])
            if e.get('e') is not None and not e.get('arr'):
                return [(x, ('ptr', loc)) if not x.out else (x, None) for x in self.init_into(s, e['e'], loc, e['nt'])]
            s.store[loc] = ('undef',)
            return [(s, ('ptr', loc))]
        return self.bind(self.rv(e['n'], st) if e.get('n') else [(st, None)], f)

    def x_Delete(self, e, st):
        def f(s, v):
            self.emit(s, 'delete', e.get('l', ''), ptr=v)
            return [(s, None)]
        return self.bind(self.rv(e['e'], st), f)

    def x_Throw(self, e, st):
        def f(s, v):
            s.out = ('throw', base(strip_cv(deref_type(e.get('tt', '')))), v, e.get('l', ''))
            return [(s, None)]
        if e.get('e') is None:
            cur = st.store.get(('L', ('exc',), ()))
            st.out = cur if cur else ('throw', 'unknown', ('exc', 'rethrow'), e.get('l', ''))
            return [(st, None)]
        return self.bind(self.ev(e['e'], st), f)

    def x_StmtExpr(self, e, st):
        return [(s, None) for s in self.stmt(e['s'], st)]

    def x_ArrCopy(self, e, st):
        return self.rv(e['e'], st)

    def x_Unk(self, e, st):
        return self.bind(self.evs(e.get('a', []), st), lambda s, vs: [(s, ('sym', 'unk', s.fresh()))])

    def x_Atomic(self, e, st):
        return [(st, ('sym', 'atomic', st.fresh()))]

    # -- branching --------------------------------------------------------------
    def assume(self, st, t, val):
        """list of states in which boolean term t has truth value val"""
        if isinstance(t, int):
            return [st] if bool(t) == val else []
        d = st.facts.decide(t)
        if d is not None:
            if d != val:
                return []
            return [st]
        if t[0] == 'not':
            return self.assume(st, t[1], not val)
        if t[0] in ('and', 'or'):
            conj = (t[0] == 'and') == val      # both sides must have value val
            if conj:
                out = []
                for s in self.assume(st, t[1], val):
                    out.extend(self.assume(s, t[2], val))
                return out
            s2 = st.fork()
            out = self.assume(st, t[1], val)
            for s in self.assume(s2, t[1], not val):
                out.extend(self.assume(s, t[2], val))
            return out
        if t[0] == 'ite':
            out = []
            s2 = st.fork()
            for s in self.assume(st, t[1], True):
                out.extend(self.assume(s, tobool(t[2]), val))
            for s in self.assume(s2, t[1], False):
                out.extend(self.assume(s, tobool(t[3]), val))
            return out
        f = t if val else tnot(t)
        if isinstance(f, int):
            return [st] if f else []
        st.facts = st.facts.plus(f)
        return [st]

    def branch(self, st, t):
        """[(state, truth)]"""
        if not isinstance(t, int):
            t = tobool(t)
        if isinstance(t, int):
            return [(st, bool(t))]
        d = st.facts.decide(t)
        if d is not None:
            return [(st, d)]
        s2 = st.fork()
        return [(s, True) for s in self.assume(st, t, True)] + [(s, False) for s in self.assume(s2, t, False)]

    # -- statements -------------------------------------------------------------
    def stmt(self, n, st):
        if n is None:
            return [st]
        m = getattr(self, 's_' + n['k'], None)
        if m is None:
            self.unmodelled('stmt:' + n['k'])
            return [st]
        r = m(n, st)
        if len(r) > self.cfg.max_paths:
            r = self.merge(r)
            if len(r) > self.cfg.max_paths:
                self.stats['truncated'] += 1
                r = r[:self.cfg.max_paths]
        return r

    def _needs_dtor(self, ty):
        t = strip_cv(ty)
        if t.endswith('&') or t.endswith('*') or t in INT_TYPES:
            return False
        return self.std.has_dtor(t) or self._repo_dtor(t) is not None

    def _repo_dtor(self, t):
        rec = self.p.by_type.get(t)
        if rec:
            d = self.p.functions.get(rec.get('dtor'))
            if d and d.get('b') and not d.get('implicit') and not d.get('defaulted'):
                return d
        return None

    def destroy(self, st, loc, ty, l):
        """run the destructor of the object at loc"""
        t = strip_cv(ty)
        r = self.cfg.dtor(self, st, loc, t)
        if r is not None:
            return r
        if self.std.has_dtor(t):
            return self.std.destroy(st, loc, t, l)
        d = self._repo_dtor(t)
        if d is not None and not self.cfg.opaque(self, d):
            out = self.out_save(st)
            res = []
            for s, v in self.invoke(st, d, ('ptr', loc), [], l):
                if not s.out:
                    s.out = out
                res.append(s)
            return res
        if d is not None:
            self.emit(st, 'call', l, name=d['base'], this=('ptr', loc), args=(), ret=None)
        return [st]

    def out_save(self, st):
        o = st.out
        st.out = None
        return o

    def _unwind(self, st, depth, l):
        """leave scopes down to the given nesting depth, running destructors"""
        sts = [st]
        while True:
            s0 = sts[0]
            if all(len(s.scopes) <= depth for s in sts):
                return sts
            nxt = []
            for s in sts:
                if len(s.scopes) <= depth:
                    nxt.append(s)
                    continue
                if not s.scopes[-1]:
                    s.scopes.pop()
                    nxt.append(s)
                    continue
                loc, ty = s.scopes[-1].pop()
                o = s.out
                s.out = None
                if o and o[0] in ('abort', 'exit'):
                    s.out = o
                    nxt.append(s)
                    continue
                for s2 in self.destroy(s, loc, ty, l):
                    if s2.out is None:
                        s2.out = o
                    nxt.append(s2)
            sts = nxt

    def scoped(self, st, l, fn):
        d = len(st.scopes)
        st.scopes.append([])
        out = []
        for s in fn(st):
            out.extend(self._unwind(s, d, l))
        return out

    def s_Block(self, n, st):
        def body(s0):
            sts = [s0]
            for x in n['s']:
                nxt = []
                for s in sts:
                    if s.out:
                        nxt.append(s)
                    else:
                        nxt.extend(self.stmt(x, s))
                sts = nxt
                if len(sts) > self.cfg.join_at:
                    sts = self.join(sts)
            return sts
        return self.merge(self.scoped(st, n.get('le') or n.get('l'), body))

    def join(self, sts):
        """too many paths: join the states the analysis does not distinguish"""
        groups, order = {}, []
        for s in sts:
            k = self.cfg.join_key(s)
            if k is None:
                order.append([s])
                continue
            k = (k, s.out[0] if s.out else None, s.locks, tuple(tuple(x) for x in s.scopes), s.frames)
            if k not in groups:
                groups[k] = [s]
                order.append(groups[k])
            else:
                groups[k].append(s)
        out = []
        for g in order:
            if len(g) == 1:
                out.append(g[0])
                continue
            self.stats['joined'] = self.stats.get('joined', 0) + len(g) - 1
            a = g[0].fork()
            common = set(a.facts.items)
            for b in g[1:]:
                common &= set(b.facts.items)
                a.cnt = max(a.cnt, b.cnt)
            a.facts = Facts(tuple(x for x in a.facts.items if x in common))
            if a.out and a.out[0] == 'ret' and any(b.out != a.out for b in g):
                vs = [b.out[1] for b in g]
                v = vs[0]
                if any(x != v for x in vs):
                    v = ('sym', 'joined', a.fresh())
                a.out = ('ret', v) + tuple(a.out[2:])
            diff = set()
            keys = set()
            for b in g:
                keys |= set(b.store)
            for k in keys:
                v = a.store.get(k)
                if any(b.store.get(k) != v for b in g[1:]):
                    diff.add(k)
            eps = set()
            for b in g:
                eps |= set(b.epochs)
            for p, n in sorted(eps, key=repr):
                if not all((p, n) in b.epochs for b in g):
                    if p[1] == ('*',):
                        self.havoc_shared(a)
                    elif p[0] == 'L':
                        self.havoc(a, p)
            for k in sorted(diff, key=repr):
                if k[0] == 'L' and k[1][0] != 'exc':
                    self.erase(a, k)
                    a.store[k] = ('sym', 'joined', a.fresh())
                else:
                    a.store.pop(k, None)
            out.append(a)
        return out

    def s_Decl(self, n, st):
        sts = [st]
        for d in n['d']:
            nxt = []
            for s in sts:
                if s.out:
                    nxt.append(s)
                else:
                    nxt.extend(self.decl(d, s))
            sts = nxt
        return sts

    def decl(self, d, st):
        fr = st.frames[-1][0] if st.frames else 0
        loc = L(('v', d['id'], fr, d['n']))
        if d.get('static'):
            loc = L(('g', d['n'], d['id']))
        ty = d['t']
        e = d.get('e')
        self.erase(st, loc)
        if e is None:
            st.store[loc] = ('undef',)
            sts = [st]
        elif ty.endswith('&'):
            sts = []
            for s, v in self.ev(e, st):
                if not s.out:
                    if not (isinstance(v, tuple) and v[0] == 'ptr'):
                        tl = L(('v', 't%d' % s.fresh(), fr, 'tmp'))
                        self.write_local(s, tl, v)
                        v = ('ptr', tl)
                    s.store[loc] = v
                sts.append(s)
        else:
            st.store[loc] = ('undef',)
            n0 = len(st.ev)
            sts = self.init_into(st, e, loc, ty)
            if d.get('static'):
                # initialised once, under the protection of the language
                for s in sts:
                    s.ev = s.ev[:n0] + tuple(x for x in s.ev[n0:] if x.kind not in ('wr', 'rd') or x['loc'][1] != loc[1])
                    if not s.out and not ty.startswith('const '):
                        self.havoc(s, loc)
        for s in sts:
            if s.out:
                continue
            for i, b in enumerate(d.get('binds', [])):
                bl = L(('v', b['id'], fr, b['n']))
                src = loc
                if ty.endswith('&'):
                    src = self.as_loc(s.store[loc])
                nm = ('first', 'second')[i] if i < 2 else '#%d' % i
                s.store[bl] = ('ptr', loc_ext(src, ('f', nm)))
            if self._needs_dtor(ty) and s.scopes and not d.get('static'):
                s.scopes[-1].append((loc, ty))
        return sts

    def s_Expr(self, n, st):
        d = len(st.scopes)
        st.scopes.append([])      # temporaries die at the end of the full expression
        out = []
        for s, v in self.ev(n['e'], st):
            out.extend(self._unwind(s, d, n.get('l')))
        return out

    def s_Null(self, n, st):
        return [st]

    def s_Label(self, n, st):
        return self.stmt(n['b'], st)

    def s_Goto(self, n, st):
        raise AnalysisBroken('goto at %s' % n.get('l'))

    def s_Ret(self, n, st):
        f = self.p.functions.get(st.fn)
        rt = f['rt'] if f else ''
        if n.get('e') is None:
            st.out = ('ret', None)
            return [st]
        out = []
        r = self.ev(n['e'], st) if rt.endswith('&') else self.rv(n['e'], st)
        for s, v in r:
            if not s.out:
                s.out = ('ret', v)
            out.append(s)
        return out

    def s_Break(self, n, st):
        st.out = ('break',)
        return [st]

    def s_Cont(self, n, st):
        st.out = ('cont',)
        return [st]

    def s_If(self, n, st):
        def body(s0):
            sts = [s0]
            if n.get('init'):
                sts = self.stmt(n['init'], s0)
            if n.get('cv'):
                sts = [y for x in sts for y in (self.decl(n['cv'], x) if not x.out else [x])]
            res = []
            for s in sts:
                if s.out:
                    res.append(s)
                    continue
                for s1, c in self.cond(n['c'], s):
                    if s1.out:
                        res.append(s1)
                        continue
                    for s2, tr in self.branch(s1, tobool(c)):
                        br = n['a'] if tr else n.get('b')
                        res.extend(self.stmt(br, s2) if br is not None else [s2])
            return res
        return self.merge(self.scoped(st, n.get('l'), body))

    def cond(self, e, st):
        """evaluate a condition as a full expression"""
        d = len(st.scopes)
        st.scopes.append([])
        out = []
        for s, v in self.rv(e, st):
            for s2 in self._unwind(s, d, e.get('l')):
                out.append((s2, v))
        return out

    def s_Switch(self, n, st):
        def body(s0):
            res = []
            sts = [s0]
            if n.get('init'):
                sts = self.stmt(n['init'], s0)
            for s in sts:
                for s1, v in self.cond(n['c'], s):
                    if s1.out:
                        res.append(s1)
                        continue
                    res.extend(self._switch(n, s1, v))
            return res
        return self.merge(self.scoped(st, n.get('l'), body))

    def _switch(self, n, st, v):
        b = n['b']
        items = b['s'] if b['k'] == 'Block' else [b]
        flat = []       # (labels, stmt)
        for x in items:
            labels = []
            while x is not None and x['k'] in ('Case', 'Default'):
                labels.append(None if x['k'] == 'Default' else int(x['e']['v']) if x['e']['k'] == 'Int' else '?')
                x = x['b']
            flat.append((labels, x))
        cases = [c for ls, _ in flat for c in ls if c is not None]
        entries = []
        rest = [st]
        for i, (ls, _) in enumerate(flat):
            for c in ls:
                if c is None:
                    continue
                nrest = []
                for s in rest:
                    if c == '?':
                        entries.append((i, s.fork()))
                        nrest.append(s)
                        continue
                    for s2, tr in self.branch(s, eq(v, c)):
                        if tr:
                            entries.append((i, s2))
                        else:
                            nrest.append(s2)
                rest = nrest
        dflt = [i for i, (ls, _) in enumerate(flat) if None in ls]
        out = []
        for s in rest:
            if dflt:
                entries.append((dflt[0], s))
            else:
                out.append(s)
        for i, s in entries:
            sts = [s]
            for ls, x in flat[i:]:
                nxt = []
                for y in sts:
                    if y.out:
                        nxt.append(y)
                    else:
                        nxt.extend(self.stmt(x, y) if x is not None else [y])
                sts = nxt
            for y in sts:
                if y.out == ('break',):
                    y.out = None
                out.append(y)
        return out

    def s_Case(self, n, st):
        return self.stmt(n['b'], st)

    s_Default = s_Case

    def catches(self, handler, exc):
        t = handler.get('t')
        if not t:
            return True
        t = base(strip_cv(deref_type(t)))
        if t == exc:
            return True
        if exc == 'unknown':
            return t == 'std::exception'
        if t == 'std::exception':
            if exc in EXC_STD:
                return True
            for r in self.p.records.values():
                if r['base'] == exc:
                    return any(base(b['t']) == 'std::exception' or base(b['t']) in EXC_STD for b in r['bases'])
            return exc.startswith('std::')
        if t == 'std::runtime_error':
            return exc in ('std::range_error', 'std::overflow_error', 'std::underflow_error', 'std::system_error')
        if t == 'std::logic_error':
            return exc in ('std::invalid_argument', 'std::out_of_range', 'std::length_error', 'std::domain_error')
        return False

    def s_Try(self, n, st):
        out = []
        for s in self.stmt(n['b'], st):
            if not s.out or s.out[0] != 'throw':
                out.append(s)
                continue
            exc = s.out
            for h in n['h']:
                if self.catches(h, exc[1]):
                    s.out = None
                    self.emit(s, 'catch', h.get('l', ''), exc=exc)
                    key = ('L', ('exc',), ())
                    old = s.store.get(key)
                    s.store[key] = exc
                    if h.get('v') is not None:
                        fr = s.frames[-1][0] if s.frames else 0
                        s.store[L(('v', h['v'], fr, 'ex'))] = ('ptr', L(('o', ('excobj', exc[2]))))
                    for s2 in self.stmt(h['b'], s):
                        if old is None:
                            s2.store.pop(key, None)
                        else:
                            s2.store[key] = old
                        self.emit(s2, 'endcatch', h.get('l', ''))
                        out.append(s2)
                    break
            else:
                out.append(s)
        return out

    # -- loops ------------------------------------------------------------------
    def s_While(self, n, st):
        if self.cfg.rotate and not n.get('cv') and n['c']['k'] != 'Int':
            return self.rotated(n, st, n['c'], n['b'], None)
        return self.loop(n, st, n['c'], n['b'], None, cv=n.get('cv'))

    def rotated(self, n, st, cond, body, inc):
        """while(c) b  as  if(c) do b while(c): the last iteration is visible at the exit"""
        r = self.try_unroll(n, st, cond, body, inc, None, None)
        if r is not None:
            return r
        out = []
        for s, c in self.cond(cond, st):
            if s.out:
                out.append(s)
                continue
            for s2, tr in self.branch(s, tobool(c) if not isinstance(c, int) else c):
                if tr:
                    out.extend(self.summarise(n, s2, None, body, inc, None, None, post=cond))
                else:
                    out.append(s2)
        return self.merge(out)

    def s_Do(self, n, st):
        if n['c']['k'] == 'Int' and int(n['c']['v']) == 0:
            out = []
            for s in self.stmt(n['b'], st):
                if s.out in (('break',), ('cont',)):
                    s.out = None
                out.append(s)
            return out
        self.stats['loops'] += 1
        # decided: follow it
        first, done, ok = [], [], True
        for s in self.stmt(n['b'], st.fork()):
            if s.out == ('break',):
                s.out = None
                done.append(s)
            elif s.out is None or s.out == ('cont',):
                s.out = None
                r = self.try_unroll(n, s, n['c'], n['b'], None, None, None)
                if r is None:
                    ok = False
                    break
                done.extend(r)
            else:
                done.append(s)
        if ok:
            return self.merge(done)
        return self.summarise(n, st, None, n['b'], None, None, None, post=n['c'])

    def s_For(self, n, st):
        def body(s0):
            sts = [s0]
            if n.get('i'):
                sts = self.stmt(n['i'], s0)
            out = []
            for s in sts:
                if s.out:
                    out.append(s)
                else:
                    if self.cfg.rotate and not n.get('cv') and n.get('c') and n['c']['k'] != 'Int':
                        out.extend(self.rotated(n, s, n['c'], n['b'], n.get('n')))
                    else:
                        out.extend(self.loop(n, s, n.get('c'), n['b'], n.get('n'), cv=n.get('cv')))
            return out
        return self.scoped(st, n.get('l'), body)

    def s_Range(self, n, st):
        def body(s0):
            out = []
            for s, v in self.ev(n['r'], s0):
                if s.out:
                    out.append(s)
                else:
                    out.extend(self.std.range_loop(s, n, v))
            return out
        return self.scoped(st, n.get('l'), body)

    def iterate(self, n, st, cond, body, inc, cv=None, pre=None, post=None):
        """one symbolic iteration: returns (continuing, exits) where exits are
        states leaving the loop ('false' for the condition, or with st.out)"""
        cont, exits = [], []

        def one(s0):
            if cv:
                sts = self.decl(cv, s0)
            else:
                sts = [s0]
            res = []
            for s in sts:
                if s.out:
                    res.append(s)
                    continue
                if cond is None:
                    cs = [(s, 1)]
                elif callable(cond):
                    cs = cond(s)
                else:
                    cs = self.cond(cond, s)
                for s1, c in cs:
                    if s1.out:
                        res.append(s1)
                        continue
                    for s2, tr in self.branch(s1, tobool(c) if not isinstance(c, int) else c):
                        if not tr:
                            s2.out = ('#exit',)
                            res.append(s2)
                            continue
                        if pre:
                            pre(s2)
                        for s3 in self.stmt(body, s2):
                            if s3.out is None or s3.out == ('cont',):
                                s3.out = None
                                more = [s3]
                                if inc is not None:
                                    if callable(inc):
                                        inc(s3)
                                    else:
                                        more = self.s_Expr({'e': inc, 'l': n.get('l')}, s3)
                                if post is not None:
                                    for s4 in more:
                                        if s4.out:
                                            res.append(s4)
                                            continue
                                        for s5, c5 in self.cond(post, s4):
                                            if s5.out:
                                                res.append(s5)
                                                continue
                                            for s6, tr6 in self.branch(s5, tobool(c5) if not isinstance(c5, int) else c5):
                                                if not tr6:
                                                    s6.out = ('break',)
                                                res.append(s6)
                                else:
                                    res.extend(more)
                            else:
                                res.append(s3)
            return res
        for s in self.scoped(st, n.get('l'), one):
            if s.out is None:
                cont.append(s)
            else:
                exits.append(s)
        return self.merge(cont), exits

    def loop(self, n, st, cond, body, inc, cv=None, pre=None, decide=True):
        self.stats['loops'] += 1
        # 1. decided conditions: follow them
        if decide and cond is not None and not (isinstance(cond, dict) and cond['k'] == 'Int'):
            r = self.try_unroll(n, st, cond, body, inc, cv, pre)
            if r is not None:
                return r
        return self.summarise(n, st, cond, body, inc, cv, pre)

    def try_unroll(self, n, st, cond, body, inc, cv, pre):
        if cv:
            return None
        work = [st.fork()]
        done = []
        for i in range(self.cfg.unroll + 1):
            nxt = []
            for s in work:
                cs = cond(s) if callable(cond) else self.cond(cond, s)
                for s1, c in cs:
                    if s1.out:
                        done.append(s1)
                        continue
                    c = tobool(c)
                    if not isinstance(c, int):
                        d = s1.facts.decide(c)
                        if d is None:
                            return None
                        c = int(d)
                    if not c:
                        done.append(s1)
                        continue
                    if i == self.cfg.unroll:
                        return None
                    if pre:
                        pre(s1)
                    for s3 in self.stmt(body, s1):
                        if s3.out is None or s3.out == ('cont',):
                            s3.out = None
                            if inc is None:
                                nxt.append(s3)
                            elif callable(inc):
                                inc(s3)
                                nxt.append(s3)
                            else:
                                nxt.extend(self.s_Expr({'e': inc, 'l': n.get('l')}, s3))
                        elif s3.out == ('break',):
                            s3.out = None
                            done.append(s3)
                        else:
                            done.append(s3)
            work = self.merge(nxt)
            if not work:
                return self.merge(done)
            if len(work) > 24:
                return None
        return None

    def summarise(self, n, st, cond, body, inc, cv, pre, post=None):
        lid = '%s.%d' % (n.get('l', '').split('/')[-1], st.fresh())
        N = ('it', lid)
        M = ('itn', lid)
        for x in (N, M):
            RANGE[x] = (0, INF)
            T.NONNEG.add(x)
        cnt0 = st.cnt
        mods = {}          # loc -> True
        wild = set()       # prefixes changed at iteration-dependent places
        form = {}          # loc -> step or ('inv',)

        def start(closed):
            s = st.fork()
            s.ev = ()
            s.cnt = cnt0 + 1000
            for w in sorted(wild, key=repr):
                self.havoc(s, w)
            for loc in mods:
                init = self._read(st, loc, '')
                if loc in closed:
                    v = init if closed[loc] == 0 else self.step(init, N, closed[loc])
                else:
                    v = ('phi', lid, loc)
                    r = self.loc_range(loc, init)
                    if r:
                        RANGE[v] = r
                        if r[0] >= 0:
                            T.NONNEG.add(v)
                self.erase(s, loc)
                s.store[loc] = v
            return s

        def variant(t):
            for x in T.subterms(t):
                if isinstance(x, tuple) and x:
                    if x[0] in ('phi', 'it') and x[1] == lid:
                        return True
                    if x[0] in ('sym', 'call', 'moved') and isinstance(x[-1], int) and not isinstance(x[-1], bool) \
                            and len(x) > 2 and x[-1] > cnt0:
                        return True
                    if x[0] == 'rd' and isinstance(x[2], int) and x[2] > cnt0:
                        return True
                    if x[0] in ('h',) and len(x) > 1 and isinstance(x[1], int) and x[1] > cnt0:
                        return True
            return False

        def changes(s, s0):
            ch = set()
            for k, v in s.store.items():
                if k[0] != 'L':
                    continue
                if s0.store.get(k) != v:
                    ch.add(k)
            for k in s0.store:
                if k[0] == 'L' and k not in s.store:
                    ch.add(k)
            for p, e in s.epochs:
                if e > cnt0 and (p, e) not in s0.epochs:
                    ch.add(('havoc', p))
            return ch

        self.dry += 1
        try:
            for rnd in range(6):
                s0 = start({})
                c, x = self.iterate(n, s0.fork(), cond, body, inc, cv, pre, post)
                grew = False
                for s in c:
                    for k in sorted(changes(s, s0), key=lambda y: (y[0] == 'havoc', repr(y))):
                        if k[0] == 'havoc':
                            p = k[1]
                            if p[1] == ('*',):
                                if p not in wild:
                                    wild.add(p)
                                    grew = True
                                continue
                            q = self.cut(p, variant)
                            if q is not None and q not in wild:
                                wild.add(q)
                                grew = True
                            continue
                        if k[1][0] == 'exc':
                            continue
                        if k[1][0] in ('v', 'h', 'c') and k not in s0.store and not any(
                                y[1] == k[1] for y in s0.store) and not (k[1][0] == 'v' and isinstance(k[1][2], int) and k[1][2] <= cnt0 and all(k[1][2] != fr[0] for fr in st.frames)):
                            continue       # local to the iteration
                        q = self.cut(k, variant)
                        if q is None:
                            continue
                        if q != k:
                            if q not in wild:
                                wild.add(q)
                                grew = True
                            for y in [y for y in mods if is_prefix(q, y)]:
                                del mods[y]
                        elif not any(is_prefix(w, k) for w in wild):
                            if k not in mods:
                                mods[k] = True
                                grew = True
                if not grew:
                    break
            # closed forms
            closed = {}
            s0 = start({})
            c, x = self.iterate(n, s0.fork(), cond, body, inc, cv, pre, post)
            for loc in mods:
                init = self._read(st, loc, '')
                phi = ('phi', lid, loc)
                steps = set()
                ok = bool(c)
                for s in c:
                    v = s.store.get(loc)
                    if v is None:
                        ok = False
                        break
                    if v == phi:
                        steps.add(0)
                        continue
                    d = self.step_of(init, phi, v)
                    if d is None or variant(d):
                        ok = False
                        break
                    steps.add(d)
                if ok and len(steps) == 1:
                    closed[loc] = steps.pop()
            while closed:
                s0 = start(closed)
                c, x = self.iterate(n, s0.fork(), cond, body, inc, cv, pre, post)
                bad = []
                for loc, d in closed.items():
                    init = self._read(st, loc, '')
                    want = init if d == 0 else self.step(init, add(N, 1), d)
                    if any(s.store.get(loc) != want for s in c):
                        bad.append(loc)
                if not bad:
                    break
                for b in bad:
                    del closed[b]
        finally:
            self.dry -= 1
        s0 = start(closed)
        # the loop bound: with an exit condition on an induction variable the
        # iteration count stays strictly below / ends exactly at the bound
        c, x = self.iterate(n, s0.fork(), cond, body, inc, cv, pre, post)
        bound = raw = None
        for s in x:
            if s.out == ('#exit',):
                b = self.bound_of(s, s0, N, variant)
                if b is not None:
                    raw, sure = b
                    if sure:
                        bound = raw
        if bound is not None:
            s0b = s0.fork()
            s0b.facts = s0b.facts.plus(lt(N, bound)) if not isinstance(lt(N, bound), int) else s0b.facts
            c2, x2 = self.iterate(n, s0b.fork(), cond, body, inc, cv, pre, post)
            x2 = [s for s in x2 if s.out != ('#exit',)]
            c, x = c2, x2 + [s for s in x if s.out == ('#exit',)]
        paths = []
        for s in c:
            paths.append(LPath(None, s.ev, s.facts, self.ends(s, mods, s0), s.store))
        for s in x:
            if s.out == ('#exit',):
                continue
            paths.append(LPath(s.out, s.ev, s.facts, self.ends(s, mods, s0), s.store))
        lev = Ev('loop', {'id': lid, 'paths': paths, 'mods': dict((k, (self._read(st, k, ''), closed.get(k))) for k in mods),
                          'wild': tuple(sorted(wild, key=repr)), 'bound': bound, 'raw_bound': raw, 'exit_cond': any(s.out == ('#exit',) for s in x)},
                 n.get('l', ''), st.facts, st.locks, st.fn)
        has_effects = any(p.ev for p in paths) or any(p.out and p.out[0] in ('throw', 'ret') for p in paths)
        out = []
        for s in x:
            m = {}
            if s.out == ('#exit',):
                m[N] = bound if bound is not None else M
            else:
                m[N] = M
            for loc in mods:
                if loc not in closed:
                    m[('phi', lid, loc)] = ('phx', lid, loc)
                    r = RANGE.get(('phi', lid, loc))
                    if r:
                        RANGE[('phx', lid, loc)] = r
                        if r[0] >= 0:
                            T.NONNEG.add(('phx', lid, loc))
            tail = s.ev
            self.subst_state(s, m, tail)
            tail = s.ev
            s.ev = st.ev + ((lev,) if (has_effects or mods or wild) else ()) + tail
            s.cnt = max(s.cnt, st.cnt)
            # keep facts of the prefix; facts about the iteration survive renamed
            if s.out in (('#exit',), ('break',)):
                s.out = None
            out.append(s)
        return self.merge(out)

    def ends(self, s, mods, s0):
        return {k: (s0.store.get(k), s.store.get(k)) for k in mods}

    def loc_range(self, loc, init):
        if isinstance(init, int):
            return (0, INF) if init >= 0 and False else None
        return RANGE.get(init)

    def step(self, init, n, d):
        if isinstance(init, tuple) and init[0] == 'ptr':
            return ('ptr', loc_index(init[1], mul(n, d)))
        return add(init, mul(n, d))

    def step_of(self, init, phi, v):
        if isinstance(init, tuple) and init[0] == 'ptr':
            # pointer walking: phi is used as an opaque pointer
            if isinstance(v, tuple) and v[0] == 'ptr' and v[1][1] == ('o', phi):
                b, i = split_index(v[1])
                if not b[2]:
                    return i
            return None
        if not T.numericish(v) or not T.numericish(init):
            return None
        d = sub(v, phi)
        if T.contains(d, phi):
            return None
        return d

    def cut(self, loc, variant):
        """longest prefix of loc that is the same in every iteration (None: iteration-local object)"""
        if variant(loc[1]):
            return None
        p = []
        for x in loc[2]:
            if x[0] in ('e', 'k') and variant(x[1]):
                break
            p.append(x)
        return ('L', loc[1], tuple(p))

    def bound_of(self, s, s0, N, variant):
        """exit fact  N >= bound  with loop-invariant bound, step one"""
        old = set(s0.facts.items)
        new = [f for f in s.facts.items if f not in old]
        if len(new) != 1:
            return None
        f = new[0]
        neg = False
        if f[0] == 'le':
            # bound - N <= 0
            c, d = T.parts(f[1])
            k = d.get((N,))
            if k == -1 and all(N not in m or m == (N,) for m in d):
                b = add(f[1], N)
                if not variant(b):
                    return b, s0.facts.range(b)[0] >= 0 or is_count(b)
        if f[0] == 'eq':
            c, d = T.parts(f[1])
            k = d.get((N,))
            if k in (1, -1) and all(N not in m or m == (N,) for m in d):
                b = sub(N, f[1]) if k == 1 else add(f[1], N)
                if not variant(b):
                    return b, True
        return None

    def subst_state(self, s, m, tail=()):
        if not m:
            return
        s.store = {self.subst_loc(k, m) if k[0] == 'L' else k: subst(v, m) for k, v in s.store.items()}
        s.facts = Facts(tuple(x for x in (subst(f, m) for f in s.facts.items) if not isinstance(x, int)))
        s.epochs = tuple((self.subst_loc(p, m), e) for p, e in s.epochs)
        s.ev = tuple(self.subst_ev(e, m) for e in s.ev)
        if s.out and s.out[0] == 'ret':
            s.out = ('ret', subst(s.out[1], m))

    def subst_loc(self, loc, m):
        return ('L', subst(loc[1], m), tuple((x[0], subst(x[1], m)) for x in loc[2]))

    def subst_ev(self, e, m):
        if e.kind == 'loop':
            d = dict(e.d)
            d['paths'] = [LPath(p.out, tuple(self.subst_ev(x, m) for x in p.ev),
                                Facts(tuple(x for x in (subst(f, m) for f in p.facts.items) if not isinstance(x, int))), p.ends, p.store)
                          for p in e.d['paths']]
            return Ev(e.kind, d, e.l, e.facts, e.locks, e.fn)
        d = {k: self._subst_any(v, m) for k, v in e.d.items()}
        f = Facts(tuple(x for x in (subst(f, m) for f in e.facts.items) if not isinstance(x, int)))
        return Ev(e.kind, d, e.l, f, e.locks, e.fn)

    def _subst_any(self, v, m):
        if isinstance(v, tuple):
            if v and v[0] == 'L' and len(v) == 3:
                return self.subst_loc(v, m)
            return subst(v, m)
        return v
