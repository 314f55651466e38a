"""Stage graph and shared-data accesses of functions that build pipelines.

A function is analysed as the thread that builds the pipeline (context "main"); the function of every stage it constructs is analysed as a
context of its own, entered with private items and the captured values.  The result is, per path, a sequence of steps: stage construction, items
handed to a stage (directly, or by DiskSort::read / DiskTable::read), waits and closes, and accesses to data that a stage function can reach too."""
from .prog import base, walk
from .engine import Engine, State, L, show, loc_ext, is_prefix, strip_cv, deref_type
from .pipe import PipeCfg, comp_of
from . import terms as T

COMPONENT = ('Thread::', 'ThreadPool::', 'Processor::', 'std::thread', 'std::mutex', 'std::condition_variable', 'std::basic_o', 'std::unique_lock', 'std::lock_guard')
FEEDERS = ('DiskSort::read', 'DiskTable::read')
FILEOPS = {'fwrite': 3, 'fread': 3, 'fseek': 0, 'fseeko': 0, 'ftell': 0, 'fflush': 0, 'fclose': 0, 'rewind': 0, 'fputc': 1, 'fprintf': 0, 'ftello': 0}


class StageCfg(PipeCfg):
    max_paths = 250

    def __init__(self, roots=None):
        PipeCfg.__init__(self)
        self.roots = roots         # None: everything
        self.refs = set()          # locals captured by reference by a stage function: they change while items are processed

    def opaque(self, eng, f):
        b = f['base']
        if b == 'Processor::take_copy':
            return False
        if b.startswith(('BitsGeneric::', 'LargeVector::', 'SmallVector::', 'ParkVector::', 'Util::', 'F1Calculator::', 'FxCalculator::')):
            return self.roots is not None or b.startswith('BitsGeneric::')      # computations on their own object and arguments
        return b.startswith(('Thread::', 'ThreadPool::', 'Processor::')) or b in FEEDERS

    def model(self, eng, st, name, node, this, args):
        if name in FEEDERS:
            eng.emit(st, 'feed', node.get('l', ''), to=args[0], obj=this, name=name)
            self.stir(eng, st)
            return [(st, None)]
        if name.startswith(('DiskSort::', 'DiskTable::')):
            return None
        if name == 'get_wall_time_micros':
            return [(st, ('sym', 'time', st.fresh()))]
        r = PipeCfg.model(self, eng, st, name, node, this, args)
        if r is not None and st.ev and st.ev[-1].kind == 'stage' and 'st' not in st.ev[-1].d:
            st.ev[-1].d['st'] = dict(st.store)
            fv = st.ev[-1]['fn']
            for c in (fv[2] if isinstance(fv, tuple) and fv[0] == 'lam' else ()):
                for v in (c if isinstance(c, tuple) else ()):
                    if isinstance(v, tuple) and v and v[0] == 'ptr' and v[1][1][0] == 'v':
                        self.refs.add(v[1])
        elif name.startswith(('Thread::', 'ThreadPool::', 'Processor::')):
            self.stir(eng, st)
        return r

    def stir(self, eng, st):
        for loc in self.refs:
            v = st.store.get(loc)
            if isinstance(v, tuple) and v and v[0] in ('stage', 'ptr', 'lam', 'bind', 'fn'):
                continue
            if any(is_prefix(loc, k) and isinstance(w, tuple) and w and w[0] == 'stage' for k, w in st.store.items() if isinstance(k, tuple) and k and k[0] == 'L'):
                continue
            eng.havoc(st, loc)

    def track(self, loc):
        if self.roots is None:
            return True
        return loc[1] in self.roots


def base_root(root):
    """what an object expression hangs on: ('priv',) / ('v', ...) / ('g', ...) / ('h', ...) / ('p', name) / None"""
    for _ in range(40):
        if root[0] in ('v', 'g', 'h', 's'):
            return root
        if root[0] != 'o':
            return root
        t = root[1]
        while isinstance(t, tuple) and t and t[0] in ('cast', 'fld', 'poly'):
            if t[0] == 'poly':
                at = [a for a in T.atoms(t) if isinstance(a, tuple)]
                if not at:
                    return None
                t = at[0]
            else:
                t = t[2] if t[0] == 'cast' else t[1]
        if not isinstance(t, tuple):
            return None
        if t[0] == 'sym':
            if str(t[1]).startswith('priv:'):
                return ('priv',)
            if len(t) == 2:
                return ('p', t[1])
            return None
        if t[0] in ('rd', 'ptr'):
            root = t[1][1]
            continue
        if t[0] in ('op', 'call', 'rec', 'obj', 'mk', 'phi', 'phx'):
            if t[0] in ('phi', 'phx'):
                root = t[2][1] if isinstance(t[2], tuple) and t[2][0] == 'L' else None
                if root is None:
                    return None
                continue
            return None
        return None
    return None


class Acc:
    """one access: location, kind 'r'/'w', atomic?, locks, source line, written value"""
    def __init__(self, loc, w, atomic, locks, l, val=None, what=''):
        self.loc, self.w, self.atomic, self.locks, self.l, self.val, self.what = loc, w, atomic, locks, l, val, what

    def key(self):
        return (self.loc, self.w, self.atomic, self.locks)


def accesses(ev):
    """accesses of one event (not recursing into loops)"""
    k = ev.kind
    if k == 'rd':
        yield Acc(ev['loc'], False, False, ev.locks, ev.l)
    elif k == 'wr':
        yield Acc(ev['loc'], True, False, ev.locks, ev.l, ev['val'])
    elif k == 'atomic':
        op = ev['op']
        w = not (op.startswith('operator ') or op == 'load')
        # a value computed from an earlier load of the same object is not an atomic update
        lost = op in ('operator=', 'store') and ev['val'] is not None and any(
            isinstance(x, tuple) and len(x) == 3 and x[0] == 'rd' and x[1] == ev['loc'] for x in T.subterms(ev['val']))
        yield Acc(ev['loc'], w, not lost, ev.locks, ev.l, ev['val'] if lost else None, what=op)
    elif k == 'vec':
        yield Acc(loc_ext(ev['vec'], ('f', '#n')), True, False, ev.locks, ev.l)
    elif k == 'map':
        yield Acc(loc_ext(ev['map'], ('f', '#map')), True, False, ev.locks, ev.l)
        if ev['op'] != 'ref':
            yield Acc(ev['map'], True, False, ev.locks, ev.l)
    elif k == 'swap':
        yield Acc(ev['a'], True, False, ev.locks, ev.l)
        yield Acc(ev['b'], True, False, ev.locks, ev.l)
    elif k == 'mem':
        for i, a in enumerate(ev['args'][:2]):
            if isinstance(a, tuple) and a[0] == 'ptr':
                yield Acc(a[1], i == 0, False, ev.locks, ev.l)
    elif k == 'call' and ev['name'] in FILEOPS:
        i = FILEOPS[ev['name']]
        if i < len(ev['args']):
            f = ev['args'][i]
            loc = f[1] if isinstance(f, tuple) and f[0] == 'ptr' else L(('o', f))
            yield Acc(loc_ext(loc, ('f', '#file')), True, False, ev.locks, ev.l, what=ev['name'])
        j = {'fwrite': 0, 'fread': 0}.get(ev['name'])
        if j is not None:
            a = ev['args'][j]
            if isinstance(a, tuple):
                loc = a[1] if a[0] == 'ptr' else L(('o', a))
                yield Acc(loc, ev['name'] == 'fread', False, ev.locks, ev.l)
    elif k == 'call' and ev.get('mut') and not ev['name'].startswith(COMPONENT) and ev['name'] not in FEEDERS and 'operator<<' not in ev['name']:
        for loc in ev['mut']:
            yield Acc(loc, True, False, ev.locks, ev.l, what=ev['name'])


def flat_path(evs):
    for e in evs:
        yield e
        if e.kind == 'loop':
            for lp in e['paths']:
                yield from flat_path(lp.ev)


def targets(t):
    """objects a pointer value can denote"""
    if not isinstance(t, tuple) or not t:
        return []
    if t[0] == 'ptr':
        if not t[1][2] and t[1][1][0] == 'o':
            r = targets(t[1][1][1])
            return r or [t[1]]
        return [t[1]]
    if t[0] == 'ite':
        return [x for a in t[2:] for x in targets(a)]
    if t[0] == 'cast':
        return targets(t[2])
    return []


class Stage:
    """one constructed stage: its function's accesses and the stages it hands items to"""
    def __init__(self, p, ev, idx):
        self.p, self.ev, self.idx = p, ev, idx
        self.loc = ev['loc']
        self.cls = ev['cls']
        self.l = ev.l
        n = ev.get('n')
        self.multi = ev['cls'] == 'ThreadPool' and n != 1
        self.outs = []
        o = ev.get('out')
        self.outs += targets(o)
        self.acc = []
        self.err = None
        self.takes = []
        self.analyse(p)

    def name(self):
        x = show(self.loc) if self.loc is not None else '?'
        return x

    def analyse(self, p):
        fv = self.ev['fn']
        kw = {}
        if isinstance(fv, tuple) and fv[0] == 'lam':
            f = p.functions.get(fv[1])
            kw['caps'] = fv
            first = 0
        elif isinstance(fv, tuple) and fv[0] == 'bind' and isinstance(fv[1], tuple) and fv[1][0] == 'fn':
            f = p.functions.get(fv[1][1])
            kw['this'] = fv[2][0] if fv[2] else None
            if not (fv[2] and fv[2][1:] == tuple(('ph', i + 1) for i in range(len(fv[2]) - 1))):
                self.err = 'bound arguments'
                return
        else:
            self.err = 'stage function %s' % show(fv)[:60]
            return
        if f is None or f.get('b') is None:
            self.err = 'no body'
            return
        self.fn = f
        st = State()
        # captured pointers keep their targets; plain values may change before the stage runs
        for k, v in (self.ev.get('st') or {}).items():
            if isinstance(v, tuple) and v and v[0] in ('ptr', 'lam', 'bind', 'fn', 'stage'):
                st.store[k] = v
        # pointers reassigned by a stage function or later on are followed through the captured value at construction
        args = {}
        for i, q in enumerate(f['p']):
            s = ('sym', 'priv:%d:%d' % (self.idx, i))
            args[i] = ('ptr', L(('o', s))) if q['t'].endswith('&') else (('rd', L(('o', s)), 0) if not q['t'].endswith('*') else s)
        st.cnt = 1000000 * (self.idx + 1)
        self.priv_from = st.cnt
        try:
            res = Engine(p, StageCfg()).run(f, args=args, st=st, **kw)
        except RecursionError:
            self.err = 'too deep'
            return
        seen = set()
        self.published = set()
        for s, v in res:
            self.scan(s.ev, {})
            for e in flat_path(s.ev):
                if e.kind == 'take':
                    self.outs += [t for t in targets(e['to']) if t not in self.outs]
                for a in accesses(e):
                    if self.private(a.loc[1]):
                        continue
                    k = (a.key(), a.l)
                    if k not in seen:
                        seen.add(k)
                        a.facts = e.facts
                        # a mutex that is a local of the stage function excludes nobody
                        a.locks = type(a.locks)(k for k in a.locks if not (k[1][0] == 'v' and self.private(k[1])))
                        self.acc.append(a)

    def scan(self, evs, pub):
        for e in evs:
            self.publish(e, pub)
            if e.kind == 'loop':
                for lp in e['paths']:
                    self.scan(lp.ev, dict(pub))

    def publish(self, e, pub):
        """an object made visible to the other workers under a lock and changed afterwards without it"""
        if e.kind == 'wr' and e.locks and isinstance(e['val'], tuple) and e['val'][0] == 'sym' and len(e['val']) == 3 and not self.private(e['loc'][1]):
            pub[e['val']] = (e['loc'], e.locks)
        elif e.kind == 'wr' and e['loc'][1][0] == 'o' and e['loc'][1][1] in pub:
            self.late_write(e, pub, e['loc'][1][1])
        elif e.kind == 'call':
            for x in e.get('raw') or ():
                if x in pub:
                    self.late_write(e, pub, x)

    def late_write(self, e, pub, x):
        loc, locks = pub[x]
        if not set(locks) & set(e.locks):
            self.published.add((e.l, show(loc)[:80]))

    def private(self, root):
        b = base_root(root)
        if b is None:
            return True            # unknown objects are not judged
        if b == ('priv',):
            return True
        if b[0] == 'g':
            g = self.p.globals.get(str(b[2])) or self.p.globals.get(b[2]) or {} if len(b) > 2 else {}
            return bool(g.get('tls'))
        if b[0] == 'v':
            return isinstance(b[2], int) and b[2] >= self.priv_from
        if b[0] == 'h':
            return isinstance(b[1], int) and b[1] >= self.priv_from
        return False


def builders(p):
    """functions that construct stages"""
    out = []
    for f in p.functions.values():
        if not f.get('b') or f['base'].startswith(('Thread::', 'ThreadPool::')):
            continue
        for n in walk(f['b']):
            if n['k'] == 'Ctor' and isinstance(n.get('f'), dict) and base(n['f'].get('n', '')) in ('Thread::Thread', 'ThreadPool::ThreadPool'):
                out.append(f)
                break
    return out


# -- overlap of two locations -----------------------------------------------------------
SIZE = ('f', '#n')


def common_lock(a, b):
    """a lock held at both accesses: the same object, or the lock that belongs to the accessed element"""
    if set(a.locks) & set(b.locks):
        return True
    return bool({rel_lock(k, a.loc) for k in a.locks} & {rel_lock(k, b.loc) for k in b.locks} - {None})


def data_loc(loc):
    """for an object reached through a pointer kept in another object: where that pointer is"""
    r = loc[1]
    while r[0] == 'o' and isinstance(r[1], tuple) and r[1][0] == 'rd':
        loc = r[1][1]
        r = loc[1]
    return loc


def rel_lock(k, loc):
    """lock location with the element indices it shares with the accessed data abstracted"""
    for d in (loc, data_loc(loc)):
        if k[1] != d[1]:
            continue
        out, same, hit = [], True, False
        for i, x in enumerate(k[2]):
            y = d[2][i] if i < len(d[2]) else None
            same = same and x == y
            if same and x[0] == 'e' and not isinstance(x[1], int):
                out.append(('e', '*'))
                hit = True
            else:
                out.append(x)
        if hit:
            return (k[1], tuple(out))
    return None


def overlap(x, y):
    """None: different data; otherwise the list of pairs of element indices that are not known to be equal"""
    a, b = x.loc, y.loc
    aw, bw = x.w, y.w
    if a[1] != b[1]:
        return None
    pa, pb = norm_path(a[2]), norm_path(b[2])
    out = []
    for x, y in zip(pa, pb):
        if x == y:
            continue
        if x[0] == 'e' and y[0] == 'e':
            if isinstance(x[1], int) and isinstance(y[1], int):
                return None
            out.append((x[1], y[1]))
            continue
        if aw and x == SIZE and y[0] == 'f' and y[1] in ('#b', '#a') or bw and y == SIZE and x[0] == 'f' and x[1] in ('#b', '#a'):
            return out         # changing the size moves the elements
        return None
    return out


def norm_path(p):
    out = []
    for i, x in enumerate(p):
        out.append(x)
        if x[0] == 'f' and x[1] in ('#b', '#a') and (i + 1 >= len(p) or p[i + 1][0] != 'e') and i + 1 < len(p):
            out.append(('e', 0))
    return tuple(out)


def indices(loc):
    return [x[1] for x in loc[2] if x[0] in ('e', 'k') and not isinstance(x[1], int)]


def of_item(t):
    return any(isinstance(x, tuple) and x and x[0] == 'sym' and str(x[1]).startswith('priv:') for x in T.subterms(t))


def of_content(t):
    """depends on a field of a record within the item"""
    return any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'rd' and isinstance(x[1], tuple) and len(x[1]) == 3
               and any(q[0] == 'f' and q[1] in ('#b', '#a') for q in x[1][2]) and of_item(('o', x[1][1])) for x in T.subterms(t))


def lossy(t):
    return any(isinstance(x, tuple) and len(x) == 4 and x[0] == 'op' and x[1] in ('>>', '/', '%', '&') and of_content(x) for x in T.subterms(t))


def self_conflict(a, b):
    """accesses of two workers running the same function: True / False / None (cannot tell)"""
    o = overlap(a, b)
    if o is None:
        return False
    if not (a.w or b.w) or a.atomic and b.atomic or common_lock(a, b):
        return False
    ix = [i for i in indices(a.loc) + indices(b.loc)] + [x for y in o for x in y if not isinstance(x, int)]
    for r in (a.loc[1], b.loc[1]):
        ix += [i for i in root_indices(r)]
    dep = [i for i in ix if of_item(i)]
    if not dep:
        return True
    rmw = any(x.w and x.val is not None and any(isinstance(y, tuple) and len(y) == 3 and y[0] == 'rd' and y[1] == x.loc for y in T.subterms(x.val)) for x in (a, b))
    if any(lossy(i) for i in dep) or rmw and all(of_content(i) for i in dep):
        return True
    return None


def root_indices(r):
    if r[0] == 'o':
        for x in T.subterms(r[1]):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'L' or isinstance(x, tuple) and len(x) == 3 and x[0] == 'rd':
                loc = x if x[0] == 'L' else x[1]
                if isinstance(loc, tuple) and len(loc) == 3:
                    yield from indices(loc)


def cross_conflict(a, b):
    """accesses of two different contexts that may run at the same time"""
    o = overlap(a, b)
    if o is None or not (a.w or b.w) or a.atomic and b.atomic or common_lock(a, b):
        return False
    if o or any(of_item(i) for i in indices(a.loc) + indices(b.loc)) or any(of_item(i) for r in (a.loc[1], b.loc[1]) for i in root_indices(r)):
        return None
    return True


# -- one builder function -------------------------------------------------------------------
class Thr:
    """a std::thread started by the builder: what it hands over, closes and accesses"""
    def __init__(self, p, ev, idx):
        self.loc, self.l, self.idx = ev['loc'], ev.l, idx
        self.t = ev['t']
        self.paths = []
        self.acc = []
        self.err = None
        fv = ev['f']
        f = p.functions.get(fv[1]) if isinstance(fv, tuple) and fv[0] == 'lam' else None
        if f is None:
            self.err = 'thread function'
            return
        st = State()
        st.cnt = 1000000 * (idx + 1)
        self.priv_from = st.cnt
        self.p = p
        res = Engine(p, StageCfg()).run(f, caps=fv, st=st)
        for s, v in res:
            if s.out and s.out[0] == 'throw':
                continue
            self.paths.append(list(flat_path(s.ev)))
            for e in flat_path(s.ev):
                for a in accesses(e):
                    if not Stage.private(self, a.loc[1]):
                        self.acc.append(a)

    multi = False

    def name(self):
        return show(self.loc)


class Finding:
    def __init__(self, kind, l, msg, atomic=False):
        self.kind, self.l, self.msg, self.atomic = kind, l, msg, atomic


class Builder:
    def __init__(self, p, f):
        self.p, self.f = p, f
        self.find = {}
        self.undec = set()
        self.cache = {}
        self.pairs = 0
        self.nstages = set()
        self.naccess = 0
        self.run()

    def add(self, kind, l, msg, atomic=False):
        k = (kind, l, msg)
        if k not in self.find:
            self.find[k] = Finding(kind, l, msg, atomic)

    def stage(self, e):
        k = ('s', show(e['loc']), e['loc'], e.l, show(e['fn']), show(e.get('out')))
        if k not in self.cache:
            self.cache[k] = Stage(self.p, e, len(self.cache))
        self.nstages.add((e.l, show(e['loc'])))
        return self.cache[k]

    def thr(self, e):
        k = ('t', e['loc'], e.l)
        if k not in self.cache:
            self.cache[k] = Thr(self.p, e, len(self.cache))
        return self.cache[k]

    def run(self):
        # first pass: which objects do stage functions reach
        res = Engine(self.p, StageCfg(roots=frozenset())).run(self.f)
        roots = set()
        for s, v in res:
            for e in flat_path(s.ev):
                if e.kind == 'stage':
                    S = self.stage(e)
                elif e.kind == 'spawn':
                    S = self.thr(e)
                else:
                    continue
                if S.err:
                    self.undec.add('%s: %s' % (S.name(), S.err))
                roots |= {a.loc[1] for a in S.acc}
        cfg = StageCfg(roots=frozenset(roots))
        res = Engine(self.p, cfg).run(self.f)
        done = set()
        for s, v in res:
            if s.out and s.out[0] == 'throw':
                continue
            self.walk(s, roots)

    def walk(self, s, roots):
        st = {}            # location -> stage
        live, closed = {}, {}
        thr = {}
        def down(loc):
            out, todo = [], [loc]
            while todo:
                x = todo.pop()
                if x in out:
                    continue
                out.append(x)
                if x in st:
                    todo += st[x].outs
            return out
        def ups(loc):
            return [x for x in st if x != loc and loc in down(x)]
        def feed(loc, l, who=None):
            if loc in closed:
                self.add('late', l, 'an item is handed to %s after it was closed (%s)' % (show(loc), closed[loc]))
            for x in down(loc):
                if x in st and x not in closed:
                    if x not in live:
                        live[x] = l
                        start(st[x])
                elif x in st and x in closed and x != loc:
                    self.add('late', l, 'an item handed to %s reaches %s, which was closed before (%s)' % (show(loc), show(x), closed[x]))
        def start(S):
            # against itself and everything that runs already
            self.self_check(S)
            for y in list(live):
                if y in st and st[y] is not S:
                    self.cross_check(S, st[y])
            for t in thr.values():
                if t[1]:
                    self.cross_check(S, t[0])
        def close(loc, l, how, own=None):
            for u in ups(loc):
                if u in live and u != own:
                    self.add('order', l, '%s is %s while %s, which feeds it, can still hold items' % (show(loc), how, show(u)))
            for t in thr.values():
                if t[1] and own is None and loc in t[2]:
                    self.add('order', l, '%s is %s while thread %s still feeds it' % (show(loc), how, t[0].name()))
            live.pop(loc, None)
            if how != 'waited for':
                closed[loc] = l
        def step(e, evs_main=True):
            k = e.kind
            if k == 'stage':
                S = self.stage(e)
                st[S.loc] = S
                closed.pop(S.loc, None)
                live.pop(S.loc, None)
                return
            if k == 'take':
                for t in targets(e['to']):
                    feed(t, e.l)
                return
            if k == 'feed':
                a = e['obj'][1] if isinstance(e['obj'], tuple) and e['obj'][0] == 'ptr' else None
                if a is not None and evs_main:
                    self.main_access(Acc(a, True, False, e.locks, e.l, what=e['name']), live, st, thr)
                for t in targets(e['to']):
                    feed(t, e.l)
                return
            if k == 'spawn':
                t = self.thr(e)
                fed = []
                for pth in t.paths:
                    for x in pth:
                        for y in targets(x['to']) if x.kind in ('take', 'feed') else ():
                            fed.append(y)
                            feed(y, x.l)
                thr[e['loc']] = [t, True, fed]
                for y in list(live):
                    if y in st:
                        self.cross_check(t, st[y])
                return
            if k == 'join':
                t = thr.get(e['loc'])
                if t and t[1]:
                    t[1] = False
                    for pth in t[0].paths[:1]:
                        for x in pth:
                            if x.kind == 'call' and isinstance(x['this'], tuple) and x['this'][0] == 'ptr' and x['this'][1] in st:
                                m = x['name'].split('::')[-1]
                                if m in ('close', 'wait'):
                                    close(x['this'][1], x.l, 'closed' if m == 'close' else 'waited for', own=x['this'][1])
                return
            if k == 'call' and e['name'].startswith(('Thread::', 'ThreadPool::')) and isinstance(e['this'], tuple) and e['this'][0] == 'ptr':
                loc = e['this'][1]
                m = e['name'].split('::')[-1]
                if loc not in st:
                    return
                if m == 'close':
                    close(loc, e.l, 'closed')
                elif m.startswith('~'):
                    if loc not in closed or loc in live:
                        close(loc, e.l, 'destroyed')
                    st.pop(loc, None)
                elif m == 'wait':
                    if not any(u in live for u in ups(loc)):
                        close(loc, e.l, 'waited for')
                elif m in ('get_local', 'set_local'):
                    pass
                return
            if evs_main and not (k == 'call' and e['name'] == ''):
                for a in accesses(e):
                    self.main_access(a, live, st, thr)

        def seq(evs):
            for e in evs:
                if e.kind == 'loop':
                    for lp in e['paths']:
                        if not lp.out or lp.out[0] != 'throw':
                            seq(lp.ev)
                else:
                    step(e)
        seq(s.ev)

    def main_access(self, a, live, st, thr):
        for loc in list(live):
            S = st.get(loc)
            if S is None:
                continue
            for b in S.acc:
                o = overlap(a, b)
                if o is None or common_lock(a, b):
                    continue
                self.naccess += 1
                if b.w:
                    self.add('early', a.l, '%s is %s while stage %s, which writes it (%s), can still be running' % (
                        show(a.loc)[:100], 'written' if a.w else 'used', S.name(), b.l), a.atomic and b.atomic)
                elif a.w and not (a.atomic and b.atomic):
                    ar = base_root(a.loc[1])
                    own = ar is not None and ar[0] != 'v' and any(c.w and base_root(c.loc[1]) == ar for c in S.acc)
                    self.add('early' if own else 'race', a.l, '%s is written while stage %s, which reads it (%s), can be running' % (show(a.loc)[:100], S.name(), b.l))
        for t, on, fed in thr.values():
            if not on:
                continue
            for b in t.acc:
                c = cross_conflict(a, b)
                if c:
                    self.add('race', a.l, '%s is accessed while thread %s also accesses it (%s)' % (show(a.loc)[:100], t.name(), b.l))

    def self_check(self, S):
        if not S.multi or ('self', S) in self.cache:
            return
        self.cache[('self', S)] = True
        for l, what in sorted(getattr(S, 'published', ())):
            self.add('race', l, 'the object stored in %s, where the other workers of stage %s find it, is changed after it was stored' % (what, S.name()))
        for i, a in enumerate(S.acc):
            for b in S.acc[i:]:
                if not (a.w or b.w):
                    continue
                self.pairs += 1
                c = self_conflict(a, b)
                if c:
                    self.add('race', (a if a.w else b).l, '%s is changed by several workers of stage %s at once without a lock or atomic operation' % (show((a if a.w else b).loc)[:120], S.name()))
                elif c is None:
                    self.undec.add('%s: workers access %s by item' % (S.name(), show(a.loc)[:60]))

    def cross_check(self, S, R):
        k = ('x',) + tuple(sorted((id(S), id(R))))
        if k in self.cache:
            return
        self.cache[k] = True
        for a in S.acc:
            for b in R.acc:
                if not (a.w or b.w):
                    continue
                self.pairs += 1
                c = cross_conflict(a, b)
                if c:
                    w = a if a.w else b
                    self.add('race', w.l, '%s is accessed by %s (%s) and %s (%s) at the same time without a common lock' % (show(w.loc)[:120], S.name(), a.l, R.name(), b.l))
                elif c is None:
                    self.undec.add('%s and %s access %s by index' % (S.name(), R.name(), show(a.loc)[:60]))
