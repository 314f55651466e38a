"""Abstract semantics of the standard library pieces the repository uses."""
import re
from .prog import base
from . import terms as T
from .terms import add, sub, mul, eq, le, lt, tnot, tobool, tite


def _eng():
    from . import engine
    return engine


def template_args(t):
    """top-level template arguments of a printed type"""
    i = t.find('<')
    if i < 0:
        return []
    out, depth, cur = [], 0, ''
    for c in t[i + 1:]:
        if c in '<([':
            depth += 1
        elif c in '>)]':
            if depth == 0:
                break
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def cat(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple) and p and p[0] == 'cat':
            ps = list(p[1:])
        else:
            ps = [p]
        for x in ps:
            if x == ('str', ''):
                continue
            if out and isinstance(x, tuple) and x[0] == 'str' and isinstance(out[-1], tuple) and out[-1][0] == 'str':
                out[-1] = ('str', out[-1][1] + x[1])
            else:
                out.append(x)
    if not out:
        return ('str', '')
    if len(out) == 1:
        return out[0]
    return ('cat',) + tuple(out)


GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
PTRS = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr')
ITERS = ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
         'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_List_iterator',
         'std::_List_const_iterator', 'std::__detail::_Node_iterator_base', 'std::move_iterator')
MAPS = ('std::map', 'std::unordered_map')
SEQS = ('std::vector', 'std::list', 'std::deque', 'std::queue', 'std::priority_queue', 'std::set', 'std::unordered_set')
STREAMS = ('std::basic_ostream', 'std::basic_istream', 'std::basic_stringstream', 'std::basic_ifstream',
           'std::basic_ofstream', 'std::basic_ios', 'std::ios_base', 'std::basic_iostream', 'std::basic_ostringstream')

PURE_METHODS = {
    'size', 'empty', 'c_str', 'data', 'length', 'get', 'begin', 'end', 'cbegin', 'cend', 'front', 'back', 'at',
    'operator[]', 'operator*', 'operator->', 'operator bool', 'load', 'find', 'count', 'what', 'joinable',
    'owns_lock', 'operator==', 'operator!=', 'operator<', 'operator+', 'operator-', 'find_last_of', 'substr',
    'operator unsigned long', 'operator long', 'operator int', 'operator unsigned int', 'max_size', 'capacity',
}
PURE_FREE = {'std::move', 'std::forward', 'std::to_string', 'std::make_pair', 'std::operator+', 'std::operator==',
             'std::operator!=', 'std::operator<', 'std::max', 'std::min', 'std::chrono::duration_cast', 'std::get',
             'std::this_thread::get_id', 'std::addressof', 'std::cref', 'std::ref', 'std::distance', 'std::begin',
             'std::end', 'std::next'}


class StdModel:
    def __init__(self, eng):
        self.g = eng

    # -- queries ------------------------------------------------------------
    def is_container(self, t):
        return base(t).split('::')[-1] in ('vector', 'list', 'map', 'unordered_map', 'deque') and t.startswith('std::')

    def is_pure(self, name, f):
        if name in PURE_FREE:
            return True
        cls = base(f.get('cls', ''))
        if not cls.startswith('std::') and not cls.startswith('__gnu_cxx::'):
            return False
        m = name.split('::')[-1]
        if m == 'operator[]' and cls in MAPS:
            return False
        if cls in ITERS and m in ('operator!=', 'operator==', 'operator*', 'operator->', 'operator+', 'operator-'):
            return True
        if cls == 'std::basic_string' and m == 'basic_string' or cls == 'std::allocator':
            return True
        if cls in STREAMS or cls == 'std::function':
            return m in ('operator bool',)
        return m in PURE_METHODS or (f.get('const') and cls not in ('std::function',))

    def has_dtor(self, t):
        return t.startswith(tuple(g + '<' for g in GUARDS)) or t in GUARDS

    def destroy(self, st, loc, t, l):
        v = st.store.get(loc)
        if isinstance(v, tuple) and v and v[0] == 'guard' and v[2]:
            self.unlock(st, v[1], l)
        self.g.erase(st, loc)
        return [st]

    def lock(self, st, m, l):
        st.locks = st.locks + (m,)
        self.g.emit(st, 'lock', l, m=m)
        # what other threads did before we got the lock is visible now
        if hasattr(self.g.cfg, 'on_lock'):
            self.g.cfg.on_lock(self.g, st, m, l)

    def unlock(self, st, m, l):
        ls = list(st.locks)
        for i in range(len(ls) - 1, -1, -1):
            if ls[i] == m:
                del ls[i]
                break
        st.locks = tuple(ls)
        self.g.emit(st, 'unlock', l, m=m)
        if hasattr(self.g.cfg, 'on_unlock'):
            self.g.cfg.on_unlock(self.g, st, m, l)

    # -- helpers --------------------------------------------------------------
    def rval(self, st, v, pt, l=''):
        """value of an argument passed for parameter type pt"""
        if pt.endswith('&') and isinstance(v, tuple) and v and v[0] == 'ptr':
            E = _eng()
            return self.g.read(st, v[1], E.strip_cv(E.deref_type(pt)), l)
        return v

    def size(self, st, loc):
        E = _eng()
        return self.g._read(st, E.loc_ext(loc, ('f', '#n')), 'unsigned long')

    def set_size(self, st, loc, n, l=''):
        E = _eng()
        self.g.write(st, E.loc_ext(loc, ('f', '#n')), n, l)

    def buf(self, loc):
        return _eng().loc_ext(loc, ('f', '#b'))

    def arr(self, loc):
        return _eng().loc_ext(loc, ('f', '#a'))

    def elem(self, loc, i):
        return _eng().loc_index(self.buf(loc), i)

    def erase_buf(self, st, loc):
        b = self.buf(loc)
        n = len(b[2])
        for k in [k for k in st.store if k[1] == b[1] and k[2][:n] == b[2]]:
            del st.store[k]

    # -- constructors ----------------------------------------------------------
    def construct(self, st, cls, name, e, loc, vals):
        E = _eng()
        g = self.g
        f = e['f']
        pt = f['pt']
        l = e.get('l', '')
        if cls in ('std::vector', 'std::list', 'std::deque'):
            if pt and pt[0].startswith(('std::initializer_list', 'const std::initializer_list')) and e['a']:
                ty = E.strip_cv(e['a'][0].get('t', ''))
                mm = re.search(r'\[(\d+)\]$', ty)
                if mm and isinstance(vals[0], tuple) and vals[0][0] in ('ptr', 'obj'):
                    et = E.strip_cv(ty[:mm.start()].strip())
                    src = vals[0][1]
                    if vals[0][0] == 'obj':
                        src = E.L(('t', ('initlist', st.fresh())))
                        g.write(st, src, vals[0], l)
                    xs = [g._read(st, E.loc_index(E.loc_ext(src, ('f', '#a')), i), et) for i in range(int(mm.group(1)))]
                    g.erase_all(st, loc)
                    st.store[loc] = ('undef',)
                    for i, x in enumerate(xs):
                        g.emit(st, 'vec', l, op='push', vec=loc, n=i, val=x)
                        g.write(st, self.elem(loc, i), x, l)
                    self.set_size(st, loc, len(xs), l)
                    return [(st, None)]
            g.erase_all(st, loc)
            st.store[loc] = ('undef',)
            vs = [self.rval(st, v, p, l) for v, p in zip(vals, pt) if 'allocator' not in p]
            ps = [p for p in pt if 'allocator' not in p]
            if not vs:
                self.set_size(st, loc, 0, l)
            elif isinstance(vs[0], tuple) and vs[0][0] == 'list':
                self.set_size(st, loc, len(vs[0][1]), l)
                for i, x in enumerate(vs[0][1]):
                    g.write(st, self.elem(loc, i), x, l)
            elif E.int_type(E.deref_type(ps[0])):
                self.set_size(st, loc, vs[0], l)
                st.store[self.buf(loc)] = ('rd', self.buf(loc), st.fresh()) if len(vs) < 2 else ('rd', self.buf(loc), st.fresh())
                del st.store[self.buf(loc)]
                st.store[loc] = ('filled', vs[1] if len(vs) > 1 else 0)
            elif len(vs) >= 2:
                d = E.ptr_diff(vs[1], vs[0])
                self.set_size(st, loc, d if d is not None else ('sym', 'n', st.fresh()), l)
                st.store[loc] = ('range', vs[0], vs[1])
            else:
                return None
            return [(st, None)]
        if cls in MAPS or cls in ('std::priority_queue', 'std::set', 'std::unordered_set', 'std::queue'):
            g.erase_all(st, loc)
            st.store[loc] = ('emptymap', st.fresh())
            self.set_size(st, loc, 0, l)
            return [(st, None)]
        if cls == 'std::array':
            return [(st, None)]
        if cls == 'std::basic_string':
            vs = [self.rval(st, v, p, l) for v, p in zip(vals, pt) if 'allocator' not in p]
            if not vs:
                v = ('str', '')
            elif len(vs) == 1:
                v = vs[0]
                if isinstance(v, tuple) and v[0] == 'list':
                    v = ('call', 'chars', v[1])
            else:
                v = ('call', 'mkstring', tuple(vs))
            g.write(st, loc, v, l)
            return [(st, None)]
        if cls == 'std::pair':
            if len(vals) == 2:
                for n, v, p in zip(('first', 'second'), vals, pt):
                    g.write(st, E.loc_ext(loc, ('f', n)), self.rval(st, v, p, l), l)
                st.store.setdefault(loc, ('undef',))
                for v, p in zip(vals, pt):
                    if p.endswith('&&') and isinstance(v, tuple) and v[0] == 'ptr':
                        g.moved_from(st, v[1], E.deref_type(p))
                return [(st, None)]
            if len(vals) == 1:
                v = self.rval(st, vals[0], pt[0], l)
                g.write(st, loc, v, l)
                if pt[0].endswith('&&') and isinstance(vals[0], tuple) and vals[0][0] == 'ptr':
                    g.moved_from(st, vals[0][1], E.strip_cv(E.deref_type(pt[0])))
                return [(st, None)]
            g.write(st, loc, 0, l)
            return [(st, None)]
        if cls in PTRS:
            if not vals:
                g.write(st, loc, 0, l)
            else:
                v = self.rval(st, vals[0], pt[0], l)
                g.write(st, loc, v, l)
                if pt[0].endswith('&&') and isinstance(vals[0], tuple) and vals[0][0] == 'ptr':
                    st.store[vals[0][1]] = 0
            return [(st, None)]
        if cls in ('std::atomic', 'std::__atomic_base', 'std::atomic_flag'):
            g.write(st, loc, self.rval(st, vals[0], pt[0], l) if vals else 0, l)
            return [(st, None)]
        if cls == 'std::function':
            v = self.rval(st, vals[0], pt[0], l) if vals else 0
            g.write(st, loc, v, l)
            return [(st, None)]
        if cls == 'std::thread':
            if not vals:
                st.store[loc] = ('nothread',)
                return [(st, None)]
            fv = self.rval(st, vals[0], pt[0], l)
            rest = [self.rval(st, v, p, l) for v, p in zip(vals[1:], pt[1:])]
            if rest:
                fv = ('bind', fv, tuple(rest))
            t = ('thread', st.fresh())
            g.emit(st, 'spawn', l, f=fv, t=t, loc=loc)
            st.store[loc] = t
            return [(st, None)]
        if cls in ('std::mutex', 'std::recursive_mutex', 'std::condition_variable', 'std::condition_variable_any'):
            st.store[loc] = ('prim', cls)
            return [(st, None)]
        if cls in GUARDS:
            m = vals[0][1] if vals and isinstance(vals[0], tuple) and vals[0][0] == 'ptr' else None
            defer = any('defer_lock' in p for p in pt)
            if m is None:
                st.store[loc] = ('guard', None, False)
                return [(st, None)]
            st.store[loc] = ('guard', m, not defer)
            if not defer:
                self.lock(st, m, l)
            return [(st, None)]
        if cls in ITERS:
            v = self.rval(st, vals[0], pt[0], l) if vals else ('undef',)
            g.write(st, loc, v, l)
            return [(st, None)]
        if cls in E.EXC_STD:
            g.write(st, loc, ('excv', cls, tuple(self.rval(st, v, p, l) for v, p in zip(vals, pt))), l)
            return [(st, None)]
        if cls.startswith('std::chrono') or cls == 'std::allocator':
            g.write(st, loc, ('call', cls, tuple(vals), st.fresh()), l)
            return [(st, None)]
        return None

    # -- calls -------------------------------------------------------------------
    def call(self, st, name, e, f, this, vals):
        E = _eng()
        g = self.g
        l = e.get('l', '')
        pt = f['pt']
        cls = base(f.get('cls', ''))
        m = name.split('::')[-1]
        loc = this[1] if isinstance(this, tuple) and this and this[0] == 'ptr' else None
        if not cls:
            return self.free(st, name, e, f, vals)
        if loc is None:
            return None
        if cls in ('std::vector', 'std::deque', 'std::list', 'std::queue'):
            return self.seq(st, m, e, f, loc, vals)
        if cls == 'std::array':
            if m in ('operator[]', 'at'):
                return [(st, ('ptr', E.loc_index(self.arr(loc), vals[0])))]
            if m in ('data', 'begin'):
                return [(st, ('ptr', self.arr(loc)))]
            if m in ('size', 'end', 'back', 'empty'):
                ta = template_args(f['cls'])
                n = int(re.sub(r'[^\d]', '', ta[1])) if len(ta) > 1 and re.match(r'\d+', ta[1]) else ('sym', 'arrsize')
                if m == 'empty':
                    return [(st, eq(n, 0))]
                return [(st, n if m == 'size' else ('ptr', E.loc_index(self.arr(loc), n if m == 'end' else sub(n, 1))))]
            if m == 'front':
                return [(st, ('ptr', self.arr(loc)))]
            if m == 'operator=':
                g.write(st, loc, self.rval(st, vals[0], pt[0], l), l, 'std::array')
                return [(st, this)]
            if m == 'fill':
                g.erase_all(st, loc)
                st.store[loc] = ('filled', self.rval(st, vals[0], pt[0], l))
                return [(st, None)]
            return None
        if cls in MAPS:
            return self.map(st, m, e, f, loc, vals)
        if cls == 'std::basic_string':
            return self.string(st, m, e, f, loc, vals)
        if cls in PTRS:
            if m == 'operator=':
                v = self.rval(st, vals[0], pt[0], l)
                g.write(st, loc, v, l)
                if pt[0].endswith('&&') and isinstance(vals[0], tuple) and vals[0][0] == 'ptr' and vals[0][1] != loc:
                    st.store[vals[0][1]] = 0
                return [(st, this)]
            v = g.read(st, loc, '', l)
            if m in ('operator->', 'operator*', 'get', 'lock'):
                if m == 'operator*' and not (isinstance(v, tuple) and v[0] == 'ptr'):
                    v = ('ptr', E.L(('o', v)))
                return [(st, v)]
            if m == 'operator[]':
                return [(st, ('ptr', E.loc_index(g.as_loc(v), vals[0])))]
            if m == 'operator bool':
                return [(st, tobool(v))]
            if m == 'reset':
                g.write(st, loc, vals[0] if vals else 0, l)
                return [(st, None)]
            if m == 'release':
                g.write(st, loc, 0, l)
                return [(st, v)]
            if m == 'swap':
                return self.swap(st, loc, vals[0][1], '', l)
            return None
        if cls in ('std::atomic', 'std::__atomic_base'):
            return self.atomic(st, m, e, f, loc, vals)
        if cls == 'std::function':
            if m == 'operator()':
                fv = g.read(st, loc, '', l)
                return g.call_value(st, e, fv, list(vals))
            if m == 'operator bool':
                return [(st, tobool(g.read(st, loc, '', l)))]
            if m == 'operator=':
                v = self.rval(st, vals[0], pt[0], l)
                g.write(st, loc, v, l)
                return [(st, this)]
            return None
        if cls == 'std::thread':
            v = g.read(st, loc, '', l)
            if m == 'joinable':
                if v == ('nothread',):
                    return [(st, 0)]
                if isinstance(v, tuple) and v[0] == 'thread':
                    return [(st, 1)]
                return [(st, tnot(eq(('call', 'tid', (v,)), 0)))]
            if m == 'join' or m == 'detach':
                g.emit(st, m, l, t=v, loc=loc)
                st.store[loc] = ('nothread',)
                if m == 'join':
                    g.havoc_shared(st)
                return [(st, None)]
            if m == 'operator=':
                v = self.rval(st, vals[0], pt[0], l)
                g.write(st, loc, v, l)
                if isinstance(vals[0], tuple) and vals[0][0] == 'ptr':
                    st.store[vals[0][1]] = ('nothread',)
                return [(st, this)]
            return [(st, ('call', name, (v,)))]
        if cls in ('std::mutex', 'std::recursive_mutex'):
            if m == 'lock':
                self.lock(st, loc, l)
                return [(st, None)]
            if m == 'unlock':
                self.unlock(st, loc, l)
                return [(st, None)]
            return None
        if cls in GUARDS:
            v = st.store.get(loc)
            if not (isinstance(v, tuple) and v and v[0] == 'guard'):
                # a lock passed in by reference: find the mutex symbolically
                v = ('guard', E.L(('o', ('mutexof', loc))), E.L(('o', ('mutexof', loc))) in st.locks)
            if m == 'lock':
                st.store[loc] = ('guard', v[1], True)
                self.lock(st, v[1], l)
                return [(st, None)]
            if m == 'unlock':
                st.store[loc] = ('guard', v[1], False)
                self.unlock(st, v[1], l)
                return [(st, None)]
            if m in ('owns_lock', 'operator bool'):
                return [(st, int(bool(v[2])))]
            return None
        if cls in ('std::condition_variable', 'std::condition_variable_any'):
            if m in ('notify_all', 'notify_one'):
                g.emit(st, 'notify', l, cv=loc, all=(m == 'notify_all'))
                return [(st, None)]
            if m in ('wait', 'wait_for', 'wait_until'):
                return self.cv_wait(st, m, e, f, loc, vals)
            return None
        if cls in ITERS:
            return self.iter(st, m, e, f, loc, vals)
        if cls == 'std::pair':
            if m == 'operator=':
                v = self.rval(st, vals[0], pt[0], l)
                g.write(st, loc, v, l)
                if pt[0].endswith('&&') and isinstance(vals[0], tuple) and vals[0][0] == 'ptr':
                    g.moved_from(st, vals[0][1], E.strip_cv(E.deref_type(pt[0])))
                return [(st, this)]
            return None
        if cls in STREAMS:
            v = ('call', name, tuple(self.rval(st, x, p, l) for x, p in zip(vals, pt)), st.fresh())
            E.set_range(v, f.get('rt', ''))
            return [(st, v)]
        if cls == 'std::exception' or cls in E.EXC_STD:
            return [(st, ('call', name, (g.read(st, loc, '', l),)))]
        if cls == 'std::fpos':
            return [(st, E.set_range(('call', name, (g.read(st, loc, '', l),)), 'long'))]
        return None

    def seq(self, st, m, e, f, loc, vals):
        E = _eng()
        g = self.g
        l = e.get('l', '')
        pt = f['pt']
        ta = template_args(f['cls'])
        et = ta[0] if ta else ''
        if m == 'operator[]':
            return [(st, ('ptr', self.elem(loc, vals[0])))]
        if m == 'at':
            return [(st, ('ptr', self.elem(loc, vals[0])))]
        if m in ('data', 'begin', 'cbegin'):
            return [(st, ('ptr', self.buf(loc)))]
        n = self.size(st, loc)
        if g.cfg.track(loc):
            g.emit(st, 'rd', l, loc=E.loc_ext(loc, ('f', '#n')))
        if m in ('end', 'cend'):
            return [(st, ('ptr', self.elem(loc, n)))]
        if m == 'front':
            return [(st, ('ptr', self.buf(loc)))]
        if m == 'back':
            return [(st, ('ptr', self.elem(loc, sub(n, 1))))]
        if m == 'size':
            return [(st, n)]
        if m == 'empty':
            return [(st, eq(n, 0))]
        if m in ('reserve', 'shrink_to_fit'):
            return [(st, None)]
        if m == 'clear':
            g.emit(st, 'vec', l, op='clear', vec=loc, n=n)
            self.erase_buf(st, loc)
            self.set_size(st, loc, 0, l)
            return [(st, None)]
        if m == 'resize':
            g.emit(st, 'vec', l, op='resize', vec=loc, n=n, to=vals[0])
            self.set_size(st, loc, vals[0], l)
            return [(st, None)]
        if m in ('push_back', 'emplace_back', 'push', 'emplace'):
            if m == 'emplace' and f['cls'].startswith('std::vector'):
                return None
            if len(vals) == 1:
                v = self.rval(st, vals[0], pt[0], l)
                mv = pt[0].endswith('&&') and isinstance(vals[0], tuple) and vals[0][0] == 'ptr'
            else:
                v = ('mk', et, tuple(self.rval(st, x, p, l) for x, p in zip(vals, pt)))
                mv = False
            if m == 'emplace_back' and (not vals or len(vals) > 1 or self.other_class(pt[0], et)):
                r = self.emplace_ctor(st, e, et, self.elem(loc, n), vals, pt, l)
                if r is not None:
                    out = []
                    for s in r:
                        if not s.out:
                            g.emit(s, 'vec', l, op='push', vec=loc, n=n, val=g._read(s, self.elem(loc, n), et))
                            self.set_size(s, loc, add(n, 1), l)
                        out.append((s, ('ptr', self.elem(loc, n))))
                    return out
            g.emit(st, 'vec', l, op='push', vec=loc, n=n, val=v)
            g.write(st, self.elem(loc, n), v, l)
            for x, pp in zip(vals, pt) if mv or len(vals) > 1 else ():
                if pp.endswith('&&') and isinstance(x, tuple) and x[0] == 'ptr':
                    g.moved_from(st, x[1], E.strip_cv(E.deref_type(pp)))
            self.set_size(st, loc, add(n, 1), l)
            return [(st, ('ptr', self.elem(loc, n)) if m.startswith('emplace') else None)]
        if m == 'pop_back':
            g.emit(st, 'vec', l, op='pop_back', vec=loc, n=n)
            self.set_size(st, loc, sub(n, 1), l)
            return [(st, None)]
        if m in ('pop_front', 'pop'):
            g.emit(st, 'vec', l, op='pop_front', vec=loc, n=n)
            g.havoc(st, self.buf(loc))
            self.set_size(st, loc, sub(n, 1), l)
            return [(st, None)]
        if m == 'insert':
            vs = [self.rval(st, x, p, l) for x, p in zip(vals, pt)]
            if len(vs) == 3:
                d = E.ptr_diff(vs[2], vs[1])
                g.emit(st, 'vec', l, op='insert', vec=loc, n=n, pos=vs[0], first=vs[1], last=vs[2], cnt=d)
                self.set_size(st, loc, add(n, d) if d is not None else ('sym', 'n', st.fresh()), l)
            else:
                g.emit(st, 'vec', l, op='insert1', vec=loc, n=n, pos=vs[0], val=vs[-1])
                self.set_size(st, loc, add(n, 1), l)
            g.havoc(st, self.buf(loc))
            return [(st, vs[0])]
        if m == 'erase':
            vs = [self.rval(st, x, p, l) for x, p in zip(vals, pt)]
            d = E.ptr_diff(vs[1], vs[0]) if len(vs) == 2 else 1
            g.emit(st, 'vec', l, op='erase', vec=loc, n=n, first=vs[0], last=vs[1] if len(vs) > 1 else None, cnt=d)
            g.havoc(st, self.buf(loc))
            self.set_size(st, loc, sub(n, d) if d is not None else ('sym', 'n', st.fresh()), l)
            return [(st, vs[0])]
        if m == 'operator=':
            v = self.rval(st, vals[0], pt[0], l)
            g.emit(st, 'vec', l, op='assign', vec=loc, n=n, val=vals[0])
            g.write(st, loc, v, l, 'std::vector')
            if pt[0].endswith('&&') and isinstance(vals[0], tuple) and vals[0][0] == 'ptr':
                g.moved_from(st, vals[0][1], E.strip_cv(E.deref_type(pt[0])))
            return [(st, ('ptr', loc))]
        if m == 'swap':
            return self.swap(st, loc, vals[0][1], f['cls'], l)
        if m == 'assign':
            g.emit(st, 'vec', l, op='assign', vec=loc, n=n, val=tuple(vals))
            g.havoc(st, loc)
            return [(st, None)]
        return None

    def other_class(self, p, et):
        E = _eng()
        return E.strip_cv(E.deref_type(p)) != E.strip_cv(et)

    def emplace_ctor(self, st, e, et, loc, vals, pt, l):
        """construct an element in place with a matching repository constructor"""
        E = _eng()
        g = self.g
        rec = g.p.by_type.get(E.strip_cv(et))
        if not rec:
            return None
        if not vals:
            st.store[loc] = ('undef',)
            return [st]
        for f in g.p.functions.values():
            if f.get('kind') == 'ctor' and f.get('rid') == rec['id'] and len(f['p']) == len(vals) and not f.get('implicit'):
                vs = []
                for v, p, q in zip(vals, pt, f['p']):
                    vs.append(v if q['t'].endswith('&') else self.rval(st, v, p, l))
                return [s for s, _ in g.invoke(st, f, ('ptr', loc), vs, l)]
        return None

    def map(self, st, m, e, f, loc, vals):
        E = _eng()
        g = self.g
        l = e.get('l', '')
        pt = f['pt']
        vs = [self.rval(st, v, p, l) for v, p in zip(vals, pt)]
        if g.cfg.track(loc):
            if m == 'operator[]':
                g.emit(st, 'map', l, op='ref', map=loc)
            elif m not in ('emplace', 'insert', 'insert_or_assign', 'try_emplace', 'clear', 'erase', 'swap', 'reserve'):
                g.emit(st, 'rd', l, loc=E.loc_ext(loc, ('f', '#map')))
        if m in ('operator[]', 'at'):
            return [(st, ('ptr', E.loc_ext(loc, ('k', vs[0]), ('f', 'second'))))]
        if m == 'find':
            return [(st, ('mit', loc, vs[0], st.epoch(loc)))]
        if m in ('end', 'cend'):
            return [(st, ('mit', loc, 'end', 0))]
        if m in ('begin', 'cbegin'):
            return [(st, ('mit', loc, ('mkey', loc, 0), st.epoch(loc)))]
        if m == 'count':
            return [(st, ('call', 'mapcount', (loc, vs[0])))]
        n = self.size(st, loc)
        if m == 'size':
            return [(st, n)]
        if m == 'empty':
            return [(st, eq(n, 0))]
        if m in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
            if len(vs) == 2:
                kl = E.loc_ext(loc, ('k', vs[0]))
                g.emit(st, 'map', l, op='put', map=loc, key=vs[0], val=vs[1])
                g.write(st, E.loc_ext(kl, ('f', 'second')), vs[1], l)
                st.store[E.loc_ext(kl, ('f', 'first'))] = vs[0]
            else:
                g.emit(st, 'map', l, op='put', map=loc, key=None, val=tuple(vs))
            self.set_size(st, loc, ('sym', 'mapn', st.fresh()), l)
            return [(st, ('call', 'mapit', tuple(vs), st.fresh()))]
        if m == 'clear':
            g.emit(st, 'map', l, op='clear', map=loc)
            g.erase_all(st, loc)
            st.store[loc] = ('emptymap', st.fresh())
            self.set_size(st, loc, 0, l)
            return [(st, None)]
        if m == 'reserve':
            return [(st, None)]
        if m == 'erase':
            g.emit(st, 'map', l, op='erase', map=loc, key=vs[0] if vs else None)
            g.havoc(st, loc)
            return [(st, ('sym', 'it', st.fresh()))]
        return None

    def string(self, st, m, e, f, loc, vals):
        E = _eng()
        g = self.g
        l = e.get('l', '')
        pt = f['pt']
        cur = g.read(st, loc, '', l)
        vs = [self.rval(st, v, p, l) for v, p in zip(vals, pt)]
        if m in ('c_str', 'data'):
            return [(st, cur)]
        if m == 'empty':
            if isinstance(cur, tuple) and cur[0] == 'str':
                return [(st, int(cur[1] == ''))]
            if isinstance(cur, tuple) and cur[0] == 'cat' and any(isinstance(x, tuple) and x[0] == 'str' and x[1] for x in cur[1:]):
                return [(st, 0)]
            return [(st, eq(cur, ('str', '')))]
        if m in ('size', 'length'):
            if isinstance(cur, tuple) and cur[0] == 'str':
                return [(st, len(cur[1]))]
            return [(st, E.set_range(('call', 'strlen', (cur,)), 'unsigned long'))]
        if m == 'operator=':
            g.write(st, loc, vs[0], l)
            return [(st, ('ptr', loc))]
        if m in ('operator+=', 'append', 'push_back') and len(vs) == 1:
            v = vs[0]
            if isinstance(v, int):
                v = ('str', chr(v)) if 0 < v < 128 else ('call', 'chr', (v,))
            g.write(st, loc, cat(cur, v), l)
            return [(st, ('ptr', loc))]
        if m == 'swap':
            return self.swap(st, loc, vals[0][1], '', l)
        if m in ('find_last_of', 'substr', 'find', 'rfind', 'find_first_of', 'compare', 'find_last_not_of', 'back', 'front', 'begin', 'end'):
            v = ('call', 'str.' + m, (cur,) + tuple(vs))
            E.set_range(v, f.get('rt', ''))
            if f.get('rt', '').endswith('&'):
                v = ('ptr', E.L(('o', v)))
            return [(st, v)]
        if m in ('operator[]', 'at'):
            return [(st, ('ptr', E.loc_index(self.buf(loc), vs[0])))]
        if m in ('resize', 'clear', 'assign', 'erase', 'insert', 'replace', 'pop_back'):
            v = ('str', '') if m == 'clear' else ('call', 'str.' + m, (cur,) + tuple(vs))
            g.write(st, loc, v, l)
            return [(st, ('ptr', loc))]
        if m == 'reserve':
            return [(st, None)]
        return None

    def atomic(self, st, m, e, f, loc, vals):
        E = _eng()
        g = self.g
        l = e.get('l', '')
        ty = (template_args(f['cls']) or [''])[0]
        vs = [self.rval(st, v, p, l) for v, p in zip(vals, f['pt'])]
        if g.cfg.track(loc):
            g.emit(st, 'atomic', l, loc=loc, op=m, val=vs[0] if vs else None, ep=st.epoch(loc, g.cfg.shared))
        old = g._read(st, loc, ty)
        if m.startswith('operator ') or m == 'load':
            return [(st, old)]
        new = None
        if m in ('operator=', 'store', 'exchange'):
            new = vs[0]
        elif m in ('operator+=', 'fetch_add'):
            new = add(old, vs[0])
        elif m in ('operator-=', 'fetch_sub'):
            new = sub(old, vs[0])
        elif m == 'operator++':
            new = add(old, 1)
        elif m == 'operator--':
            new = sub(old, 1)
        elif m in ('operator|=', 'fetch_or'):
            new = T.bor(old, vs[0])
        elif m in ('operator&=', 'fetch_and'):
            new = T.band(old, vs[0])
        else:
            return None
        g.erase(st, loc)
        st.store[loc] = new
        if m.startswith('fetch') or m == 'exchange' or (m in ('operator++', 'operator--') and vals):
            return [(st, old)]
        if m == 'store':
            return [(st, None)]
        return [(st, new)]

    def cv_wait(self, st, m, e, f, loc, vals):
        g = self.g
        E = _eng()
        l = e.get('l', '')
        pred = None
        timed = m != 'wait'
        pt = f['pt']
        extra = vals[1:]
        eptr = pt[1:]
        if timed:
            extra, eptr = extra[1:], eptr[1:]
        if extra:
            pred = self.rval(st, extra[0], eptr[0], l)
        lk = vals[0]
        gv = st.store.get(lk[1]) if isinstance(lk, tuple) and lk[0] == 'ptr' else None
        mx = gv[1] if isinstance(gv, tuple) and gv and gv[0] == 'guard' else None

        def dowait(s):
            g.emit(s, 'wait', l, cv=loc, m=mx, timed=timed)
            if hasattr(g.cfg, 'on_wait'):
                g.cfg.on_wait(g, s, loc, mx, l)
            g.havoc_shared(s)

        if pred is None:
            dowait(st)
            return [(st, ('sym', 'cvstat', st.fresh()) if timed else None)]

        def cond(s):
            return [(s2, tnot(tobool(v)) if not s2.out else None) for s2, v in g.call_value(s, e, pred, [])]
        node = {'l': l, 'k': 'While', 'cvwait': True}
        out = []
        for s in g.loop(node, st, cond, {'k': 'Null', 'l': l}, None, pre=dowait, decide=False):
            out.append((s, 1 if timed else None))
        return out

    def iter(self, st, m, e, f, loc, vals):
        E = _eng()
        g = self.g
        l = e.get('l', '')
        v = g.read(st, loc, '', l)
        pt = f['pt']
        if m in ('operator*', 'operator->'):
            if isinstance(v, tuple) and v[0] == 'mit' and v[2] != 'end':
                return [(st, ('ptr', E.loc_ext(v[1], ('k', v[2]))))]
            if not (isinstance(v, tuple) and v[0] == 'ptr'):
                v = ('ptr', E.L(('o', v)))
            return [(st, v)]
        if m in ('operator++', 'operator--'):
            d = 1 if m == 'operator++' else -1
            if isinstance(v, tuple) and v[0] == 'mit':
                new = ('mit', v[1], ('mnext', v[2], d), v[3])
            else:
                new = ('ptr', E.loc_index(g.as_loc(v), d))
            g.write(st, loc, new, l)
            return [(st, v if vals else ('ptr', loc))]
        if m in ('operator+', 'operator-', 'operator+=', 'operator-=', 'operator[]'):
            x = self.rval(st, vals[0], pt[0], l)
            if isinstance(x, tuple) and x[0] == 'ptr' and m == 'operator-':
                d = E.ptr_diff(v, x)
                return [(st, d if d is not None else ('op', 'pdiff', v, x))]
            if m.startswith('operator-'):
                x = T.scale(x, -1)
            r = ('ptr', E.loc_index(g.as_loc(v), x))
            if m.endswith('='):
                g.write(st, loc, r, l)
                return [(st, ('ptr', loc))]
            return [(st, r)]
        if m == 'operator=':
            x = self.rval(st, vals[0], pt[0], l)
            g.write(st, loc, x, l)
            return [(st, ('ptr', loc))]
        if m == 'base':
            return [(st, v)]
        if m in ('operator==', 'operator!='):
            x = self.rval(st, vals[0], pt[0], l)
            return [(st, self.it_eq(v, x, m == 'operator=='))]
        return None

    def it_eq(self, a, b, pos):
        E = _eng()
        r = None
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == 'mit' and b[0] == 'mit':
                if b[2] == 'end' and a[2] == 'end':
                    r = 1
                elif b[2] == 'end' or a[2] == 'end':
                    x = a if b[2] == 'end' else b
                    r = eq(('call', 'has', (x[1], x[2], x[3])), 0)
            else:
                d = E.ptr_diff(a, b)
                if d is not None:
                    r = eq(d, 0)
        if r is None:
            r = eq(a, b)
        return r if pos else tnot(r)

    def swap(self, st, a, b, ty, l):
        g = self.g
        x, y = g.read(st, a, ty or 'obj', l), g.read(st, b, ty or 'obj', l)
        g.emit(st, 'swap', l, a=a, b=b)
        g.write(st, a, y, l, 'std::array')
        g.write(st, b, x, l, 'std::array')
        return [(st, None)]

    # -- free functions ------------------------------------------------------------
    def free(self, st, name, e, f, vals):
        E = _eng()
        g = self.g
        l = e.get('l', '')
        pt = f['pt']
        if name in ('std::move', 'std::forward', 'std::addressof', 'std::as_const', 'std::ref', 'std::cref', 'std::__addressof'):
            return [(st, vals[0])]
        if name in ('std::max', 'std::min') and len(vals) == 2 and pt[0].endswith('&'):
            a, b = (self.rval(st, v, p, l) for v, p in zip(vals, pt))
            if T.numericish(a) and T.numericish(b):
                d = st.facts.decide(le(a, b))
                if d is not None:
                    v = (b if d else a) if name == 'std::max' else (a if d else b)
                else:
                    v = T.tmax(a, b) if name == 'std::max' else T.tmin(a, b)
            else:
                v = ('call', name, (a, b))
            E.set_range(v, E.deref_type(pt[0])) if isinstance(v, tuple) else None
            tl = E.L(('v', 't%d' % st.fresh(), st.frames[-1][0] if st.frames else 0, 'tmp'))
            st.store[tl] = v
            return [(st, ('ptr', tl))]
        if name == 'std::to_string':
            v = self.rval(st, vals[0], pt[0], l)
            return [(st, ('str', str(v)) if isinstance(v, int) else ('tostr', v))]
        if name == 'std::operator+':
            vs = []
            for v, p in zip(vals, pt):
                v = self.rval(st, v, p, l)
                if isinstance(v, int):
                    v = ('str', chr(v)) if 0 < v < 128 else ('call', 'chr', (v,))
                vs.append(v)
            if 'string' in f.get('rt', '') or any('basic_string' in p for p in pt):
                return [(st, cat(*vs))]
            return None
        if name in ('std::operator==', 'std::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator!='):
            a, b = (self.rval(st, v, p, l) for v, p in zip(vals, pt))
            return [(st, self.it_eq(a, b, name.endswith('==')))]
        if name == '__gnu_cxx::operator-':
            a, b = (self.rval(st, v, p, l) for v, p in zip(vals, pt))
            d = E.ptr_diff(a, b)
            return [(st, d if d is not None else ('op', 'pdiff', a, b))]
        if name in ('std::begin', 'std::end', 'std::size'):
            loc = g.as_loc(vals[0])
            t = E.strip_cv(E.deref_type(pt[0]))
            if t.startswith('std::vector') or t.startswith('std::list'):
                n = self.size(st, loc)
                return [(st, ('ptr', self.buf(loc)) if name == 'std::begin' else n if name == 'std::size' else ('ptr', self.elem(loc, n)))]
            return None
        if name == 'std::distance':
            d = E.ptr_diff(vals[1], vals[0])
            return [(st, d if d is not None else ('op', 'pdiff', vals[1], vals[0]))]
        if name in ('std::next', 'std::prev'):
            v = vals[0]
            d = vals[1] if len(vals) > 1 else 1
            return [(st, ('ptr', E.loc_index(g.as_loc(v), d if name == 'std::next' else T.scale(d, -1))))]
        if name == 'std::make_pair':
            vs = [self.rval(st, v, p, l) for v, p in zip(vals, pt)]
            for v, p in zip(vals, pt):
                if p.endswith('&&') and isinstance(v, tuple) and v[0] == 'ptr':
                    g.moved_from(st, v[1], E.strip_cv(E.deref_type(p)))
            kids = []
            for n, v in zip(('first', 'second'), vs):
                if isinstance(v, tuple) and v and v[0] == 'obj':
                    kids.append(((('f', n),), v[1] if v[1] is not None else ('undef',)))
                    for r, x in v[2]:
                        kids.append(((('f', n),) + r, x))
                else:
                    kids.append(((('f', n),), v))
            return [(st, ('obj', None, tuple(kids)))]
        if name in ('std::make_shared', 'std::make_unique'):
            loc = E.L(('h', st.fresh(), l))
            ta = f.get('ta') or []
            ty = ta[0] if ta else ''
            if not ty:
                r = template_args(f.get('rt', ''))
                ty = r[0] if r else ''
            g.emit(st, 'make', l, loc=loc, ty=ty, args=tuple(vals), vals=tuple(st.store.get(x[1]) if isinstance(x, tuple) and x and x[0] == 'ptr' else x for x in vals))
            out = []
            for s in self.make(st, ty, loc, vals, pt, l):
                out.append((s, ('ptr', loc) if not s.out else None))
            return out
        if name == 'std::bind':
            vs = []
            for v, p in zip(vals, pt):
                x = self.rval(st, v, p, l)
                if isinstance(x, tuple) and x and x[0] == 'rd' and x[1][1][0] == 'g' and 'placeholders::_' in str(x[1][1][1]):
                    x = ('ph', int(x[1][1][1].rsplit('_', 1)[1]))
                elif isinstance(v, tuple) and v and v[0] == 'ptr' and v[1][1][0] == 'g' and 'placeholders::_' in str(v[1][1][1]):
                    x = ('ph', int(v[1][1][1].rsplit('_', 1)[1]))
                vs.append(x)
            return [(st, ('bind', vs[0], tuple(vs[1:])))]
        if name == 'std::swap':
            return self.swap(st, vals[0][1], vals[1][1], E.strip_cv(E.deref_type(pt[0])), l)
        if name in ('std::sort', 'std::stable_sort'):
            g.emit(st, 'sort', l, first=vals[0], last=vals[1], cmp=vals[2] if len(vals) > 2 else None, node=e)
            if isinstance(vals[0], tuple) and vals[0][0] == 'ptr':
                b, i = E.split_index(vals[0][1])
                g.havoc(st, b)
            return [(st, None)]
        if name in ('std::copy', 'std::copy_n', 'std::fill', 'std::fill_n', 'memcpy', 'memset', 'memmove', 'std::memcpy', 'std::memset'):
            g.emit(st, 'mem', l, op=name, args=tuple(vals))
            d = vals[2] if name in ('std::copy', 'std::copy_n') else vals[0]
            if isinstance(d, tuple) and d[0] == 'ptr':
                if name == 'memcpy' and isinstance(vals[1], tuple) and vals[1][0] == 'ptr':
                    src = g._read(st, vals[1][1], 'obj')
                    g.havoc(st, d[1])
                    st.store[d[1]] = ('call', 'bytes', (src, vals[2]))
                else:
                    g.havoc(st, d[1])
            return [(st, vals[0])]
        if name == 'std::get':
            return None
        if name in ('exit', 'abort', 'std::exit', '_exit', 'quick_exit', 'std::terminate', 'std::abort'):
            g.emit(st, 'exit', l, args=tuple(vals))
            st.out = ('abort', name)
            return [(st, None)]
        if name in ('std::setw', 'std::setfill', 'std::this_thread::sleep_for', 'pthread_setname_np', 'pthread_self',
                    'std::chrono::operator-', 'std::chrono::duration_cast'):
            return [(st, ('call', name, tuple(vals), st.fresh()))]
        if name == '__builtin_expect':
            return [(st, vals[0])]
        return None

    def make(self, st, ty, loc, vals, pt, l):
        E = _eng()
        g = self.g
        t = E.strip_cv(ty)
        st.store[loc] = ('undef',)
        rec = g.p.by_type.get(t)
        if rec is None:
            if t.startswith(('std::vector', 'std::list')):
                if not vals:
                    self.set_size(st, loc, 0, l)
                    return [st]
                if E.int_type(E.deref_type(pt[0])):
                    self.set_size(st, loc, self.rval(st, vals[0], pt[0], l), l)
                    return [st]
                g.write(st, loc, self.rval(st, vals[0], pt[0], l), l, 'std::vector')
                return [st]
            g.write(st, loc, ('mk', t, tuple(self.rval(st, v, p, l) for v, p in zip(vals, pt))), l)
            return [st]
        cands = [f for f in g.p.functions.values() if f.get('kind') == 'ctor' and f.get('rid') == rec['id']
                 and not f.get('implicit') and len(f['p']) >= len(vals)]
        cands.sort(key=lambda f: len(f['p']))
        if cands and not g.cfg.opaque(g, cands[0]):
            f = cands[0]
            vs = []
            for v, p, q in zip(vals, pt, f['p']):
                vs.append(v if q['t'].endswith('&') else self.rval(st, v, p, l))
            r = g.cfg.model(g, st, f['base'], {'l': l}, ('ptr', loc), vs)
            if r is None:
                for q in f['p'][len(vals):]:
                    d = q.get('d')
                    vs.append(int(d['v']) if d and d.get('k') == 'Int' else g.sym_value(('sym', 'dflt:' + q['n']), q['t']))
                r = g.invoke(st, f, ('ptr', loc), vs, l)
            return [s for s, v in r]
        if len(vals) == 1:
            g.write(st, loc, self.rval(st, vals[0], pt[0], l), l)
            return [st]
        for fd in rec['fields']:
            fl = E.loc_ext(loc, ('f', fd['n']))
            if fd.get('init') and fd['init'].get('k') == 'Int':
                st.store[fl] = int(fd['init']['v'])
            elif self.is_container(E.strip_cv(fd['t'])):
                self.set_size(st, fl, 0, l)
        return [st]

    # -- streams -------------------------------------------------------------------
    def stream(self, st, e):
        g = self.g
        out = []
        res = [(st, None)]
        for i, a in enumerate(e['a']):
            if i and g.is_pure(a):
                continue
            nxt = []
            for s, v in res:
                if s.out:
                    nxt.append((s, v))
                    continue
                for s2, v2 in g.ev(a, s):
                    nxt.append((s2, v2 if i == 0 else v))
            res = nxt
        return [(s, v) for s, v in res]

    # -- range for -----------------------------------------------------------------
    def init_list(self, st, n, t, v):
        """values of a braced list that is iterated over"""
        if not t.startswith('std::initializer_list') or isinstance(v, tuple) and v and v[0] == 'list':
            return v
        e = n['r']
        while isinstance(e, dict) and e.get('k') in ('Tmp', 'Cast', 'Ld', 'Clean', 'InitL') and isinstance(e.get('e'), dict):
            e = e['e']
        if not isinstance(e, dict) or e.get('k') != 'List' or len(e['a']) > 10:
            return v
        out = []
        for x in e['a']:
            rs = self.g.ev(x, st)
            if len(rs) != 1 or rs[0][0] is not st or st.out:
                return v
            y = rs[0][1]
            if isinstance(y, tuple) and y and y[0] == 'ptr' and not x.get('t', '').endswith('*'):
                y = self.g.read(st, y[1], x.get('t', ''))
            out.append(y)
        return ('list', tuple(out))

    def range_loop(self, st, n, v):
        E = _eng()
        g = self.g
        t = E.strip_cv(E.deref_type(n.get('rt', '')))
        loc = g.as_loc(v)
        fr = st.frames[-1][0] if st.frames else 0
        il = E.L(('v', 'ri%s' % n.get('l', ''), fr, '#i'))
        v = self.init_list(st, n, t, v)
        if t.startswith(('std::vector', 'std::list', 'std::deque', 'std::set')):
            size = self.size(st, loc)

            def elem(i):
                return self.elem(loc, i)
        elif t.startswith('std::array'):
            ta = template_args(t)
            size = int(re.sub(r'[^\d]', '', ta[1])) if len(ta) > 1 and ta[1][:1].isdigit() else ('sym', 'arrsize')

            def elem(i):
                return E.loc_index(self.arr(loc), i)
        elif re.search(r'\[(\d+)\]$', t):
            size = int(re.search(r'\[(\d+)\]$', t).group(1))

            def elem(i):
                return E.loc_index(self.arr(loc), i)
        elif isinstance(v, tuple) and v[0] == 'list':
            size = len(v[1])
            tl = E.L(('v', 'rl%s' % n.get('l', ''), fr, '#l'))
            for i, x in enumerate(v[1]):
                st.store[E.loc_ext(tl, ('k', i))] = x

            def elem(i):
                return E.loc_ext(tl, ('k', i))
        else:
            size = self.size(st, loc)

            def elem(i):
                return E.loc_ext(loc, ('k', ('mkey', loc, i)))
        st.store[il] = 0
        d = n['v']

        def cond(s):
            return [(s, lt(s.store[il], size))]

        def pre(s):
            el = elem(s.store[il])
            dl = E.L(('v', d['id'], s.frames[-1][0] if s.frames else 0, d['n']))
            ty = d['t']
            g.erase_all(s, dl)
            if ty.endswith('&'):
                s.store[dl] = ('ptr', el)
                src = el
            else:
                g.write_local(s, dl, g.read(s, el, ty, n.get('l', '')))
                src = dl
            for i, b in enumerate(d.get('binds', [])):
                bl = E.L(('v', b['id'], s.frames[-1][0] if s.frames else 0, b['n']))
                s.store[bl] = ('ptr', E.loc_ext(src, ('f', ('first', 'second')[i] if i < 2 else '#%d' % i)))

        def inc(s):
            s.store[il] = add(s.store[il], 1)
        out = g.loop(n, st, cond, n['b'], inc, pre=pre)
        for s in out:
            s.store.pop(il, None)
        return out
