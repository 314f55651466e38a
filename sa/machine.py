"""Abstract machine for the concurrency primitives: a fixpoint over the product of the control-flow graphs (LLVM IR) of a worker and its callers.

Values are constants, pointers or unknown; items handed over are abstracted to small marks. The states are those in which every thread is at a
synchronisation operation (lock, condition wait, join, callback, call boundary); from each state every enabled thread is advanced to its next
synchronisation operation, until no new abstract state appears."""
from .ir import GiveUp, operand, P, toks
import re


class Violation(Exception):
    pass


TOP = ('?',)
EXC = ('_ZTISt9exception', '_ZTISt13runtime_error', '_ZTISt11logic_error')


class Frame:
    __slots__ = ('fn', 'lab', 'prev', 'pc', 'env', 'dst', 'to', 'unw', 'allocs', 'blk')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.lab, f.prev, f.pc, f.dst, f.to, f.unw, f.blk = self.fn, self.lab, self.prev, self.pc, self.dst, self.to, self.unw, self.blk
        f.env = dict(self.env)
        f.allocs = self.allocs
        return f


class Th:
    __slots__ = ('frames', 'at', 'res', 'name', 'exc', 'note')

    def __init__(self, name):
        self.frames, self.at, self.res, self.name, self.exc, self.note = [], None, None, name, None, None

    def copy(self):
        t = Th(self.name)
        t.frames = [f.copy() for f in self.frames]
        t.at, t.res, t.exc, t.note = self.at, self.res, self.exc, self.note
        return t


class St:
    __slots__ = ('mem', 'own', 'th', 'ghost', 'n', 'trace')

    def __init__(self):
        self.mem, self.own, self.th, self.ghost, self.n, self.trace = {}, {}, [], {}, 0, None

    def copy(self):
        s = St()
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.own = dict(self.own)
        s.th = [t.copy() for t in self.th]
        s.ghost = dict(self.ghost)
        s.n = self.n
        s.trace = self.trace
        return s

    def key(self):
        """canonical: objects renumbered in the order they are reached"""
        ren, order = {}, []

        def ob(o):
            if o is None or o[0] in ('g', 'fn'):
                return o
            r = ren.get(o)
            if r is None:
                r = ren[o] = len(ren)
                order.append(o)
            return r

        def v(x):
            if isinstance(x, tuple):
                if x and x[0] == 'p':
                    return ('p', ob(x[1]), x[2])
                if x and x[0] == 'agg':
                    return tuple(v(y) for y in x)
            return x
        out = []
        for t in self.th:
            fr = []
            for f in t.frames:
                live = f.fn.live(f.lab, f.pc)
                fr.append((f.fn.name, f.lab, f.pc, f.prev if f.pc == 0 else None, tuple((k, v(f.env[k])) for k in live if k in f.env)))
            out.append((t.name, tuple(fr), tuple(v(x) for x in t.at) if t.at else None))
        own = sorted(((ob(k[0]), k[1]), w) for k, w in self.own.items())
        out.append(tuple(own))
        i = 0
        mem = []
        while i < len(order):
            o = order[i]
            i += 1
            m = self.mem.get(o)
            if m is not None:
                mem.append((ren[o], tuple((k, m[k][0], v(m[k][1])) for k in sorted(m))))
        gl = [(o, tuple((k, m[k][0], v(m[k][1])) for k in sorted(m))) for o, m in self.mem.items() if o[0] == 'g' and o[1] == 'rw']
        out.append(tuple(mem))
        out.append(tuple(sorted(self.ghost.items(), key=repr)))
        return tuple(out)


class FnInfo:
    """function with liveness of its registers at block starts (for canonical states)"""


def _uses(i):
    out = []

    def rec(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'v' and isinstance(x[1], str):
                if x[1][0] == '%':
                    out.append(x[1])
                return
            for y in x:
                rec(y)
        elif isinstance(x, list):
            for y in x:
                rec(y)
        elif isinstance(x, dict):
            for y in x.values():
                rec(y)
    rec(i[2:] if i[0] in ('bin', 'icmp', 'cast', 'load', 'gep', 'alloca', 'select', 'call', 'extract', 'insert', 'freeze', 'phi', 'landingpad', 'rmw', 'cmpxchg')
        else i[1:])
    return out


def _succ(i):
    k = i[0]
    if k == 'jmp':
        return [i[1]]
    if k == 'br':
        return [i[2], i[3]]
    if k == 'switch':
        return [i[3]] + [c[1] for c in i[4]]
    if k == 'call' and i[5]:
        return [i[5], i[6]]
    return []


def liveness(f):
    ins = {}
    blocks = {l: f.block(l) for l in f.raw}
    ch = True
    for l in blocks:
        ins[l] = frozenset()
    while ch:
        ch = False
        for l, b in blocks.items():
            cur = set()
            for s in _succ(b[-1]) if b else ():
                cur |= ins.get(s, frozenset())
                for i in blocks.get(s, ()):
                    if i[0] != 'phi':
                        break
                    o = i[3].get(l)
                    if o:
                        cur |= set(_uses(('x', o)))
            for i in reversed(b):
                if len(i) > 1 and i[0] in DEFS and i[1]:
                    cur.discard(i[1])
                if i[0] != 'phi':
                    cur |= set(_uses(i))
            cur = frozenset(cur)
            if cur != ins[l]:
                ins[l] = cur
                ch = True
    f._ins = ins
    f._livec = {}


DEFS = ('bin', 'icmp', 'cast', 'load', 'gep', 'alloca', 'select', 'call', 'extract', 'insert', 'freeze', 'phi', 'landingpad', 'rmw', 'cmpxchg', 'insertel', 'extractel')


def live_at(f, lab, pc):
    if not hasattr(f, '_ins'):
        liveness(f)
    r = f._livec.get((lab, pc))
    if r is None:
        b = f.block(lab)
        cur = set()
        for s in _succ(b[-1]):
            cur |= f._ins.get(s, frozenset())
            for i in f.block(s):
                if i[0] != 'phi':
                    break
                o = i[3].get(lab)
                if o:
                    cur |= set(_uses(('x', o)))
        for i in reversed(b[pc:]):
            if i[0] in DEFS and i[1]:
                cur.discard(i[1])
            cur |= set(_uses(i))
        r = f._livec[(lab, pc)] = tuple(sorted(cur))
    return r


from .ir import Func
Func.live = lambda self, lab, pc: live_at(self, lab, pc)


def mask(v, n):
    return v & ((1 << n) - 1)


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


class Machine:
    def __init__(self, mod, cbs=(), max_steps=20000):
        self.mod = mod
        self.cbs = set(cbs)          # external callbacks: synchronisation points
        self.max_steps = max_steps
        self.races = {}
        self.forks = set()
        self.log = None              # list that receives (object, offset, is write, mutexes held, function, thread)
        self.split_atomics = False
        self.may_throw = True
        self.split = False           # unlocking is a scheduling point of its own

    # ---------------- memory
    def alloc(self, s, tag='h'):
        s.n += 1
        o = (tag, s.n)
        s.mem[o] = {}
        return ('p', o, 0)

    def glob(self, s, name):
        o = ('g', name)
        if name in self.mod._defs:
            return ('p', ('fn', name), 0)
        if o not in s.mem:
            d = self.mod.globals.get(name)
            if d is None:
                return ('p', ('fn', name), 0)
            s.mem[o] = {}
            m = re.match(r'^(.*?\b)(global|constant)\s+(.*)$', d)
            if m and 'external' not in m.group(1):
                p = P(toks(m.group(3)), self.mod)
                t = p.ty()
                try:
                    self.store(s, ('p', o, 0), t, self.const(s, operand(p, t), t))
                except (GiveUp, IndexError, ValueError, TypeError):
                    pass
        return ('p', o, 0)

    def const(self, s, o, t):
        k = o[0]
        if k == 'n':
            return mask(o[1], t[1])
        if k == 'v':
            return self.glob(s, o[1])
        if k == 'zero':
            return self.zero(t)
        if k == 'agg':
            return ('agg',) + tuple(self.const(s, v, tt) for tt, v in o[1])
        if k == 'cgep':
            return self.gep(s, o[1], [(tt, self.const(s, v, tt)) for tt, v in o[2]])
        if k == 'ccast':
            return self.const(s, o[3], o[2])
        return TOP

    def zero(self, t):
        if t[0] == 'i':
            return 0
        if t[0] == 'ptr':
            return ('p', None, 0)
        if t[0] == 'named':
            t = self.mod.named(t)
        if t[0] == 'str':
            return ('agg',) + tuple(self.zero(x) for x in t[1])
        if t[0] == 'arr':
            return ('agg',) + tuple(self.zero(t[2]) for _ in range(t[1]))
        return TOP

    def store(self, s, p, t, v):
        if not (isinstance(p, tuple) and p[0] == 'p') or p[1] is None or not isinstance(p[2], int):
            raise GiveUp('store through %s' % (p,))
        if t[0] == 'named':
            t = self.mod.named(t)
        if isinstance(v, tuple) and v and v[0] == 'agg':
            if t[0] == 'str':
                for i, x in enumerate(v[1:]):
                    off, ft = self.mod.fieldoff(t, i)
                    self.store(s, ('p', p[1], p[2] + off), ft, x)
                return
            et = t[2]
            sz = self.mod.layout(et)[0]
            for i, x in enumerate(v[1:]):
                self.store(s, ('p', p[1], p[2] + i * sz), et, x)
            return
        n = self.mod.layout(t)[0]
        m = s.mem.get(p[1])
        if m is None:
            raise GiveUp('store to a freed or unknown object %s' % (p[1],))
        self.clear(m, p[2], n)
        m[p[2]] = (n, v)

    def clear(self, m, off, n):
        for k in [k for k, (sz, _) in m.items() if k < off + n and k + sz > off]:
            sz, v = m.pop(k)
            if k < off or k + sz > off + n:
                # keep the untouched bytes of integers
                for j in range(sz):
                    if not (off <= k + j < off + n):
                        m[k + j] = (1, (v >> (8 * j)) & 255 if isinstance(v, int) else TOP)

    def load(self, s, p, t):
        if not (isinstance(p, tuple) and p[0] == 'p') or p[1] is None or not isinstance(p[2], int):
            raise GiveUp('load through %s' % (p,))
        if t[0] == 'named':
            t = self.mod.named(t)
        if t[0] == 'str':
            return ('agg',) + tuple(self.load(s, ('p', p[1], p[2] + self.mod.fieldoff(t, i)[0]), self.mod.fieldoff(t, i)[1]) for i in range(len(t[1])))
        n = self.mod.layout(t)[0]
        m = s.mem.get(p[1])
        if m is None:
            if p[1] == ('fn', '#vt'):
                return ('p', ('fn', '@#what'), 0)
            if p[1][0] == 'fn':
                return TOP
            raise GiveUp('load from a freed or unknown object')
        c = m.get(p[2])
        if c and c[0] == n:
            v = c[1]
            if t[0] == 'ptr' and v == 0:
                return ('p', None, 0)
            if t[0] == 'i' and isinstance(v, int):
                return mask(v, t[1])
            if t[0] == 'i' and isinstance(v, tuple) and v[0] == 'p' and v[1] is None:
                return 0
            return v
        if t[0] == 'ptr':
            b = [self.byte(m, p[2] + i) for i in range(n)]
            if all(x == 0 for x in b):
                return ('p', None, 0)
            return TOP
        if t[0] == 'i':
            b = [self.byte(m, p[2] + i) for i in range(n)]
            if all(isinstance(x, int) for x in b):
                return mask(sum(x << (8 * i) for i, x in enumerate(b)), t[1])
        return TOP

    def byte(self, m, off):
        for j in range(8):
            c = m.get(off - j)
            if c and c[0] > j:
                if isinstance(c[1], int):
                    return (c[1] >> (8 * j)) & 255
                if isinstance(c[1], tuple) and c[1][0] == 'p' and c[1][1] is None:
                    return 0
                return TOP
        return TOP

    def copy(self, s, d, q, n):
        if not isinstance(n, int):
            raise GiveUp('memcpy of unknown size')
        if n == 0:
            return
        ms, md = s.mem.get(q[1]), s.mem.get(d[1])
        if ms is None or md is None:
            raise GiveUp('memcpy of unknown objects')
        cells = [(k, c) for k, c in ms.items() if q[2] <= k and k + c[0] <= q[2] + n]
        part = [(k, c) for k, c in ms.items() if k < q[2] + n and k + c[0] > q[2] and not (q[2] <= k and k + c[0] <= q[2] + n)]
        for k, c in part:
            for j in range(c[0]):
                if q[2] <= k + j < q[2] + n:
                    cells.append((k + j, (1, self.byte(ms, k + j))))
        self.clear(md, d[2], n)
        for k, c in cells:
            md[k - q[2] + d[2]] = c

    # ---------------- expressions
    def opnd(self, s, f, o, t):
        if o[0] == 'v':
            if o[1][0] == '%':
                return f.env.get(o[1], TOP)
            return self.glob(s, o[1])
        return self.const(s, o, t)

    def gep(self, s, et, args):
        base = args[0][1]
        if not (isinstance(base, tuple) and base[0] == 'p'):
            return TOP
        off = base[2]
        t = et
        for n, (tt, c) in enumerate(args[1:]):
            if not isinstance(c, int):
                return TOP
            c = sgn(c, tt[1])
            if n == 0:
                off += c * self.mod.layout(t)[0]
            else:
                if t[0] == 'named':
                    t = self.mod.named(t)
                if t[0] == 'str':
                    o, t = self.mod.fieldoff(t, c)
                    off += o
                else:
                    t = t[2]
                    off += c * self.mod.layout(t)[0]
        return ('p', base[1], off)

    def bin(self, op, t, a, b):
        n = t[1] if t[0] == 'i' else 64
        if isinstance(a, int) and isinstance(b, int):
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                return TOP
            sa, sb = sgn(a, n), sgn(b, n)
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                 'shl': lambda: a << b if b < n else 0, 'lshr': lambda: a >> b if b < n else 0, 'ashr': lambda: sa >> min(b, n - 1),
                 'udiv': lambda: a // b, 'urem': lambda: a % b,
                 'sdiv': lambda: abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1), 'srem': lambda: abs(sa) % abs(sb) * (-1 if sa < 0 else 1)}[op]()
            return mask(r, n)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p' and op == 'sub' and a[1] == b[1]:
            return mask(a[2] - b[2], n)
        if op == 'and' and (a == 0 or b == 0):
            return 0
        if op == 'add' and isinstance(a, tuple) and a[0] == 'p' and isinstance(b, int):
            return ('p', a[1], a[2] + sgn(b, n))
        if op == 'and' and isinstance(a, tuple) and a[0] == 'p' and a[1] and a[1][0] == 'fn' and b == 1:
            return 0                # member function pointers: not virtual
        return TOP

    def icmp(self, c, t, a, b):
        if isinstance(a, int) and isinstance(b, int):
            n = t[1] if t[0] == 'i' else 64
            sa, sb = sgn(a, n), sgn(b, n)
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[c])
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                return self.icmp(c, ('i', 64), mask(a[2], 64), mask(b[2], 64)) if a[1] is not None or c in ('eq', 'ne') else TOP
            if c == 'eq':
                return 0
            if c == 'ne':
                return 1
        if isinstance(a, tuple) and a[0] == 'p' and a[1] is not None and b == 0 or isinstance(b, tuple) and b[0] == 'p' and b[1] is not None and a == 0:
            return {'eq': 0, 'ne': 1}.get(c, TOP)
        return TOP

    # ---------------- control
    def push(self, s, th, name, args, dst=None, to=None, unw=None):
        f = self.mod.func(name)
        if f is None:
            raise GiveUp('no function ' + name)
        if len(th.frames) > 60:
            raise GiveUp('recursion')
        fr = Frame.__new__(Frame)
        fr.fn, fr.lab, fr.prev, fr.pc, fr.dst, fr.to, fr.unw = f, f.entry, None, 0, dst, to, unw
        fr.blk = f.block(f.entry)
        fr.env = dict(zip(f.params, args))
        fr.allocs = ()
        th.frames.append(fr)

    def pop(self, s, th):
        f = th.frames.pop()
        for o in f.allocs:
            s.mem.pop(o, None)
        return f

    def goto(self, s, fr, lab):
        prev = fr.lab
        fr.lab, fr.prev, fr.pc = lab, prev, 0
        fr.blk = fr.fn.block(lab)
        new = {}
        pc = 0
        while pc < len(fr.blk) and fr.blk[pc][0] == 'phi':
            i = fr.blk[pc]
            new[i[1]] = self.opnd(s, fr, i[3][prev], i[2])
            pc += 1
        fr.env.update(new)
        fr.pc = pc

    def ret(self, s, th, v):
        """return v from the current instruction's call"""
        f = self.pop(s, th)
        if not th.frames:
            th.res = ('ret', v)
            th.at = ('done',)
            return
        c = th.frames[-1]
        if f.dst:
            c.env[f.dst] = v
        if f.to:
            self.goto(s, c, f.to)

    def done_call(self, s, th, i, v):
        """the external call i of the top frame returned v"""
        f = th.frames[-1]
        if i[1]:
            f.env[i[1]] = v
        if i[5]:
            self.goto(s, f, i[5])

    def throw(self, s, th, ty, unw=None):
        """propagate an exception of type ty from the top frame; unw: unwind label of the calling instruction"""
        while True:
            if unw:
                f = th.frames[-1]
                th.exc = ty
                self.goto(s, f, unw)
                return
            f = self.pop(s, th)
            if not th.frames:
                th.res = ('throw', ty)
                th.at = ('done',)
                return
            unw = f.unw

    def holds(self, s, tid):
        return any(w == tid for w in s.own.values())

    def run(self, s, tid):
        """advance thread tid to its next synchronisation point; -> list of states"""
        work, out = [s], []
        while work:
            st = work.pop()
            self.run1(st, tid, work)
            out.append(st)
            if len(out) + len(work) > 64:
                raise GiveUp('too many unknown branches')
        return out

    def fork(self, s, work):
        s2 = s.copy()
        work.append(s2)
        return s2

    def run1(self, s, tid, work):
        th = s.th[tid]
        th.at = None
        steps = 0
        while th.at is None:
            steps += 1
            if steps > self.max_steps:
                raise GiveUp('step limit')
            f = th.frames[-1]
            i = f.blk[f.pc]
            k = i[0]
            f.pc += 1
            if k == 'load':
                p = self.opnd(s, f, i[3], ('ptr',))
                if i[4] and self.yields(s, th, f, p):
                    continue
                if not i[4]:
                    self.access(s, tid, p, 'read', f, self.width(i[2]))
                f.env[i[1]] = self.load(s, p, i[2])
            elif k == 'store':
                p = self.opnd(s, f, i[3], ('ptr',))
                if i[4] and self.yields(s, th, f, p):
                    continue
                if not i[4]:
                    self.access(s, tid, p, 'write', f, self.width(i[1]))
                self.store(s, p, i[1], self.opnd(s, f, i[2], i[1]))
            elif k == 'gep':
                f.env[i[1]] = self.gep(s, i[2], [(tt, self.opnd(s, f, v, tt)) for tt, v in i[3]])
            elif k == 'bin':
                f.env[i[1]] = self.bin(i[2], i[3], self.opnd(s, f, i[4], i[3]), self.opnd(s, f, i[5], i[3]))
            elif k == 'icmp':
                f.env[i[1]] = self.icmp(i[2], i[3], self.opnd(s, f, i[4], i[3]), self.opnd(s, f, i[5], i[3]))
            elif k == 'cast':
                v = self.opnd(s, f, i[4], i[3])
                if isinstance(v, int) and i[5][0] == 'i':
                    if i[2] == 'sext':
                        v = sgn(v, i[3][1])
                    v = mask(v, i[5][1])
                f.env[i[1]] = v
            elif k == 'jmp':
                self.goto(s, f, i[1])
            elif k == 'br':
                c = self.opnd(s, f, i[1], ('i', 1))
                if not isinstance(c, int):
                    self.forks.add(f.fn.name)
                    s2 = self.fork(s, work)
                    f2 = s2.th[tid].frames[-1]
                    self.goto(s2, f2, i[3])
                    c = 1
                self.goto(s, f, i[2] if c else i[3])
            elif k == 'switch':
                v = self.opnd(s, f, i[2], i[1])
                if not isinstance(v, int):
                    raise GiveUp('switch on unknown')
                d = i[3]
                for kv, l in i[4]:
                    if mask(kv, i[1][1]) == v:
                        d = l
                self.goto(s, f, d)
            elif k == 'select':
                c = self.opnd(s, f, i[3], i[2])
                a, b = self.opnd(s, f, i[5], i[4]), self.opnd(s, f, i[6], i[4])
                f.env[i[1]] = (a if c else b) if isinstance(c, int) else (a if a == b else TOP)
            elif k == 'alloca':
                p = self.alloc(s, 's')
                f.allocs = f.allocs + (p[1],)
                f.env[i[1]] = p
            elif k == 'ret':
                self.ret(s, th, None if i[2] is None else self.opnd(s, f, i[2], i[1]))
            elif k == 'extract':
                v = self.opnd(s, f, i[3], i[2])
                for j in i[4]:
                    v = v[1 + j] if isinstance(v, tuple) and v[0] == 'agg' else TOP
                f.env[i[1]] = v
            elif k == 'insert':
                v = self.opnd(s, f, i[3], i[2])
                w = self.opnd(s, f, i[5], i[4])
                f.env[i[1]] = self.insert(v, i[2], w, i[6])
            elif k == 'freeze':
                f.env[i[1]] = self.opnd(s, f, i[3], i[2])
            elif k == 'landingpad':
                f.env[i[1]] = ('agg', ('exc', th.exc), self.select(s, i[2], th.exc))
            elif k == 'resume':
                self.throw(s, th, th.exc, None) if False else self.resume(s, th)
            elif k == 'rmw':
                p = self.opnd(s, f, i[4], ('ptr',))
                if self.yields(s, th, f, p):
                    continue
                old = self.load(s, p, i[3])
                v = self.opnd(s, f, i[5], i[3])
                new = {'add': lambda: self.bin('add', i[3], old, v), 'sub': lambda: self.bin('sub', i[3], old, v), 'xchg': lambda: v,
                       'or': lambda: self.bin('or', i[3], old, v), 'and': lambda: self.bin('and', i[3], old, v)}.get(i[2], lambda: TOP)()
                self.store(s, p, i[3], new)
                f.env[i[1]] = old
            elif k == 'cmpxchg':
                p = self.opnd(s, f, i[3], ('ptr',))
                if self.yields(s, th, f, p):
                    continue
                old = self.load(s, p, i[2])
                c = self.opnd(s, f, i[4], i[2])
                eq = self.icmp('eq', i[2], old, c)
                if not isinstance(eq, int):
                    raise GiveUp('cmpxchg on unknown')
                if eq:
                    self.store(s, p, i[2], self.opnd(s, f, i[5], i[2]))
                f.env[i[1]] = ('agg', old, eq)
            elif k == 'call':
                self.docall(s, tid, th, f, i)
            elif k == 'unreachable':
                th.at = ('done',)
                th.res = ('abort', None)
            elif k == 'fence':
                pass
            else:
                raise GiveUp('instruction %s' % (i[:2],))

    def resume(self, s, th):
        f = self.pop(s, th)
        if not th.frames:
            th.res = ('throw', th.exc)
            th.at = ('done',)
            return
        self.throw(s, th, th.exc, f.unw)

    def insert(self, v, t, w, idx):
        if not (isinstance(v, tuple) and v[0] == 'agg'):
            tt = self.mod.named(t) if t[0] == 'named' else t
            n = len(tt[1]) if tt[0] == 'str' else tt[1]
            v = ('agg',) + (TOP,) * n
        l = list(v)
        if len(idx) == 1:
            l[1 + idx[0]] = w
        else:
            raise GiveUp('nested insertvalue')
        return tuple(l)

    def select(self, s, clauses, ty):
        for kind, o in clauses:
            if kind == 'catch':
                if o[0] == 'zero':
                    return 1
                n = o[1][1:] if o[0] == 'v' else ''
                if n == ty or n == '_ZTISt9exception':
                    return self.tynum(n)
        return 0

    def tynum(self, n):
        return 100 + sum(ord(c) * (i + 1) for i, c in enumerate(n)) % 100000

    def width(self, t):
        return (t[1] + 7) // 8 if t[0] == 'i' else 8

    def yields(self, s, th, f, p):
        """an atomic access to shared memory is a scheduling point of its own"""
        if not self.split_atomics or not isinstance(p, tuple) or p[0] != 'p' or not p[1] or p[1][0] == 's':
            return False
        if th.note == 'atomic':
            th.note = None
            return False
        f.pc -= 1
        th.note = 'atomic'
        th.at = ('atomic',)
        return True

    def access(self, s, tid, p, what, f, n=1):
        if self.log is not None and isinstance(p, tuple) and p[0] == 'p' and p[1] and p[1][0] != 'fn':
            self.log.append((p[1], p[2], n, what == 'write', frozenset(k for k, w in s.own.items() if w == tid), f.fn.name, tid))

    # ---------------- calls
    def docall(self, s, tid, th, f, i):
        callee = i[3]
        args = i[4]
        name = None
        if callee[0] == 'v' and callee[1][0] == '@':
            name = callee[1]
        else:
            p = self.opnd(s, f, callee, ('ptr',))
            if isinstance(p, tuple) and p[0] == 'p' and p[1] and p[1][0] in ('fn', 'g'):
                name = p[1][1]
            else:
                raise GiveUp('indirect call through %s in %s' % (p, f.fn.name))
        a = lambda j: self.opnd(s, f, args[j][1], args[j][0])
        n = name[1:].strip('"')
        unw = i[6] if i[5] else None
        if n.startswith('llvm.'):
            v = None
            if n.startswith('llvm.eh.typeid.for'):
                o = args[0][1]
                v = self.tynum(o[1][1:]) if o[0] == 'v' else TOP
            elif n.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.copy(s, a(0), a(1), a(2))
            elif n.startswith('llvm.memset'):
                d, c, sz = a(0), a(1), a(2)
                if not isinstance(sz, int):
                    raise GiveUp('memset')
                m = s.mem.get(d[1])
                if m is None:
                    raise GiveUp('memset of unknown object')
                self.clear(m, d[2], sz)
                for j in range(sz):
                    m[d[2] + j] = (1, c)
            elif n.startswith('llvm.lifetime.end'):
                p = a(1)
                if isinstance(p, tuple) and p[0] == 'p' and p[1] in s.mem:
                    s.mem[p[1]] = {}
            elif n.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
                x, y = a(0), a(1)
                if isinstance(x, int) and isinstance(y, int):
                    w = i[2][1]
                    kx, ky = (x, y) if n[5] == 'u' else (sgn(x, w), sgn(y, w))
                    v = (x if kx >= ky else y) if n[6:9] == 'max' else (x if kx <= ky else y)
                else:
                    v = TOP
            elif n.startswith('llvm.expect') or n.startswith('llvm.ptrmask'):
                v = a(0)
            elif n.startswith('llvm.trap'):
                th.at, th.res = ('done',), ('abort', None)
                return
            elif i[2] != ('void',):
                v = TOP
            return self.done_call(s, th, i, v)
        r = self.model(s, tid, th, f, i, n, a, unw)
        if r == 'done':
            return
        if name in self.mod._defs:
            return self.push(s, th, name, [a(j) for j in range(len(args))], i[1], i[5], unw)
        raise GiveUp('external function ' + n)

    def model(self, s, tid, th, f, i, n, a, unw):
        D = self.done_call

        def fin(v=None):
            D(s, th, i, v)
            return 'done'
        if n in self.cbs:
            th.at = ('cb', n) + tuple(a(j) for j in range(len(i[4])))
            th.note = i
            return 'done'
        if n in ('st_await_zero', 'st_await_any'):
            th.at = ('await', n == 'st_await_any', a(0), a(1))
            th.note = i
            return 'done'
        if n == 'st_spawn':
            fn = a(0)
            if fn[1][0] not in ('fn', 'g'):
                raise GiveUp('spawn of unknown function')
            t = Th('worker%d' % sum(1 for x in s.th if x.name.startswith('worker')))
            s.th.append(t)
            self.push(s, t, fn[1][1], [a(1)])
            t.at = ('start',)
            return fin()
        if n == 'pthread_mutex_lock':
            p = a(0)
            th.at = ('lock', p)
            th.note = i
            return 'done'
        if n == 'pthread_mutex_trylock':
            p = a(0)
            if (p[1], p[2]) in s.own:
                return fin(16)
            s.own[(p[1], p[2])] = tid
            return fin(0)
        if n == 'pthread_mutex_unlock':
            p = a(0)
            if s.own.get((p[1], p[2])) != tid:
                raise Violation('%s unlocks a mutex it does not hold' % th.name)
            del s.own[(p[1], p[2])]
            if self.split:
                th.at = ('unlocked',)
                th.note = i
                return 'done'
            return fin(0)
        if n.startswith('_ZNSt18condition_variable4waitERSt11unique_lock'):
            mx = self.load(s, a(1), ('ptr',))
            own = self.load(s, ('p', a(1)[1], a(1)[2] + 8), ('i', 8))
            if own == 0 or s.own.get((mx[1], mx[2])) != tid:
                raise Violation('%s waits on a condition without holding the mutex' % th.name)
            del s.own[(mx[1], mx[2])]
            th.at = ('wait', a(0), mx, 0)
            th.note = i
            return 'done'
        if n in ('_ZNSt18condition_variable10notify_allEv', '_ZNSt18condition_variable10notify_oneEv'):
            cv = a(0)
            ws = [t for t in s.th if t.at and t.at[0] == 'wait' and t.at[1] == cv and not t.at[3]]
            if n.endswith('oneEv') and len(ws) > 1:
                th.at = ('notify1', cv)
                th.note = i
                return 'done'
            for t in ws:
                t.at = t.at[:3] + (1,)
            return fin()
        if n == '_ZNSt6thread4joinEv':
            th.at = ('join', self.load(s, a(0), ('i', 64)))
            th.note = (i, a(0))
            return 'done'
        if n == '_ZNSt6thread6detachEv':
            self.store(s, a(0), ('i', 64), 0)
            return fin()
        if n.startswith('_ZNSt6thread15_M_start_thread'):
            st = a(1)
            obj = self.load(s, st, ('ptr',))
            vt = self.load(s, obj, ('ptr',))
            run = self.load(s, ('p', vt[1], vt[2] + 16), ('ptr',))
            t = Th('worker%d' % sum(1 for x in s.th if x.name.startswith('worker')))
            s.th.append(t)
            self.push(s, t, run[1][1], [obj])
            t.at = ('start',)
            self.store(s, st, ('ptr',), ('p', None, 0))
            self.store(s, a(0), ('i', 64), len(s.th))
            th.at = ('spawned',)
            th.note = i
            return 'done'
        if n == '__cxa_allocate_exception':
            return fin(self.alloc(s, 'x'))
        if n in ('__cxa_throw',):
            ty = a(1)
            o = i[4][1][1]
            self.throw(s, th, o[1][1:] if o[0] == 'v' else '?', unw)
            return 'done'
        if n.startswith(('_ZSt17__throw', '_ZSt20__throw', '_ZSt19__throw', '_ZSt24__throw', '_ZSt25__throw', '_ZSt28__throw')):
            self.throw(s, th, '_ZTISt11logic_error', unw)
            return 'done'
        if n == '__cxa_rethrow':
            self.throw(s, th, th.exc, unw)
            return 'done'
        if n in ('__cxa_begin_catch',):
            x = self.alloc(s, 'x')
            s.mem[x[1]][0] = (8, ('p', ('fn', '#vt'), 0))
            return fin(x)
        if n == '#what':
            return fin(TOP)
        if n in ('__cxa_end_catch', '__cxa_free_exception'):
            return fin(None)
        if n in ('_Znwm', 'malloc', '_Znam'):
            return fin(self.alloc(s, 'h'))
        if n in ('_ZdlPv', '_ZdlPvm', 'free', '_ZdaPv', '_ZdaPvm'):
            p = a(0)
            if isinstance(p, tuple) and p[0] == 'p' and p[1] is not None and p[1][0] == 'h':
                s.mem.pop(p[1], None)
            return fin(None)
        if n in ('_ZSt9terminatev', 'abort', '__clang_call_terminate', 'exit', '__assert_fail'):
            th.at, th.res = ('done',), ('abort', n)
            return 'done'
        if n in ('strlen',):
            return fin(TOP)
        if ('@' + n) not in self.mod._defs:
            if n.startswith(('_ZNSt7__cxx1112basic_string', '_ZNSs', '_ZStpl', '_ZNSt13runtime_error', '_ZNSt11logic_error', '_ZNSt9exception', '_ZNKSt9exception',
                             '_ZNSt18condition_variable', '_ZNSt6thread6_State', 'pthread_', '_ZNSolsE', '_ZStls', '_ZNSo', '_ZNKSt7__cxx1112basic_string',
                             '_ZNSt7__cxx119to_string', '_ZSt', '_ZNSt12', '_ZNSt14', 'mem', 'str', '__errno', '_ZNKSt13runtime_error')):
                return fin(TOP if i[2] != ('void',) else None)
        elif n.startswith(('_ZNSt7__cxx1112basic_string', '_ZStplIc', '_ZNKSt7__cxx1112basic_string', '_ZNSt7__cxx119to_string', '_ZNSt8ios_base', '_ZNSo')):
            return fin(TOP if i[2] != ('void',) else None)
        return None

    # ---------------- scheduling: the moves of a state
    def moves(self, s):
        """[(tid, label, spurious)]"""
        out = []
        for tid, t in enumerate(s.th):
            if not t.at:
                continue
            k = t.at[0]
            if k == 'lock':
                p = t.at[1]
                if (p[1], p[2]) not in s.own:
                    out.append((tid, 'lock', False))
            elif k == 'wait':
                m = t.at[2]
                if (m[1], m[2]) not in s.own:
                    out.append((tid, 'wake', not t.at[3]))
            elif k in ('start', 'spawned', 'unlocked', 'atomic'):
                out.append((tid, k, False))
            elif k == 'await':
                vs = [self.load(s, p, ('i', 8)) for p in t.at[2:4]]
                if not all(isinstance(x, int) for x in vs):
                    raise GiveUp('unknown stage flag')
                if any(vs) == t.at[1]:
                    out.append((tid, 'await', False))
            elif k == 'join':
                w = t.at[1]
                if isinstance(w, int) and 0 < w <= len(s.th) and s.th[w - 1].at == ('done',):
                    out.append((tid, 'join', False))
            elif k == 'notify1':
                for q, x in enumerate(s.th):
                    if x.at and x.at[0] == 'wait' and x.at[1] == t.at[1] and not x.at[3]:
                        out.append((tid, ('notify', q), False))
            elif k == 'cb':
                out.append((tid, 'ret', False))
                if self.may_throw:
                    out.append((tid, 'throw', False))
        return out

    def apply(self, s, tid, label):
        """-> list of successor states"""
        s = s.copy()
        t = s.th[tid]
        k = t.at
        if label == 'lock':
            s.own[(k[1][1], k[1][2])] = tid
            t.at = None
            self.done_call(s, t, t.note, 0)
        elif label == 'await':
            t.at = None
            self.done_call(s, t, t.note, None)
        elif label == 'wake':
            s.own[(k[2][1], k[2][2])] = tid
            t.at = None
            self.done_call(s, t, t.note, None)
        elif label in ('start', 'atomic'):
            t.at = None
        elif label in ('spawned', 'unlocked'):
            t.at = None
            self.done_call(s, t, t.note, 0 if label == 'unlocked' else None)
        elif label == 'join':
            t.at = None
            i, p = t.note
            self.store(s, p, ('i', 64), 0)
            self.done_call(s, t, i, None)
        elif isinstance(label, tuple) and label[0] == 'notify':
            x = s.th[label[1]]
            x.at = x.at[:3] + (1,)
            t.at = None
            self.done_call(s, t, t.note, None)
        elif label == 'ret':
            t.at = None
            self.done_call(s, t, t.note, None)
        elif label == 'throw':
            t.at = None
            self.throw(s, t, '_ZTISt13runtime_error', t.note[6] if t.note[5] else None)
        return self.run(s, tid)
