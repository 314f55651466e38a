"""Dataflow over LLVM IR in the bit-provenance domain (sa/bits.py).

The witness translation units (witness/*.cpp) instantiate the repository's functions; clang lowers them to IR, which is
parsed here. Integer values are words of bits, pointers are (object, constant offset), memory maps
(object, byte) to 8 bits. Control flow is followed where the condition is decided by the domain and split otherwise."""
import os, re, subprocess
from . import bits as B
from .prog import REPO, VERIF, BUILD, CLANGXX, LLVM


class GiveUp(Exception):
    pass


class Fault(Exception):
    """a definite fault (out-of-bounds access, null dereference)"""


# ---------------------------------------------------------------- parsing
TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|("(?:[^"\\]|\\.)*")|([%@][\w.$-]+|[%@]"[^"]*")|(!\w*)|(#\d+)|(-?\d+\.\d+e[+-]\d+|0x[0-9A-FK-M]+|-?\d+)|([\w.]+)|(\.\.\.|<\{|\}>|[\[\]{}()<>,=*:|]))''')


def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '':
                break
            raise GiveUp('token: ' + s[i:i+40])
        out.append(m.group(m.lastindex))
        i = m.end()
    return out


class P:
    def __init__(self, t, mod):
        self.t, self.i, self.mod = t, 0, mod

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else None

    def get(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def ty(self):
        x = self.get()
        if x[0] == 'i' and x[1:].isdigit():
            r = ('i', int(x[1:]))
        elif x in ('ptr', 'void', 'label', 'metadata', 'float', 'double', 'half', 'x86_fp80', 'opaque', 'token'):
            r = (x,)
        elif x == '[':
            n = int(self.get())
            self.get()
            e = self.ty()
            self.get()
            r = ('arr', n, e)
        elif x == '<' or x == '<{':
            if x == '<{' or self.peek() == '{':
                if x == '<':
                    self.get()
                r = ('str', tuple(self.tys('}', '}>')), True)
                if x == '<':
                    self.eat('>')
            else:
                n = int(self.get())
                self.get()
                e = self.ty()
                self.get()
                r = ('vec', n, e)
        elif x == '{':
            r = ('str', tuple(self.tys('}')), False)
        elif x[0] == '%':
            r = ('named', x)
        else:
            raise GiveUp('type ' + x)
        while self.peek() == '*':
            self.get()
            r = ('ptr',)
        return r

    def tys(self, *ends):
        out = []
        while self.peek() not in ends:
            out.append(self.ty())
            self.eat(',')
        self.get()
        return out


ATTR = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'zeroext', 'signext', 'noalias', 'returned', 'inreg',
        'immarg', 'nest', 'swiftself', 'writable', 'dead_on_unwind', 'nofree', 'noreturn'}
ATTRP = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'memory', 'initializes', 'captures', 'elementtype'}


class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.gobj = {}, {}, {}, {}
        self.text = text
        self._defs = {}
        self._lay = {}
        cur = None
        for line in text.split('\n'):
            if cur is not None:
                if line == '}':
                    self._defs[cur[0]] = cur
                    cur = None
                else:
                    cur[2].append(line)
                continue
            if line.startswith('define'):
                m = re.search(r'(@[\w.$-]+|@"[^"]*")\s*\(', line)
                cur = (m.group(1), line, [])
            elif line.startswith('%') and ' = type ' in line:
                n, t = line.split(' = type ', 1)
                self.types[n] = t
            elif line.startswith('@') and ' = ' in line:
                n, d = line.split(' = ', 1)
                self.globals[n] = d

    def layout(self, t):
        """-> (size, align)"""
        r = self._lay.get(t)
        if r is None:
            r = self._lay[t] = self._layout(t)
        return r

    def _layout(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return (a if n <= 8 else (n + 15) // 16 * 16, min(a, 16))
        if k in ('ptr', 'double'):
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'x86_fp80':
            return (16, 16)
        if k == 'arr':
            s, a = self.layout(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.layout(t[2])
            return (s * t[1], s * t[1])
        if k == 'named':
            return self.layout(self.named(t))
        if k == 'str':
            o, al = 0, 1
            for e in t[1]:
                s, a = self.layout(e)
                if t[2]:
                    a = 1
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            return ((o + al - 1) // al * al, al)
        raise GiveUp('layout %s' % (t,))

    def named(self, t):
        v = self.types.get(t[1])
        if v is None:
            raise GiveUp('type ' + t[1])
        if isinstance(v, str):
            v = self.types[t[1]] = P(toks(v), self).ty()
        return v

    def fieldoff(self, t, i):
        if t[0] == 'named':
            t = self.named(t)
        o = 0
        for j, e in enumerate(t[1]):
            s, a = self.layout(e)
            if t[2]:
                a = 1
            o = (o + a - 1) // a * a
            if j == i:
                return o, e
            o += s

    def func(self, name):
        f = self.funcs.get(name)
        if f is None and name in self._defs:
            f = self.funcs[name] = Func(self, *self._defs[name])
        return f


class Func:
    def __init__(self, mod, name, head, body):
        self.name = name
        self.mod = mod
        i = head.index(name) + len(name)
        p = P(toks(head[i:head.rindex('{')].replace('#', ' #') if '{' in head else head[i:]), mod)
        p.get()
        self.params = []
        while not p.eat(')'):
            if p.eat('...'):
                continue
            p.ty()
            skip_attrs(p)
            self.params.append(p.get())
            p.eat(',')
        self.blocks = {}
        self.raw = {}
        lab = None
        first = None
        cur = []
        lines = []
        # join multi-line instructions (switch, invoke, landingpad)
        for l in body:
            if re.match(r'^\s{4,}(i\d+ |cleanup|catch|filter|to label)', l) or l.strip() == ']':
                lines[-1] += ' ' + l.strip()
            else:
                lines.append(l)
        for l in lines:
            l = l.split(' ; ')[0] if not 'c"' in l else l
            s = l.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^([\w.$-]+|"[^"]*"):', l)
            if m:
                lab = '%' + m.group(1)
                cur = []
                self.raw[lab] = cur
                if first is None:
                    first = lab
                continue
            if lab is None:
                lab = first = '%' + str(len(self.params))      # implicit entry label
                self.raw[lab] = cur
            cur.append(s)
        self.entry = first

    def block(self, lab):
        b = self.blocks.get(lab)
        if b is None:
            b = self.blocks[lab] = [parse_inst(self.mod, s) for s in self.raw[lab]]
        return b


def skip_attrs(p):
    while True:
        x = p.peek()
        if x in ATTR:
            p.get()
        elif x in ATTRP:
            p.get()
            if p.peek() == '(':
                d = 0
                while True:
                    y = p.get()
                    d += y == '('
                    d -= y == ')'
                    if d == 0:
                        break
            else:
                p.get()
        elif x and (x[0] == '#' or x[0] == '"'):
            p.get()
        else:
            return


FLAGS = {'atomic', 'volatile', 'nuw', 'nsw', 'exact', 'inbounds', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'disjoint', 'nneg', 'volatile', 'tail', 'musttail', 'notail',
         'nuw', 'samesign'}
CCS = {'fastcc', 'ccc', 'coldcc'}


def operand(p, t):
    x = p.peek()
    if x in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'add', 'sub', 'trunc', 'zext'):
        op = p.get()
        while p.peek() in FLAGS:
            p.get()
        p.get()
        if op == 'getelementptr':
            et = p.ty()
            args = []
            while p.eat(','):
                p.eat('inrange')
                tt = p.ty()
                args.append((tt, operand(p, tt)))
            p.get()
            return ('cgep', et, args)
        tt = p.ty()
        v = operand(p, tt)
        if op in ('add', 'sub'):
            p.get()
            t2 = p.ty()
            w = operand(p, t2)
            p.get()
            return ('cbin', op, tt, v, w)
        p.get()
        d = p.ty()
        p.get()
        return ('ccast', op, tt, v, d)
    if x in ('{', '[', '<', '<{'):
        p.get()
        if x == '<' and p.peek() == '{':
            p.get()
        out = []
        while p.peek() not in ('}', ']', '>', '}>'):
            tt = p.ty()
            out.append((tt, operand(p, tt)))
            p.eat(',')
        y = p.get()
        if x == '<' and y == '}':
            p.eat('>')
        return ('agg', out)
    x = p.get()
    if x[0] in '%@':
        return ('v', x)
    if x == 'true':
        return ('n', 1)
    if x == 'false':
        return ('n', 0)
    if x in ('null', 'zeroinitializer', 'none'):
        return ('zero',)
    if x in ('undef', 'poison'):
        return ('undef',)
    if x[:2] == 'c"':
        return ('cstr', x[2:-1])
    if x == 'splat':
        p.get()
        tt = p.ty()
        v = operand(p, tt)
        p.get()
        return ('splat', v)
    if x == 'blockaddress':
        raise GiveUp('blockaddress')
    if re.match(r'-?\d+$', x):
        return ('n', int(x))
    return ('fp', x)


def parse_inst(mod, s):
    try:
        return _parse_inst(mod, s)
    except (GiveUp, IndexError, ValueError, TypeError, KeyError) as e:
        return ('bad', s + ' : ' + str(e))


def _parse_inst(mod, s):
    p = P(toks(s), mod)
    dst = None
    if p.t[0][0] == '%' and p.t[1] == '=':
        dst = p.get()
        p.get()
    op = p.get()
    while op in FLAGS or op in CCS:
        op = p.get()

    def flags():
        while p.peek() in FLAGS or p.peek() in CCS:
            p.get()
    if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
        flags()
        t = p.ty()
        a = operand(p, t)
        p.get()
        return ('bin', dst, op, t, a, operand(p, t))
    if op == 'icmp':
        flags()
        c = p.get()
        t = p.ty()
        a = operand(p, t)
        p.get()
        return ('icmp', dst, c, t, a, operand(p, t))
    if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
        flags()
        t = p.ty()
        a = operand(p, t)
        p.get()
        return ('cast', dst, op, t, a, p.ty())
    if op == 'load':
        at = 'atomic' in (p.peek(), p.peek(1))
        flags()
        t = p.ty()
        p.get()
        p.ty()
        return ('load', dst, t, operand(p, ('ptr',)), at)
    if op == 'store':
        at = 'atomic' in (p.peek(), p.peek(1))
        flags()
        t = p.ty()
        v = operand(p, t)
        p.get()
        p.ty()
        return ('store', t, v, operand(p, ('ptr',)), at)
    if op == 'getelementptr':
        flags()
        et = p.ty()
        args = []
        while p.eat(','):
            if p.peek() and p.peek()[0] == '!':
                break
            tt = p.ty()
            args.append((tt, operand(p, tt)))
        return ('gep', dst, et, args)
    if op == 'alloca':
        t = p.ty()
        n = ('n', 1)
        if p.eat(',') and p.peek() != 'align':
            tt = p.ty()
            n = operand(p, tt)
        return ('alloca', dst, t, n)
    if op == 'br':
        if p.eat('label'):
            return ('jmp', p.get())
        t = p.ty()
        c = operand(p, t)
        p.get()
        p.get()
        a = p.get()
        p.get()
        p.get()
        return ('br', c, a, p.get())
    if op == 'switch':
        t = p.ty()
        v = operand(p, t)
        p.get()
        p.get()
        d = p.get()
        p.get()
        cases = []
        while not p.eat(']'):
            p.ty()
            k = operand(p, t)
            p.get()
            p.get()
            cases.append((k[1], p.get()))
        return ('switch', t, v, d, cases)
    if op == 'phi':
        flags()
        t = p.ty()
        inc = {}
        while p.eat('['):
            v = operand(p, t)
            p.get()
            inc[p.get()] = v
            p.get()
            p.eat(',')
        return ('phi', dst, t, inc)
    if op == 'select':
        flags()
        ct = p.ty()
        c = operand(p, ct)
        p.get()
        t = p.ty()
        a = operand(p, t)
        p.get()
        p.ty()
        return ('select', dst, ct, c, t, a, operand(p, t))
    if op == 'ret':
        t = p.ty()
        return ('ret', t, None if t == ('void',) else operand(p, t))
    if op in ('call', 'invoke'):
        while True:
            flags()
            i = p.i
            skip_attrs(p)
            if p.i == i:
                break
        rt = p.ty()
        if p.peek() == '(':            # variadic prototype
            d = 0
            while True:
                y = p.get()
                d += y == '('
                d -= y == ')'
                if d == 0:
                    break
        if p.peek() == 'asm':
            return ('asm', dst, rt, s)
        callee = operand(p, ('ptr',))
        p.get()
        args = []
        while not p.eat(')'):
            t = p.ty()
            skip_attrs(p)
            if t[0] == 'metadata':
                while p.peek() not in (',', ')'):
                    p.get()
                args.append((t, None))
            else:
                args.append((t, operand(p, t)))
            p.eat(',')
        to = None
        if op == 'invoke':
            while p.get() != 'to':
                pass
            p.get()
            to = p.get()
            p.get()
            p.get()
            return ('call', dst, rt, callee, args, to, p.get())
        return ('call', dst, rt, callee, args, to)
    if op == 'extractvalue':
        t = p.ty()
        v = operand(p, t)
        idx = []
        while p.eat(','):
            idx.append(int(p.get()))
        return ('extract', dst, t, v, idx)
    if op == 'insertvalue':
        t = p.ty()
        v = operand(p, t)
        p.get()
        t2 = p.ty()
        w = operand(p, t2)
        idx = []
        while p.eat(','):
            idx.append(int(p.get()))
        return ('insert', dst, t, v, t2, w, idx)
    if op == 'extractelement':
        t = p.ty()
        v = operand(p, t)
        p.get()
        t2 = p.ty()
        return ('extractel', dst, t, v, t2, operand(p, t2))
    if op == 'insertelement':
        t = p.ty()
        v = operand(p, t)
        p.get()
        t2 = p.ty()
        w = operand(p, t2)
        p.get()
        t3 = p.ty()
        return ('insertel', dst, t, v, t2, w, t3, operand(p, t3))
    if op == 'freeze':
        t = p.ty()
        return ('freeze', dst, t, operand(p, t))
    if op == 'landingpad':
        p.ty()
        cl = []
        while p.peek() in ('cleanup', 'catch', 'filter'):
            k = p.get()
            if k == 'cleanup':
                cl.append((k, None))
            else:
                t = p.ty()
                cl.append((k, operand(p, t)))
        return ('landingpad', dst, cl)
    if op == 'resume':
        t = p.ty()
        return ('resume', t, operand(p, t))
    if op == 'atomicrmw':
        flags()
        p.eat('volatile')
        o = p.get()
        p.ty()
        a = operand(p, ('ptr',))
        p.get()
        t = p.ty()
        return ('rmw', dst, o, t, a, operand(p, t))
    if op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'):
            p.get()
        p.ty()
        a = operand(p, ('ptr',))
        p.get()
        t = p.ty()
        c = operand(p, t)
        p.get()
        p.ty()
        return ('cmpxchg', dst, t, a, c, operand(p, t))
    if op in ('unreachable', 'fence'):
        return (op,)
    raise GiveUp('instruction ' + op)


# ---------------------------------------------------------------- values
# integer: tuple of bits; pointer: ('p', obj, off) with obj None for null; aggregate: ['agg', v...]; undef: UNDEF
class _U:
    def __repr__(self):
        return 'undef'


UNDEF = _U()
_undef_n = [0]


class State:
    __slots__ = ('mem', 'size', 'assume', 'log', 'own')

    def __init__(self):
        self.mem = {}          # obj -> {offset: 8-bit tuple | ('P', ptr, i)}
        self.size = {}         # obj -> size or None
        self.assume = {}       # bit -> 0/1
        self.log = []
        self.own = set()

    def fork(self):
        s = State()
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.size = dict(self.size)
        s.assume = dict(self.assume)
        s.log = list(self.log)
        return s


class Frame:
    __slots__ = ('fn', 'env', 'lab', 'prev', 'pc', 'ret')


class Interp:
    def __init__(self, mod, models=None, max_steps=400000, max_paths=64):
        self.mod = mod
        self.models = models or {}
        self.nobj = 0
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.steps = 0

    # ---- memory
    def alloc(self, st, size, name='obj', init=None):
        self.nobj += 1
        o = (name, self.nobj)
        st.mem[o] = {}
        st.size[o] = size
        if init is not None:
            for i, b in enumerate(init):
                st.mem[o][i] = b
        return ('p', o, 0)

    def gptr(self, st, name):
        o = ('g', name)
        if o not in st.mem:
            d = self.mod.globals.get(name)
            if d is None:
                return ('p', ('fn', name), 0)
            st.mem[o] = {}
            try:
                m = re.match(r'^(.*?\b)(global|constant)\s+(.*)$', d)
                if m:
                    p = P(toks(m.group(3)), self.mod)
                    t = p.ty()
                    st.size[o] = self.mod.layout(t)[0]
                    if 'external' not in m.group(1):
                        self.storev(st, ('p', o, 0), t, self.cval(st, operand(p, t), t))
                else:
                    st.size[o] = None
            except (GiveUp, IndexError, ValueError, TypeError):
                st.size[o] = None
        return ('p', o, 0)

    def check(self, st, ptr, n, what):
        if ptr is UNDEF or not isinstance(ptr, tuple) or ptr[0] != 'p':
            raise GiveUp('%s through an unknown pointer' % what)
        if ptr[1] is None:
            raise Fault('%s through a null pointer' % what)
        if not isinstance(ptr[2], int):
            raise GiveUp('%s at an unknown offset' % what)
        if ptr[1] not in st.mem:
            raise GiveUp('%s in unknown object %s' % (what, ptr[1]))
        sz = st.size.get(ptr[1])
        if sz is not None and (ptr[2] < 0 or ptr[2] + n > sz):
            raise Fault('%s of %d bytes at offset %d of a %d byte object (%s)' % (what, n, ptr[2], sz, ptr[1][0]))

    def loadb(self, st, ptr, n):
        self.check(st, ptr, n, 'read')
        m = st.mem[ptr[1]]
        out = []
        for i in range(n):
            b = m.get(ptr[2] + i)
            if b is None:
                # never written: a fresh unknown byte, remembered
                _undef_n[0] += 1
                b = m[ptr[2] + i] = B.inp('uninit:%s:%d#%d' % (ptr[1][0], ptr[2] + i, _undef_n[0]), 8)
            out.append(b)
        return out

    def storeb(self, st, ptr, bs):
        self.check(st, ptr, len(bs), 'write')
        m = st.mem[ptr[1]]
        for i, b in enumerate(bs):
            m[ptr[2] + i] = b

    def loadv(self, st, ptr, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            bs = self.loadb(st, ptr, n)
            if any(b and b[0] == 'P' for b in bs):
                if t[1] == 64 and all(b[0] == 'P' and b[2] == i and b[1] == bs[0][1] for i, b in enumerate(bs)):
                    return bs[0][1]
                raise GiveUp('partial pointer load')
            w = ()
            for b in bs:
                w += b
            return w[:t[1]]
        if k == 'ptr':
            bs = self.loadb(st, ptr, 8)
            if bs[0][0] == 'P' and all(b[0] == 'P' and b[2] == i for i, b in enumerate(bs)):
                return bs[0][1]
            w = ()
            for b in bs:
                if b[0] == 'P':
                    raise GiveUp('mixed pointer load')
                w += b
            if B.cval(w) == 0:
                return ('p', None, 0)
            return ('p', ('unk', w), 0)
        if k in ('arr', 'vec'):
            s = self.mod.layout(t[2])[0]
            return ['agg'] + [self.loadv(st, ('p', ptr[1], ptr[2] + i * s), t[2]) for i in range(t[1])]
        if k == 'named':
            t = self.mod.named(t)
        if t[0] == 'str':
            out = ['agg']
            for i, e in enumerate(t[1]):
                out.append(self.loadv(st, ('p', ptr[1], ptr[2] + self.mod.fieldoff(t, i)[0]), e))
            return out
        if k in ('double', 'float'):
            bs = self.loadb(st, ptr, 8 if k == 'double' else 4)
            return ['fpb', bs]
        raise GiveUp('load of %s' % (t,))

    def tobytes(self, st, t, v):
        if v is UNDEF:
            n = self.mod.layout(t)[0]
            _undef_n[0] += 1
            w = B.inp('undef#%d' % _undef_n[0], n * 8)
            return [w[i*8:i*8+8] for i in range(n)]
        if isinstance(v, tuple) and v and v[0] == 'p':
            return [('P', v, i) for i in range(8)] if v[1] is not None else [(0,)*8]*8
        if isinstance(v, list) and v[0] == 'fpb':
            return v[1]
        if isinstance(v, tuple):
            n = (len(v) + 7) // 8
            w = B.zext(v, n * 8)
            return [w[i*8:i*8+8] for i in range(n)]
        return None

    def storev(self, st, ptr, t, v):
        if t[0] == 'named':
            t = self.mod.named(t)
        if isinstance(v, list) and v[0] == 'agg':
            if t[0] in ('arr', 'vec'):
                s = self.mod.layout(t[2])[0]
                for i, x in enumerate(v[1:]):
                    self.storev(st, ('p', ptr[1], ptr[2] + i * s), t[2], x)
            else:
                for i, x in enumerate(v[1:]):
                    o, e = self.mod.fieldoff(t, i)
                    self.storev(st, ('p', ptr[1], ptr[2] + o), e, x)
            return
        if isinstance(v, list) and v[0] == 'fp':
            raise GiveUp('floating point')
        bs = self.tobytes(st, t, v)
        if bs is None:
            raise GiveUp('store of %r' % (v,))
        self.storeb(st, ptr, bs)

    # ---- operands
    def zero(self, t):
        if t[0] == 'named':
            t = self.mod.named(t)
        if t[0] == 'i':
            return (0,) * t[1]
        if t[0] == 'ptr':
            return ('p', None, 0)
        if t[0] in ('arr', 'vec'):
            return ['agg'] + [self.zero(t[2])] * t[1]
        if t[0] == 'str':
            return ['agg'] + [self.zero(e) for e in t[1]]
        if t[0] in ('double', 'float'):
            return ['fpb', [(0,)*8] * (8 if t[0] == 'double' else 4)]
        raise GiveUp('zero %s' % (t,))

    def cval(self, st, o, t):
        k = o[0]
        if k == 'n':
            return B.const(o[1], t[1])
        if k == 'v':
            return self.gptr(st, o[1])
        if k == 'zero':
            return self.zero(t)
        if k == 'undef':
            return UNDEF
        if k == 'agg':
            return ['agg'] + [self.cval(st, v, tt) for tt, v in o[1]]
        if k == 'splat':
            return ['agg'] + [self.cval(st, o[1], t[2])] * t[1]
        if k == 'cstr':
            s = o[1]
            out = []
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\':
                        out.append(92)
                        i += 2
                    else:
                        out.append(int(s[i+1:i+3], 16))
                        i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return ['agg'] + [B.const(x, 8) for x in out]
        if k == 'cgep':
            return self.gep(o[1], [(tt, self.cval(st, v, tt)) for tt, v in o[2]])
        if k == 'fp':
            import struct
            if o[1][:2] == '0x' and o[1][2] not in 'KLM':
                raw = int(o[1], 16)
            else:
                try:
                    raw = struct.unpack('<Q', struct.pack('<d', float(o[1])))[0]
                except ValueError:
                    return ['fp', o[1]]
            if t[0] == 'float':
                raw = struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', raw))[0]))[0]
                return ['fpb', [B.const(raw >> (8*i), 8) for i in range(4)]]
            return ['fpb', [B.const((raw >> (8*i)) & 255, 8) for i in range(8)]]
        if k == 'ccast':
            v = self.cval(st, o[3], o[2])
            return v
        raise GiveUp('constant %s' % (o,))

    def opnd(self, st, env, o, t):
        if o[0] == 'v':
            if o[1][0] == '%':
                return env[o[1]]
            return self.gptr(st, o[1])
        if o[0] == 'n':
            return B.const(o[1], t[1])
        return self.cval(st, o, t)

    def gep(self, et, args):
        base = args[0][1]
        if base is UNDEF or not (isinstance(base, tuple) and base and base[0] == 'p'):
            raise GiveUp('address of unknown')
        off = base[2]
        t = et
        for n, (tt, v) in enumerate(args[1:]):
            if v is UNDEF:
                raise GiveUp('undef index')
            c = B.cval(v)
            if n == 0:
                sc = self.mod.layout(t)[0]
            else:
                if t[0] == 'named':
                    t = self.mod.named(t)
                if t[0] == 'str':
                    o, t = self.mod.fieldoff(t, c)
                    off = off + o if isinstance(off, int) else (off[0], off[1], off[2] + o)
                    continue
                t = t[2]
                sc = self.mod.layout(t)[0]
            if c is None:
                return ('p', base[1], ('sym', off, v, sc)) if base[1] is not None else base
            if c >> (len(v) - 1):
                c -= 1 << len(v)
            if isinstance(off, int):
                off += c * sc
            elif c * sc:
                return ('p', base[1], ('sym', off, B.const(c, 64), sc))
        return ('p', base[1], off)

    def fix(self, st, v):
        """a value whose bits are not decided, made of words"""
        if v is UNDEF:
            raise GiveUp('use of an undefined value')
        return v

    def icmp(self, st, c, t, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        pa = isinstance(a, tuple) and a and a[0] == 'p'
        pb = isinstance(b, tuple) and b and b[0] == 'p'
        if pa or pb:
            if pa and pb:
                if a == b:
                    r = {'eq': 1, 'ne': 0, 'ule': 1, 'uge': 1, 'ult': 0, 'ugt': 0, 'sge': 1, 'sle': 1}.get(c)
                    return (r,)
                if a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
                    x, y = a[2], b[2]
                    return (int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y}[c]),)
                if c in ('eq', 'ne') and a[1] != b[1]:
                    if (a[1] and a[1][0] == 'unk') or (b[1] and b[1][0] == 'unk'):
                        raise GiveUp('comparison of unknown pointers')
                    return (int(c == 'ne'),)
            raise GiveUp('pointer comparison')
        if isinstance(a, list):
            return ['agg'] + [self.icmp(st, c, t[2], x, y) for x, y in zip(a[1:], b[1:])]
        if c == 'eq':
            r = B.cmp_eq(a, b)
        elif c == 'ne':
            r = B.bnot(B.cmp_eq(a, b))
        elif c == 'ult':
            r = B.cmp_ult(a, b)
        elif c == 'ule':
            r = B.cmp_ult(a, b, True)
        elif c == 'ugt':
            r = B.cmp_ult(b, a)
        elif c == 'uge':
            r = B.cmp_ult(b, a, True)
        elif c == 'slt':
            r = B.cmp_slt(a, b)
        elif c == 'sle':
            r = B.cmp_slt(a, b, True)
        elif c == 'sgt':
            r = B.cmp_slt(b, a)
        else:
            r = B.cmp_slt(b, a, True)
        return (r,)

    def binop(self, op, t, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, list):
            return ['agg'] + [self.binop(op, t[2], x, y) for x, y in zip(a[1:], b[1:])]
        pa = a and a[0] == 'p'
        pb = b and b[0] == 'p'
        if pa or pb:
            if op == 'sub' and pa and pb and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
                return B.const(a[2] - b[2], 64)
            if op in ('add', 'sub') and pa and not pb and B.cval(b) is not None and isinstance(a[2], int):
                c = B.cval(b)
                if c >> 63:
                    c -= 1 << 64
                return ('p', a[1], a[2] + (c if op == 'add' else -c))
            raise GiveUp('pointer arithmetic')
        if op == 'and':
            return tuple(B.band(x, y) for x, y in zip(a, b))
        if op == 'or':
            return tuple(B.bor(x, y) for x, y in zip(a, b))
        if op == 'xor':
            return tuple(B.bxor(x, y) for x, y in zip(a, b))
        if op == 'add':
            return B.add(a, b)
        if op == 'sub':
            return B.sub(a, b)
        if op == 'mul':
            return B.mul(a, b)
        if op in ('shl', 'lshr', 'ashr'):
            k = B.cval(b)
            if k is None:
                if op == 'shl' and B.cval(a) == 1:
                    pass
                if op == 'ashr' and a[-1] != 0:
                    raise GiveUp('ashr by a variable')
                return B.wop('shl' if op == 'shl' else 'lshr', (B.trim(a), B.trim(b)), len(a))
            if k >= len(a):
                return UNDEF           # poison: harmless unless it is used
            return B.shl(a, k) if op == 'shl' else B.lshr(a, k) if op == 'lshr' else B.ashr(a, k)
        if op == 'udiv':
            return B.udiv(a, b)
        if op == 'urem':
            return B.udiv(a, b, True)
        if op in ('sdiv', 'srem') and a[-1] == 0 and b[-1] == 0:
            return B.udiv(a, b, op == 'srem')
        ca, cb = B.cval(a), B.cval(b)
        if ca is not None and cb:
            n = len(a)
            sa = ca - (1 << n) if ca >> (n-1) else ca
            sb = cb - (1 << n) if cb >> (n-1) else cb
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            return B.const(q if op == 'sdiv' else sa - q * sb, n)
        raise GiveUp(op)

    def decide(self, st, bit):
        if bit <= 1:
            return bit
        v = st.assume.get(bit)
        if v is None:
            w = st.assume.get(B.bnot(bit))
            if w is not None:
                v = 1 - w
        return v

    # ---- execution: returns list of (state, kind, value), kind in ret/throw/abort
    def call(self, st, name, args, depth=0):
        f = self.mod.func(name)
        if f is None:
            raise GiveUp('no function ' + name)
        if depth > 60:
            raise GiveUp('recursion')
        env = dict(zip(f.params, args))
        work = [(st, env, f.entry, None, 0)]
        done = []
        while work:
            st, env, lab, prev, pc = work.pop()
            if len(work) + len(done) > self.max_paths:
                raise GiveUp('too many paths in ' + name)
            try:
                r = self.run_path(f, st, env, lab, prev, pc, work, depth)
            except Fault as e:
                # definite only if the path to it is feasible
                if B.sat(st.assume):
                    raise
                r = (st, 'giveup', str(e))
            except GiveUp as e:
                if not st.assume or self.steps > self.max_steps:
                    raise
                r = (st, 'giveup', str(e))
            if r is not None:
                done.append(r)
        return done

    def run_path(self, f, st, env, lab, prev, pc, work, depth):
        blk = f.block(lab)
        while True:
            if pc == 0:
                # phis are evaluated together
                new = {}
                while pc < len(blk) and blk[pc][0] == 'phi':
                    i = blk[pc]
                    new[i[1]] = self.opnd(st, env, i[3][prev], i[2])
                    pc += 1
                env.update(new)
            if pc >= len(blk):
                raise GiveUp('fell off block')
            i = blk[pc]
            pc += 1
            self.steps += 1
            if self.steps > self.max_steps:
                raise GiveUp('step limit')
            k = i[0]
            if k == 'bin':
                t = i[3]
                env[i[1]] = self.binop(i[2], t, self.opnd(st, env, i[4], t), self.opnd(st, env, i[5], t))
            elif k == 'load':
                env[i[1]] = self.loadv(st, self.opnd(st, env, i[3], ('ptr',)), i[2])
            elif k == 'store':
                self.storev(st, self.opnd(st, env, i[3], ('ptr',)), i[1], self.opnd(st, env, i[2], i[1]))
            elif k == 'gep':
                env[i[1]] = self.gep(i[2], [(tt, self.opnd(st, env, v, tt)) for tt, v in i[3]])
            elif k == 'cast':
                env[i[1]] = self.cast(i[2], i[3], self.opnd(st, env, i[4], i[3]), i[5])
            elif k == 'icmp':
                env[i[1]] = self.icmp(st, i[2], i[3], self.opnd(st, env, i[4], i[3]), self.opnd(st, env, i[5], i[3]))
            elif k == 'jmp':
                prev, lab, pc = lab, i[1], 0
                blk = f.block(lab)
            elif k == 'br':
                c = self.opnd(st, env, i[1], ('i', 1))
                if c is UNDEF:
                    raise GiveUp('branch on undefined value in ' + f.name)
                d = self.decide(st, c[0])
                if d is None:
                    s2 = st.fork()
                    s2.assume[c[0]] = 0
                    work.append((s2, dict(env), i[3], lab, 0))
                    st.assume[c[0]] = 1
                    d = 1
                prev, lab, pc = lab, i[2] if d else i[3], 0
                blk = f.block(lab)
            elif k == 'switch':
                v = self.opnd(st, env, i[2], i[1])
                if v is UNDEF:
                    raise GiveUp('switch on undefined')
                c = B.cval(v)
                if c is None:
                    dst = None
                    for kv, l in i[4]:
                        e = B.cmp_eq(v, B.const(kv, len(v)))
                        d = self.decide(st, e)
                        if d == 0:
                            continue
                        if d is None:
                            s2 = st.fork()
                            s2.assume[e] = 1
                            work.append((s2, dict(env), l, lab, 0))
                            st.assume[e] = 0
                            continue
                        dst = l
                        break
                    dst = dst or i[3]
                else:
                    dst = i[3]
                    for kv, l in i[4]:
                        if kv & ((1 << len(v)) - 1) == c:
                            dst = l
                prev, lab, pc = lab, dst, 0
                blk = f.block(lab)
            elif k == 'select':
                c = self.opnd(st, env, i[3], i[2])
                a = self.opnd(st, env, i[5], i[4])
                b = self.opnd(st, env, i[6], i[4])
                if c is UNDEF:
                    env[i[1]] = UNDEF
                    continue
                if isinstance(c, list):
                    raise GiveUp('select')
                d = self.decide(st, c[0])
                if d is not None:
                    env[i[1]] = a if d else b
                elif a is UNDEF or b is UNDEF:
                    env[i[1]] = UNDEF
                elif isinstance(a, list) or a[0] == 'p' or b[0] == 'p':
                    s2 = st.fork()
                    s2.assume[c[0]] = 0
                    e2 = dict(env)
                    e2[i[1]] = b
                    work.append((s2, e2, lab, prev, pc))
                    st.assume[c[0]] = 1
                    env[i[1]] = a
                else:
                    env[i[1]] = tuple(B.bmux(c[0], x, y) for x, y in zip(a, b))
            elif k == 'alloca':
                n = B.cval(self.opnd(st, env, i[3], ('i', 64))) if i[3] != ('n', 1) else 1
                env[i[1]] = self.alloc(st, self.mod.layout(i[2])[0] * n, 'stack')
            elif k == 'ret':
                return (st, 'ret', None if i[2] is None else self.opnd(st, env, i[2], i[1]))
            elif k == 'call':
                rs = self.docall(st, env, i, depth, f)
                if rs is None:
                    continue
                cont = []
                for s2, kind, v in rs:
                    if kind != 'ret':
                        cont.append((s2, kind, v))
                    else:
                        cont.append((s2, None, v))
                # the first normal continuation goes on here, others are queued
                mine = None
                out = None
                for s2, kind, v in cont:
                    if kind is None:
                        e2 = env if mine is None else dict(env)
                        if mine is None:
                            mine = (s2, e2, v)
                        else:
                            if i[1]:
                                e2[i[1]] = v
                            if i[5]:
                                work.append((s2, e2, i[5], lab, 0))
                            else:
                                work.append((s2, e2, lab, prev, pc))
                    else:
                        if out is None and mine is None and len(cont) == 1:
                            return (s2, kind, v)
                        self.extra.append((s2, kind, v))
                if mine is None:
                    return None
                st = mine[0]
                if i[1]:
                    env[i[1]] = mine[2]
                if i[5]:
                    prev, lab, pc = lab, i[5], 0
                    blk = f.block(lab)
            elif k == 'extract':
                v = self.opnd(st, env, i[3], i[2])
                if v is UNDEF:
                    env[i[1]] = UNDEF
                    continue
                for j in i[4]:
                    v = v[1 + j]
                env[i[1]] = v
            elif k == 'insert':
                v = self.opnd(st, env, i[3], i[2])
                w = self.opnd(st, env, i[5], i[4])
                env[i[1]] = self.insert(v, i[2], w, i[6])
            elif k == 'extractel':
                v = self.opnd(st, env, i[3], i[2])
                c = B.cval(self.opnd(st, env, i[5], i[4]))
                if v is UNDEF or c is None:
                    raise GiveUp('extractelement')
                env[i[1]] = v[1 + c]
            elif k == 'insertel':
                v = self.opnd(st, env, i[3], i[2])
                c = B.cval(self.opnd(st, env, i[7], i[6]))
                if v is UNDEF:
                    v = ['agg'] + [UNDEF] * i[2][1]
                v = list(v)
                v[1 + c] = self.opnd(st, env, i[5], i[4])
                env[i[1]] = v
            elif k == 'freeze':
                v = self.opnd(st, env, i[3], i[2])
                if v is UNDEF and i[2][0] == 'i':
                    _undef_n[0] += 1
                    v = B.inp('undef#%d' % _undef_n[0], i[2][1])
                env[i[1]] = v
            elif k == 'unreachable':
                return (st, 'abort', None)
            elif k == 'asm':
                if 'popcnt' in i[3]:
                    m = re.search(r'\(i(\d+) (?:noundef )?(%[\w.]+)\)', i[3])
                    a = env[m.group(2)]
                    env[i[1]] = UNDEF if a is UNDEF else popcnt(a, i[2][1])
                else:
                    raise GiveUp('asm')
            elif k == 'rmw':
                ptr, v = self.opnd(st, env, i[4], ('ptr',)), self.opnd(st, env, i[5], i[3])
                old = self.loadv(st, ptr, i[3])
                if i[2] == 'xchg':
                    new = v
                elif i[2] in ('add', 'sub', 'and', 'or', 'xor'):
                    new = self.binop(i[2], i[3], old, v)
                elif i[2] == 'nand':
                    new = self.binop('xor', i[3], self.binop('and', i[3], old, v), B.const(2**i[3][1] - 1, i[3][1]))
                else:
                    raise GiveUp('atomicrmw ' + i[2])
                self.storev(st, ptr, i[3], new)
                env[i[1]] = old
            elif k == 'cmpxchg':
                # without interference
                ptr = self.opnd(st, env, i[3], ('ptr',))
                old = self.loadv(st, ptr, i[2])
                if tuple(self.opnd(st, env, i[4], i[2])) != tuple(old):
                    raise GiveUp('cmpxchg with another value')
                self.storev(st, ptr, i[2], self.opnd(st, env, i[5], i[2]))
                env[i[1]] = ['agg', old, (1,)]
            elif k == 'resume':
                return (st, 'throw', None)
            elif k == 'fence':
                pass
            else:
                raise GiveUp('instruction: %s' % (i[1] if len(i) > 1 else i[0],))

    extra = []

    def insert(self, v, t, w, idx):
        if t[0] == 'named':
            t = self.mod.named(t)
        n = len(t[1]) if t[0] == 'str' else t[1]
        v = ['agg'] + [UNDEF] * n if v is UNDEF else list(v)
        if len(idx) == 1:
            v[1 + idx[0]] = w
        else:
            e = t[1][idx[0]] if t[0] == 'str' else t[2]
            v[1 + idx[0]] = self.insert(v[1 + idx[0]], e, w, idx[1:])
        return v

    def cast(self, op, t, v, d):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, list):
            if op == 'bitcast':
                raise GiveUp('vector bitcast')
            return ['agg'] + [self.cast(op, t[2], x, d[2]) for x in v[1:]]
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            if op == 'inttoptr' and not (v and v[0] == 'p'):
                if B.cval(v) == 0:
                    return ('p', None, 0)
                return ('p', ('unk', v), 0)
            if op == 'ptrtoint' and v[1] is None and v[2] == 0:
                return (0,) * d[1]
            return v
        if v and v[0] == 'p':
            raise GiveUp('pointer cast')
        if op == 'zext':
            return B.zext(v, d[1])
        if op == 'sext':
            return v + (v[-1],) * (d[1] - len(v))
        return B.low(v, d[1])

    def docall(self, st, env, i, depth, f):
        _, dst, rt, callee, args, to = i[:6]
        if callee[0] != 'v':
            raise GiveUp('indirect call')
        name = callee[1]
        if name[0] == '%':
            p = env[name]
            if isinstance(p, tuple) and p[0] == 'p' and p[1] and p[1][0] == 'fn':
                name = p[1][1]
            elif isinstance(p, tuple) and p[0] == 'p' and p[1] and p[1][0] == 'g':
                name = p[1][1]
            else:
                raise GiveUp('indirect call')

        def arg(j):
            return self.opnd(st, env, args[j][1], args[j][0])

        def ret(v):
            return [(st, 'ret', v)]
        n = name[1:].strip('"')
        for pre, m in self.models.items():
            if n == pre or (pre.endswith('*') and n.startswith(pre[:-1])):
                return m(self, st, [arg(j) for j in range(len(args))], rt)
        if n.startswith('llvm.'):
            if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch')):
                return None if not to else ret(None)
            if n.startswith(('llvm.memcpy', 'llvm.memmove')):
                return ret(self.memcpy(st, arg(0), arg(1), arg(2)))
            if n.startswith('llvm.memset'):
                self.memset(st, arg(0), arg(1), arg(2))
                return ret(None)
            if n.startswith('llvm.bswap'):
                a = arg(0)
                w = ()
                for j in range(len(a) // 8 - 1, -1, -1):
                    w += a[j*8:j*8+8]
                return ret(w)
            if n.startswith(('llvm.fshl', 'llvm.fshr')):
                a, b, c = arg(0), arg(1), B.cval(arg(2))
                if c is None:
                    raise GiveUp('funnel shift by a variable')
                w = len(a)
                c %= w
                both = b + a
                return ret(both[w-c:2*w-c] if 'fshl' in n else both[c:c+w])
            if n.startswith('llvm.ctpop'):
                a = arg(0)
                return ret(popcnt(a, len(a)))
            m = re.match(r'llvm\.(umin|umax|smin|smax)\.', n)
            if m:
                a, b = arg(0), arg(1)
                c = B.cmp_ult(a, b) if m.group(1)[0] == 'u' else B.cmp_slt(a, b)
                d = self.decide(st, c)
                if m.group(1)[1:] == 'max':
                    a, b = b, a
                if d is not None:
                    return ret(a if d else b)
                return ret(tuple(B.bmux(c, x, y) for x, y in zip(a, b)))
            m = re.match(r'llvm\.(ctlz|cttz)\.', n)
            if m:
                a = arg(0)
                c = B.cval(a)
                if c is None:
                    return ret(B.wop(m.group(1), (a,), len(a), 0, len(a)))
                w = len(a)
                return ret(B.const((w - c.bit_length()) if m.group(1) == 'ctlz' else (w if not c else (c & -c).bit_length() - 1), w))
            m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', n)
            if m:
                w = int(m.group(3))
                a, b = arg(0), arg(1)
                if m.group(1) == 's':
                    raise GiveUp(n)
                op = {'add': B.add, 'sub': B.sub, 'mul': B.mul}[m.group(2)]
                x = op(B.zext(a, 2*w), B.zext(b, 2*w))
                ov = 0
                for z in x[w:]:
                    ov = B.bor(ov, z)
                return ret(['agg', op(a, b), (ov,)])
            m = re.match(r'llvm\.usub\.sat', n)
            if m:
                a, b = arg(0), arg(1)
                c = B.cmp_ult(a, b)
                return ret(tuple(B.bmux(c, 0, y) for y in B.sub(a, b)))
            if n.startswith('llvm.abs'):
                a = arg(0)
                if a[-1] == 0:
                    return ret(a)
            if n.startswith('llvm.expect'):
                return ret(arg(0))
            if n.startswith('llvm.objectsize'):
                return ret(B.const(-1, 64))
            if n.startswith('llvm.trap'):
                return [(st, 'abort', 'trap')]
            raise GiveUp(n)
        if n in ('memcpy', 'memmove'):
            self.memcpy(st, arg(0), arg(1), arg(2))
            return ret(arg(0))
        if n == 'memset':
            self.memset(st, arg(0), arg(1), arg(2))
            return ret(arg(0))
        if n in ('_Znwm', '_Znam', 'malloc'):
            c = B.cval(arg(0))
            if c is None:
                raise GiveUp('allocation of unknown size')
            return ret(self.alloc(st, c, 'heap'))
        if n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdaPvm', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t'):
            return ret(None)
        if n in ('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t'):
            return ret(self.alloc(st, B.cval(arg(0)), 'heap'))
        if n == '__cxa_allocate_exception':
            return ret(self.alloc(st, None, 'exc'))
        if n.startswith('_ZNSt') and ('_errorC1E' in n or '_errorC2E' in n or '_errorD1E' in n or '_errorD2E' in n):
            return [(st, 'ret', None)]
        if n in ('__cxa_throw', '__cxa_rethrow') or n.startswith(('_ZSt17__throw', '_ZSt20__throw', '_ZSt19__throw', '_ZSt24__throw', '_ZSt28__throw')):
            return [(st, 'throw', n)]
        if n in ('__assert_fail', 'abort', '_ZSt9terminatev', 'exit', '__clang_call_terminate'):
            return [(st, 'abort', n)]
        fn = self.mod.func(name)
        if fn is not None:
            return self.call(st, name, [arg(j) for j in range(len(args))], depth + 1)
        raise GiveUp('external function ' + n)

    def memcpy(self, st, d, s, n):
        c = B.cval(n)
        if c is None:
            raise GiveUp('memcpy of unknown length')
        if c:
            self.check(st, s, c, 'read')
            self.check(st, d, c, 'write')
            src, dm = st.mem[s[1]], st.mem[d[1]]
            if c > 512 and s[1] != d[1]:
                # large copy: bytes never written stay unknown in the copy as well
                for k in [k for k in dm if d[2] <= k < d[2] + c]:
                    del dm[k]
                for k, b in src.items():
                    if s[2] <= k < s[2] + c:
                        dm[k - s[2] + d[2]] = b
                return
            cells = [src.get(s[2] + i) for i in range(c)]
            for i, b in enumerate(cells):
                if b is None:
                    dm.pop(d[2] + i, None)
                else:
                    dm[d[2] + i] = b

    def memset(self, st, d, v, n):
        c = B.cval(n)
        if c is None:
            raise GiveUp('memset of unknown length')
        if c >= 1 << 40:
            raise Fault('memset of %d bytes' % c)
        if c:
            self.storeb(st, d, [v[:8]] * c)

    def run(self, name, st, args):
        """name without @; -> list of (state, kind, value)"""
        self.steps = 0
        self.extra = []
        try:
            r = self.call(st, '@' + name, args)
        except (TypeError, KeyError, IndexError, AttributeError, ValueError, RecursionError) as e:
            import os, traceback
            if os.environ.get('IRDEBUG'):
                traceback.print_exc()
            raise GiveUp('not understood: %s %s' % (type(e).__name__, e))
        return r + self.extra


def popcnt(a, n):
    c = B.cval(a)
    if c is not None:
        return B.const(bin(c).count('1'), n)
    # sum of single bits
    it = {}
    k = 0
    for b in a:
        if b == 1:
            k += 1
        elif b:
            it[(b,)] = it.get((b,), 0) + 1
    return B.lin(it, k, n)


# ---------------------------------------------------------------- compilation
FLAGSC = ['-O1', '-g0', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-S', '-emit-llvm', '-w', '-Wno-everything', '-DNDEBUG_NOT',
          '-I' + VERIF + '/stubs', '-I' + REPO + '/include', '-I' + REPO + '/lib', '-I' + REPO + '/lib/FSE/lib', '-I' + VERIF + '/witness']


def compile_ir(src, tag, extra=(), lang='c++', link=(), first=()):
    """-> Module, or raises GiveUp with the compiler's message; link: C sources of the repository to link in"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'w_%s_%d.ll' % (tag, os.getpid()))
    cmd = [CLANGXX if lang == 'c++' else LLVM + '/bin/clang'] + (['-std=c++17'] if lang == 'c++' else []) + list(first) + FLAGSC + list(extra) + ['-x', lang, '-', '-o', out]
    p = subprocess.run(cmd, input=src, capture_output=True, text=True)
    if p.returncode:
        raise GiveUp('does not compile: ' + p.stderr[:400])
    outs = [out]
    for i, c in enumerate(link):
        o = out + '.%d.ll' % i
        p = subprocess.run([LLVM + '/bin/clang'] + FLAGSC + [os.path.join(REPO, c), '-o', o], capture_output=True, text=True)
        if p.returncode:
            raise GiveUp('does not compile: ' + p.stderr[:400])
        outs.append(o)
    if link:
        p = subprocess.run([LLVM + '/bin/llvm-link', '-S'] + outs + ['-o', out + '.all'], capture_output=True, text=True)
        if p.returncode:
            raise GiveUp('does not link: ' + p.stderr[:400])
        outs.append(out + '.all')
    t = open(outs[-1]).read()
    for o in outs:
        os.remove(o)
    return Module(t)
