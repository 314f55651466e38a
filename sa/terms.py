"""Value terms of the dataflow engine: hash-consable tuples with a polynomial
normal form for integer arithmetic, so that two expressions computing the same
affine/polynomial value get the same term however they are written."""

_keys = {}


def key(t):
    if isinstance(t, int):
        return "#%d" % t
    k = _keys.get(t)
    if k is None:
        k = repr(t)
        _keys[t] = k
    return k


def is_poly(t):
    return isinstance(t, tuple) and t and t[0] == 'poly'


def parts(t):
    """const, {mono: coeff}"""
    if isinstance(t, bool):
        return int(t), {}
    if isinstance(t, int):
        return t, {}
    if is_poly(t):
        return t[1], dict(t[2])
    return 0, {(t,): 1}


def build(c, d):
    d = {m: k for m, k in d.items() if k}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1 and len(m) == 1:
            return m[0]
    return ('poly', c, tuple(sorted(d.items(), key=lambda x: [key(a) for a in x[0]])))


def add(a, b):
    c1, d1 = parts(a)
    c2, d2 = parts(b)
    for m, k in d2.items():
        d1[m] = d1.get(m, 0) + k
    return build(c1 + c2, d1)


def scale(a, k):
    c, d = parts(a)
    return build(c * k, {m: x * k for m, x in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    c1, d1 = parts(a)
    c2, d2 = parts(b)
    if len(d1) * len(d2) > 64:
        return ('op', '*', a, b)
    out = {}
    c = c1 * c2
    for m, k in d1.items():
        if c2:
            out[m] = out.get(m, 0) + k * c2
    for m, k in d2.items():
        if c1:
            out[m] = out.get(m, 0) + k * c1
    for m1, k1 in d1.items():
        for m2, k2 in d2.items():
            m = tuple(sorted(m1 + m2, key=key))
            out[m] = out.get(m, 0) + k1 * k2
    return build(c, out)


def atoms(t):
    if isinstance(t, int):
        return
    c, d = parts(t)
    for m in d:
        for a in m:
            yield a


def div(a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b > 0) else -q
    if b == 1:
        return a
    if isinstance(b, int) and b > 0:
        # exact division of every coefficient
        c, d = parts(a)
        if d and c % b == 0 and all(k % b == 0 for k in d.values()):
            return build(c // b, {m: k // b for m, k in d.items()})
        if b & (b - 1) == 0:
            # canonical: division by a power of two == shift right
            return ('op', '>>', a, b.bit_length() - 1)
    return ('op', '/', a, b)


def mod(a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    if isinstance(b, int) and b > 0 and b & (b - 1) == 0:
        return band(a, b - 1)
    return ('op', '%', a, b)


def band(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if b == 0:
        return 0
    x, y = sorted([a, b], key=key) if not isinstance(b, int) else (a, b)
    return ('op', '&', x, y)


def bor(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if a == 0:
        return b
    if b == 0:
        return a
    x, y = sorted([a, b], key=key)
    return ('op', '|', x, y)


def bxor(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    x, y = sorted([a, b], key=key)
    return ('op', '^', x, y)


def shl(a, b):
    if isinstance(b, int) and 0 <= b < 256:
        return mul(a, 1 << b)
    return ('op', '<<', a, b)


def shr(a, b):
    if isinstance(a, int) and isinstance(b, int) and b >= 0:
        return a >> b
    if b == 0:
        return a
    return ('op', '>>', a, b)


def tmin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    if a == b:
        return a
    return ('min',) + tuple(sorted([a, b], key=key))


def tmax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    if a == b:
        return a
    return ('max',) + tuple(sorted([a, b], key=key))


# ---- boolean terms -------------------------------------------------------
# ('eq', p): p == 0 ; ('le', p): p <= 0 ; ('not', t) ; ('and'|'or', a, b)

NUMERIC_TAGS = ('poly', 'sym', 'op', 'rd', 'fld', 'call', 'min', 'max', 'ite', 'cast', 'phi', 'phx', 'it', 'itn')


def numericish(t):
    return isinstance(t, int) or (isinstance(t, tuple) and t[0] in NUMERIC_TAGS)


def _normsign(p):
    c, d = parts(p)
    if not d:
        return p
    m = min(d, key=lambda x: [key(a) for a in x])
    return scale(p, -1) if d[m] < 0 else p


def eq(a, b):
    if a == b:
        return 1
    if isinstance(a, int) and isinstance(b, int):
        return int(a == b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, tuple) and x[0] in ('ptr', 'lam', 'str', 'bind', 'fn') and y == 0:
            return 0
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'str' and b[0] == 'str':
        return 0
    # boolean compared with 0/1
    for x, y in ((a, b), (b, a)):
        if isboolterm(x) and isinstance(y, int):
            if y == 0:
                return tnot(x)
            if y == 1:
                return x
            return 0
    if isboolterm(a) or isboolterm(b) or not (numericish(a) and numericish(b)):
        x, y = sorted([a, b], key=key)
        return ('same', x, y)
    p = sub(a, b)
    if isinstance(p, int):
        return int(p == 0)
    c, d = parts(p)
    return ('eq', _normsign(p))


def le(a, b):
    p = sub(a, b)
    if isinstance(p, int):
        return int(p <= 0)
    return ('le', p)


def lt(a, b):
    return le(add(a, 1), b)


def isboolterm(t):
    return isinstance(t, tuple) and t and t[0] in ('eq', 'le', 'not', 'and', 'or', 'same', 'fcmp')


def tnot(t):
    if isinstance(t, int):
        return int(not t)
    if t[0] == 'not':
        return t[1]
    if t[0] == 'le':
        # not (p <= 0)  <=>  p >= 1  <=>  1 - p <= 0
        return ('le', sub(1, t[1]))
    if t[0] == 'and':
        return ('or', tnot(t[1]), tnot(t[2]))
    if t[0] == 'or':
        return ('and', tnot(t[1]), tnot(t[2]))
    return ('not', tobool(t))


def tobool(t):
    if isinstance(t, int):
        return int(t != 0)
    if isboolterm(t):
        return t
    if t[0] in ('ptr', 'lam', 'str', 'bind', 'fn'):
        return 1
    if t[0] == 'ite':
        return tite(t[1], tobool(t[2]), tobool(t[3]))
    return tnot(eq(t, 0))


def tite(c, a, b):
    if isinstance(c, int):
        return a if c else b
    if a == b:
        return a
    if a == 1 and b == 0:
        return c
    if a == 0 and b == 1:
        return tnot(c)
    return ('ite', c, a, b)


def subterms(t):
    """all tuple subterms (including t)"""
    st = [t]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    st.append(y)


def contains(t, x):
    if t == x:
        return True
    for s in subterms(t):
        if s == x:
            return True
    return False


def subst(t, m):
    """replace subterms by map m, re-normalising arithmetic"""
    if isinstance(t, (int, str)) or t is None:
        return t
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'poly':
        r = t[1]
        for mono, k in t[2]:
            x = k
            for a in mono:
                x = mul(x, subst(a, m))
            r = add(r, x)
        return r
    n = tuple(subst(x, m) for x in t)
    if n == t:
        return t
    return renorm(n)


def renorm(n):
    if n and n[0] == 'op' and len(n) == 4:
        return binop(n[1], n[2], n[3])
    if n and n[0] == 'eq' and len(n) == 2:
        return eq(n[1], 0)
    if n and n[0] == 'le' and len(n) == 2:
        return le(n[1], 0)
    if n and n[0] == 'not':
        return tnot(n[1])
    if n and n[0] == 'min':
        return tmin(n[1], n[2])
    if n and n[0] == 'max':
        return tmax(n[1], n[2])
    if n and n[0] == 'ite':
        return tite(n[1], n[2], n[3])
    return n


def binop(op, a, b):
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if op == '*':
        return mul(a, b)
    if op == '/':
        return div(a, b)
    if op == '%':
        return mod(a, b)
    if op == '&':
        return band(a, b)
    if op == '|':
        return bor(a, b)
    if op == '^':
        return bxor(a, b)
    if op == '<<':
        return shl(a, b)
    if op == '>>':
        return shr(a, b)
    if op == '==':
        return eq(a, b)
    if op == '!=':
        return tnot(eq(a, b))
    if op == '<':
        return lt(a, b)
    if op == '<=':
        return le(a, b)
    if op == '>':
        return lt(b, a)
    if op == '>=':
        return le(b, a)
    return ('op', op, a, b)


# ---- facts -----------------------------------------------------------------

INF = float('inf')
NONNEG = set()


def linkey(p):
    """p = s*K + c with K sign-normalised, constant-free; returns (K, s, c)"""
    c, d = parts(p)
    k = build(0, d)
    n = _normsign(k)
    return n, (1 if n == k else -1), c


class Facts:
    """Immutable conjunction of boolean terms with interval/disequality lookup."""
    __slots__ = ('items', '_b')

    def __init__(self, items=()):
        self.items = items
        self._b = None

    def __len__(self):
        return len(self.items)

    def plus(self, t):
        if t in (1, True) or t in self.items:
            return self
        return Facts(self.items + (t,))

    def _bounds(self):
        if self._b is None:
            lo, hi, ne = {}, {}, {}
            for t in self.items:
                neg = False
                if t[0] == 'not':
                    neg, t = True, t[1]
                if t[0] == 'eq':
                    K, s, c = linkey(t[1])
                    v = -c * s
                    if neg:
                        ne.setdefault(K, set()).add(v)
                    else:
                        lo[K] = max(lo.get(K, -INF), v)
                        hi[K] = min(hi.get(K, INF), v)
                elif t[0] == 'le' and not neg:
                    K, s, c = linkey(t[1])
                    if s == 1:   # K + c <= 0
                        hi[K] = min(hi.get(K, INF), -c)
                    else:        # -K + c <= 0 -> K >= c
                        lo[K] = max(lo.get(K, -INF), c)
            self._b = (lo, hi, ne)
        return self._b

    def range(self, p, depth=0):
        """interval of integer term p"""
        if isinstance(p, int):
            return p, p
        lo, hi, ne = self._bounds()
        K, s, c = linkey(p)
        l, h = lo.get(K, -INF), hi.get(K, INF)
        _, d = parts(K)
        sl = sh = 0
        for m, k in d.items():
            if len(m) == 1:
                if len(d) == 1 and k == 1:
                    al, ah = self._atom(m[0], depth)
                else:
                    al, ah = self.range(m[0], depth + 1) if depth < 3 else self._atom(m[0], depth)
            else:
                al = 0 if all(self.range(x, depth + 1)[0] >= 0 for x in m) and depth < 3 else -INF
                ah = INF
            if k >= 0:
                sl += al * k if al != -INF else -INF
                sh += ah * k if ah != INF else INF
            else:
                sl += ah * k if ah != INF else -INF
                sh += al * k if al != -INF else INF
        l, h = max(l, sl), min(h, sh)
        nes = ne.get(K, ())
        while l in nes:
            l += 1
        while h in nes:
            h -= 1
        if s == 1:
            return l + c, h + c
        return -h + c, -l + c

    def _atom(self, a, depth):
        l, h = -INF, INF
        if a in NONNEG:
            l = 0
        if isinstance(a, tuple):
            if a[0] == 'min' and depth < 4:
                r = [self.range(x, depth + 1) for x in a[1:]]
                h = min(x[1] for x in r)
                l = max(l, min(x[0] for x in r))
            elif a[0] == 'max' and depth < 4:
                r = [self.range(x, depth + 1) for x in a[1:]]
                l = max([l] + [x[0] for x in r])
                h = max(x[1] for x in r)
            elif a[0] == 'op' and len(a) == 4:
                if a[1] == '&' and isinstance(a[3], int) and a[3] >= 0:
                    l, h = 0, a[3]
                elif a[1] == '%' and isinstance(a[3], int) and a[3] > 0:
                    l, h = (0 if self.range(a[2], depth + 1)[0] >= 0 else -a[3] + 1), a[3] - 1
                elif a[1] in ('>>', '/') and depth < 4:
                    x = self.range(a[2], depth + 1)
                    if x[0] >= 0 and isinstance(a[3], int) and a[3] > 0:
                        dv = (1 << a[3]) if a[1] == '>>' else a[3]
                        l = x[0] // dv
                        h = x[1] // dv if x[1] != INF else INF
                    elif x[0] >= 0:
                        l = 0
            elif a[0] == 'ite' and depth < 4:
                x, y = self.range(a[2], depth + 1), self.range(a[3], depth + 1)
                l, h = max(l, min(x[0], y[0])), min(h, max(x[1], y[1]))
            elif isboolterm(a):
                l, h = 0, 1
        return l, h

    def decide(self, t):
        if isinstance(t, int):
            return bool(t)
        if t in self.items:
            return True
        n = tnot(t)
        if n in self.items:
            return False
        if t[0] == 'not':
            r = self.decide(t[1])
            return None if r is None else not r
        if t[0] == 'and':
            a, b = self.decide(t[1]), self.decide(t[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if t[0] == 'or':
            a, b = self.decide(t[1]), self.decide(t[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if t[0] == 'le':
            l, h = self.range(t[1])
            if h <= 0:
                return True
            if l > 0:
                return False
            return None
        if t[0] == 'eq':
            l, h = self.range(t[1])
            if l > 0 or h < 0:
                return False
            if l == h == 0:
                return True
            lo, hi, ne = self._bounds()
            K, s, c = linkey(t[1])
            if -c * s in ne.get(K, ()):
                return False
            return None
        return None
