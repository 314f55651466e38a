"""Bit-provenance domain: a word is a tuple of bits (least significant first); a bit is 0, 1 or a hash-consed node naming the
input bit, XOR/AND combination or word-level result (linear form, product, quotient, hash ...) it comes from."""
import random

NODE = [None, None]          # 0 and 1 are the constants
_N = {}
WORD = []
_W = {}


def _node(d):
    i = _N.get(d)
    if i is None:
        i = len(NODE)
        NODE.append(d)
        _N[d] = i
    return i


def _word(d, nbits, lo=None, hi=None):
    """interns a word node and returns its bits"""
    i = _W.get(d)
    if i is None:
        i = len(WORD)
        WORD.append((d, nbits, lo, hi))
        _W[d] = i
    return tuple(_node(('w', i, j)) for j in range(nbits))


def inp(name, n):
    return tuple(_node(('in', name, i)) for i in range(n))


def const(v, n):
    return tuple((v >> i) & 1 for i in range(n))


def isc(w):
    for b in w:
        if b > 1:
            return False
    return True


def val(w):
    r = 0
    for i, b in enumerate(w):
        if b:
            r |= 1 << i
    return r


def cval(w):
    """constant value of a word or None"""
    r = 0
    for i, b in enumerate(w):
        if b == 1:
            r |= 1 << i
        elif b:
            return None
    return r


def _xset(b):
    if b <= 1:
        return frozenset(), b
    d = NODE[b]
    if d[0] == '^':
        return d[1], d[2]
    return frozenset((b,)), 0


def bxor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    sa, ia = _xset(a)
    sb, ib = _xset(b)
    s, i = sa ^ sb, ia ^ ib
    if not s:
        return i
    if len(s) == 1 and not i:
        return next(iter(s))
    return _node(('^', s, i))


def bnot(a):
    return bxor(a, 1)


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    da, db = NODE[a], NODE[b]
    s = (da[1] if da[0] == '&' else frozenset((a,))) | (db[1] if db[0] == '&' else frozenset((b,)))
    for x in s:
        if bnot(x) in s:
            return 0
    return _node(('&', s))


def bor(a, b):
    if a == 0 or a == b:
        return b
    if b == 0:
        return a
    if a == 1 or b == 1:
        return 1
    return bnot(band(bnot(a), bnot(b)))


def bmux(c, a, b):
    if c == 1 or a == b:
        return a
    if c == 0:
        return b
    if a == 1 and b == 0:
        return c
    if a == 0 and b == 1:
        return bnot(c)
    if a == 0:
        return band(bnot(c), b)
    if b == 0:
        return band(c, a)
    return bxor(b, band(c, bxor(a, b)))


def trim(w):
    n = len(w)
    while n and w[n-1] == 0:
        n -= 1
    return w[:n]


def zext(w, n):
    return w + (0,) * (n - len(w))


def rng(w):
    """unsigned range of a word"""
    w = trim(w)
    t = c = 0
    while t < len(w) and w[t] <= 1:
        c |= w[t] << t
        t += 1
    if t < len(w):
        d = NODE[w[t]]
        if d[0] == 'w' and d[2] == 0:
            _, nb, lo, hi = WORD[d[1]]
            if hi is not None and nb == len(w) - t and all(b > 1 and NODE[b] == ('w', d[1], j) for j, b in enumerate(w[t:])):
                return (lo << t) + c, (hi << t) + c
    lo = hi = 0
    for i, b in enumerate(w):
        if b:
            hi |= 1 << i
            if b == 1:
                lo |= 1 << i
    return lo, hi


def decomp(w):
    """-> ({trimmed atomic word: coef}, const), value of w mod 2^len(w)"""
    n = len(w)
    c = 0
    items = {}
    t = 0
    while t < n and w[t] <= 1:
        c |= w[t] << t
        t += 1
    if t == n:
        return {}, c
    d = NODE[w[t]]
    if d[0] == 'w' and d[2] == 0:
        desc, nb, lo, hi = WORD[d[1]]
        if desc[0] == 'lin' and nb <= n - t:
            if all(w[t+j] > 1 and NODE[w[t+j]] == ('w', d[1], j) for j in range(nb)) and not any(w[t+nb:]):
                if desc[1] is None or nb == n - t:
                    return {x: k << t for x, k in desc[2]}, c + (desc[3] << t)
    hi1 = 0
    rest = []
    for i in range(t, n):
        if w[i] == 1:
            hi1 |= 1 << i
            rest.append(0)
        else:
            rest.append(w[i])
    return {trim(tuple(rest)): 1 << t}, c + hi1


def lin(items, c, n):
    """word of n bits holding sum(items) + c mod 2^n"""
    m = 1 << n
    it = {}
    for x, k in items.items():
        k %= m
        if k:
            if k > m >> 1:
                k -= m          # keep small negative coefficients readable
            it[x] = k
    c %= m
    if not it:
        return const(c, n)
    if c > m >> 1:
        c -= m
    # range of the exact integer expression
    lo = hi = c
    for x, k in it.items():
        a, b = rng(x)
        if k > 0:
            lo += k * a
            hi += k * b
        else:
            lo += k * b
            hi += k * a
    exact = lo >= 0 and hi < m
    # common low zero bits of the operands: the constant's low bits pass through
    t = n
    for k in it.values():
        z = (k & -k).bit_length() - 1 if k else n
        t = min(t, z)
    if t:
        lowc = const(c & ((1 << t) - 1), t)
        return lowc + lin({x: k >> t for x, k in it.items()}, c >> t, n - t)
    if len(it) == 1 and c == 0:
        (x, k), = it.items()
        if k == 1:
            return zext(x, n) if len(x) <= n else low(x, n)
    if exact:
        nb = hi.bit_length()
        return zext(_word(('lin', None, frozenset(it.items()), c), nb, lo, hi), n)
    cut = {}
    for x, k in it.items():
        x = trim(x[:n])
        cut[x] = (cut.get(x, 0) + k) % m
    cut = {x: k for x, k in cut.items() if k and x}
    if len(cut) != len(it):
        return lin(cut, c, n)
    return _word(('lin', n, frozenset(cut.items()), c % m), n)


def add(a, b, neg=False):
    n = len(a)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca - cb if neg else ca + cb, n)
    if not neg:
        for x, y in zip(a, b):
            if x and y:
                break
        else:
            return tuple(x or y for x, y in zip(a, b))
    elif cb is not None:
        # subtracting bits known to be set
        if all(not y or x == 1 for x, y in zip(a, b)):
            return tuple(0 if y else x for x, y in zip(a, b))
    elif ca == (1 << n) - 1:
        return tuple(bnot(x) for x in b)
    ia, ka = decomp(a)
    ib, kb = decomp(b)
    r = dict(ia)
    for x, k in ib.items():
        r[x] = r.get(x, 0) + (-k if neg else k)
    return lin(r, ka - kb if neg else ka + kb, n)


def sub(a, b):
    return add(a, b, True)


def mul(a, b):
    n = len(a)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca * cb, n)
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        i, c = decomp(a)
        return lin({x: k * cb for x, k in i.items()}, c * cb, n)
    alo, ahi = rng(a)
    blo, bhi = rng(b)
    x, y = trim(a), trim(b)
    hi = ahi * bhi
    key = ('mul', None if hi < 1 << n else n) + tuple(sorted((x, y)))
    if hi < 1 << n:
        return zext(_word(key, hi.bit_length(), alo * blo, hi), n)
    return _word(key, n)


def low(w, n):
    """truncation, kept canonical for linear forms"""
    t = 0
    while t < n and w[t] <= 1:
        t += 1
    if t == n:
        return w[:n]
    d = NODE[w[t]]
    if d[0] == 'w' and d[2] == 0 and WORD[d[1]][0][0] == 'lin' and any(w[n:]):
        i, c = decomp(w)
        if len(i) != 1 or next(iter(i)) != trim(w):
            return lin(i, c, n)
    return w[:n]


def shl(a, k):
    n = len(a)
    if k >= n:
        return (0,) * n
    return (0,) * k + low(a, n - k)


def lshr(a, k):
    n = len(a)
    return a[k:] + (0,) * min(k, n)


def ashr(a, k):
    n = len(a)
    k = min(k, n)
    return a[k:] + (a[-1],) * k


def wop(name, args, n, lo=None, hi=None):
    """opaque word operation"""
    if hi is not None:
        nb = hi.bit_length()
        return zext(_word((name,) + tuple(args), nb, lo or 0, hi), n)
    return _word((name,) + tuple(args), n)


def udiv(a, b, rem=False):
    n = len(a)
    ca, cb = cval(a), cval(b)
    if cb is not None and cb:
        if ca is not None:
            return const(ca % cb if rem else ca // cb, n)
        if cb & (cb - 1) == 0:
            k = cb.bit_length() - 1
            return zext(a[:k], n) if rem else lshr(a, k)
        lo, hi = rng(a)
        if hi < cb:
            return a if rem else const(0, n)
        if rem:
            return wop('urem', (trim(a), trim(b)), n, 0, min(hi, cb - 1))
        return wop('udiv', (trim(a), trim(b)), n, lo // cb, hi // cb)
    return wop('urem' if rem else 'udiv', (trim(a), trim(b)), n)


def cmp_ult(a, b, or_eq=False):
    alo, ahi = rng(a)
    blo, bhi = rng(b)
    if or_eq:
        if ahi <= blo:
            return 1
        if alo > bhi:
            return 0
        return bnot(cmp_ult(b, a))
    if ahi < blo:
        return 1
    if alo >= bhi:
        return 0
    # difference of linear forms with a decided sign
    m = max(len(a), len(b)) + 2
    d = sub(zext(a, m), zext(b, m))
    if d[m-1] <= 1:
        return d[m-1]
    if alo == 0 and ahi > 0 and cval(b) is not None:
        k = cval(b)
        if k & (k - 1) == 0 and k > 0:        # a < 2^t  <=>  high bits are zero
            return cmp_eq(a[k.bit_length()-1:], (0,) * (len(a) - k.bit_length() + 1))
    return wop('ult', (trim(a), trim(b)), 1)[0]


def cmp_eq(a, b):
    if a == b:
        return 1
    diff = []
    for x, y in zip(a, b):
        z = bxor(x, y)
        if z == 1:
            return 0
        if z:
            diff.append(z)
    alo, ahi = rng(a)
    blo, bhi = rng(b)
    if ahi < blo or bhi < alo:
        return 0
    d = sub(a, b)
    if cval(d) is not None:
        return 1 if cval(d) == 0 else 0
    if len(diff) == 1:
        return bnot(diff[0])
    if cval(b) is not None or len(diff) <= 64:
        r = 1
        for z in diff:
            r = band(r, bnot(z))
        return r
    return wop('eq', (a, b), 1)[0]


def cmp_slt(a, b, or_eq=False):
    n = len(a)
    if a[-1] == 0 and b[-1] == 0:
        return cmp_ult(a, b, or_eq)
    fa = a[:-1] + (bnot(a[-1]),)
    fb = b[:-1] + (bnot(b[-1]),)
    return cmp_ult(fa, fb, or_eq)


# ---- evaluation of a node under an assignment of the inputs (used to tell a proven difference from an unrecognised equality)
class Eval:
    def __init__(self, seed, fixed=None):
        self.seed = seed
        self.b = {0: 0, 1: 1}
        self.w = {}
        self.fixed = fixed or {}

    def word(self, bits):
        r = 0
        for i, b in enumerate(bits):
            if self.bit(b):
                r |= 1 << i
        return r

    def bit(self, b):
        stack = [b]
        # iterative to avoid deep recursion
        while stack:
            x = stack[-1]
            if x in self.b:
                stack.pop()
                continue
            d = NODE[x]
            deps = self.deps(d)
            miss = [y for y in deps if y not in self.b]
            if miss:
                stack.extend(miss)
                continue
            self.b[x] = self.ev(d)
            stack.pop()
        return self.b[b]

    def deps(self, d):
        if d[0] == 'in':
            return ()
        if d[0] in '^&':
            return d[1]
        if d[1] in self.w:
            return ()
        desc = WORD[d[1]][0]
        out = []
        if desc[0] == 'lin':
            for x, k in desc[2]:
                out += x
        elif desc[0] == 'mul':
            out += desc[2] + desc[3]
        else:
            for x in desc[1:]:
                if isinstance(x, tuple):
                    out += x
        return out

    def ev(self, d):
        if d[0] == 'in':
            if (d[1], d[2]) in self.fixed:
                return self.fixed[d[1], d[2]]
            return random.Random('%s %s %s' % (self.seed, d[1], d[2])).getrandbits(1)
        if d[0] == '^':
            r = d[2]
            for x in d[1]:
                r ^= self.b[x]
            return r
        if d[0] == '&':
            return int(all(self.b[x] for x in d[1]))
        if d[1] not in self.w:
            self.w[d[1]] = self.evw(WORD[d[1]])
        return (self.w[d[1]] >> d[2]) & 1

    def raw(self, bits):
        r = 0
        for i, b in enumerate(bits):
            if self.b[b]:
                r |= 1 << i
        return r

    def evw(self, W):
        desc, nb = W[0], W[1]
        k = desc[0]
        if k == 'lin':
            r = desc[3]
            for x, c in desc[2]:
                r += c * self.raw(x)
        elif k == 'mul':
            r = self.raw(desc[2]) * self.raw(desc[3])
        elif k in ('udiv', 'urem'):
            a, b = self.raw(desc[1]), self.raw(desc[2])
            r = 0 if not b else (a % b if k == 'urem' else a // b)
        elif k == 'ult':
            r = int(self.raw(desc[1]) < self.raw(desc[2]))
        elif k == 'eq':
            r = int(self.raw(desc[1]) == self.raw(desc[2]))
        elif k == 'shl':
            s = self.raw(desc[2])
            r = self.raw(desc[1]) << s if s < 4096 else 0
        elif k == 'lshr':
            s = self.raw(desc[2])
            r = self.raw(desc[1]) >> s if s < 4096 else 0
        elif k == 'popcnt':
            r = bin(self.raw(desc[1])).count('1')
        else:
            r = random.Random('%s %s %s' % (self.seed, k, [self.raw(x) if isinstance(x, tuple) else x for x in desc[1:]])).getrandbits(nb)
        return r & ((1 << nb) - 1)


def differ(a, b, assume=(), tries=24):
    """None: equal as values of the domain. ('no', i, env) : proven different (an assignment separates them).
    ('?', i): not recognised as equal."""
    if a == b:
        return None
    idx = [i for i, (x, y) in enumerate(zip(a, b)) if x != y]
    for s in range(tries):
        e = Eval(s, {} if s > 1 else None)
        if any(e.bit(x) != v for x, v in assume):
            continue
        for i in idx:
            if e.bit(a[i]) != e.bit(b[i]):
                return ('no', i, s)
    return ('?', idx[0])


def sat(assume, tries=64):
    """an assignment satisfying the path condition was found"""
    assume = list(assume.items() if isinstance(assume, dict) else assume)
    for s in range(tries):
        e = Eval(s, {} if s > 1 else None)
        if all(e.bit(x) == v for x, v in assume):
            return True
    return False


def show(b):
    if b <= 1:
        return str(b)
    d = NODE[b]
    if d[0] == 'in':
        return '%s[%d]' % (d[1], d[2])
    if d[0] == '^':
        return ('~' if d[2] else '') + '^'.join(sorted(show(x) for x in list(d[1])[:4])) + ('...' if len(d[1]) > 4 else '')
    if d[0] == '&':
        return '(' + '&'.join(sorted(show(x) for x in list(d[1])[:4])) + ')'
    return '%s#%d[%d]' % (WORD[d[1]][0][0], d[1], d[2])
