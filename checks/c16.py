"""C16: back-propagation keeps exactly the used entries and renumbers them exactly."""
from sa import bits as B
from sa.ir import GiveUp, Fault, State, UNDEF
from sa.wit import Witnesses, setmem, getmem, noreturn
from sa.prog import load
from sa.disk import Bad, Unk
from sa import backprop

TECHNIQUE = ('bit-provenance dataflow over the LLVM IR of bitmap and rank index (sums of symbolic bits compared as linear terms, bases up to 2^36), '
             'and path-sensitive dataflow over the mark, remap, number and filter stages and the chain of bitmaps between tables')
RULE = ('bitmap: get(i) returns a bit of its own for every i below the size, set(i) sets that bit and no other, clear() clears all, count(a, b) is the sum of the '
        'bits of a..b-1, lookup(p, o) is (sum of bits below p, sum of bits p..p+o-1). Mark stage: for every entry, the bits of both parents are set if and only if the entry is '
        'used (its bit in the bitmap of its own table, or no bitmap for table 7), nothing else; the bitmap of the previous table is empty before. Remap: for exactly the used entries, '
        'in order, one record with the rank of the left parent and the rank distance. Numbering: consecutive from 0, every record passed on. Chain: table n is filtered with the bitmap '
        'which table n+1 filled, and that table 1 is filtered with the one table 2 filled; both bitmaps cover every table')
PRE = '#include <chia/bitfield.hpp>\n#include <chia/bitfield_index.hpp>\n'
FS = {
    'bn': 'void* bn(int64_t n) { return new bitfield(n); }',
    'bg': 'bool bg(const bitfield* b, int64_t i) { return b->get(i); }',
    'bs': 'void bs(bitfield* b, int64_t i) { b->set(i); }',
    'bc': 'void bc(bitfield* b) { b->clear(); }',
    'bz': 'int64_t bz(const bitfield* b) { return b->size(); }',
    'bk': 'int64_t bk(const bitfield* b, int64_t s, int64_t e) { return b->count(s, e); }',
    'xn': 'void* xn(const bitfield* b) { return new bitfield_index(*b); }',
    'xl': 'void xl(const bitfield_index* x, uint64_t p, uint64_t o, uint64_t* out) { auto r = x->lookup(p, o); out[0] = r.first; out[1] = r.second; }',
}
c64 = lambda v: B.const(v & (2**64 - 1), 64)


class Stop(Exception):
    pass


class Map:
    """one bitfield object of a given size, with symbolic content"""

    def __init__(self, r, W, n):
        self.r, self.n = r, n
        I = self.I = W.interp('bn')
        I.max_steps = 10**8
        self.W = W
        st = State()
        self.st, self.b = self.call(st, 'bn', [c64(n)], 'bitfield')
        self.data = [o for o in self.st.mem if o[0] == 'heap' and o != self.b[1]]
        self.g = None

    def call(self, st, f, args, where):
        self.I.steps = 0
        outs = self.I.run(f, st.fork(), args)
        rets = [o for o in outs if o[1] == 'ret']
        if len(outs) != 1 or not rets:
            for s, k, v in outs:
                if k == 'giveup':
                    raise GiveUp(str(v))
            bad = [o for o in outs if o[1] not in ('ret', 'giveup')]
            if len(outs) == 1 and bad:
                self.r.violation(where, 'size %d: %s does not return (%s)' % (self.n, where, bad[0][1]), key=where + ' noreturn')
                raise Stop()
            raise GiveUp('%s: several outcomes' % where)
        return rets[0][0], rets[0][2]

    def fill(self, ones=()):
        """symbolic content; the named bits are one"""
        st = self.st.fork()
        for o in self.data:
            w = list(B.inp('m%d' % self.data.index(o), st.size[o] * 8))
            setmem(st, ('p', o, 0), tuple(1 if b in ones else b for b in w))
        return st

    def find(self):
        """g[i]: the memory bit that get(i) returns"""
        st = self.fill()
        self.g, seen = [], {}
        for i in range(self.n):
            s, v = self.call(st, 'bg', [self.b, c64(i)], 'bitfield::get')
            v = tuple(v)
            if v[0] in (0, 1) or any(v[1:]):
                self.r.violation('bitfield::get', 'size %d: the result for index %d does not depend on a stored bit' % (self.n, i), key='get const')
                raise Stop()
            if B.NODE[v[0]][0] != 'in':
                raise GiveUp('get returns %s' % B.show(v[0])[:80])
            if v[0] in seen:
                self.r.violation('bitfield::get', 'size %d: indices %d and %d share one stored bit' % (self.n, seen[v[0]], i), key='get shared')
                raise Stop()
            seen[v[0]] = i
            self.g.append(v[0])

    def mem(self, st):
        return {o: getmem(self.I, st, ('p', o, 0), st.size[o]) for o in self.data}


def lin(bits, n=64):
    it, k = {}, 0
    for b in bits:
        if b == 1:
            k += 1
        else:
            it[(b,)] = it.get((b,), 0) + 1
    return B.lin(it, k, n)


def same(r, where, what, got, exp):
    if got is UNDEF:
        r.violation(where, '%s: the result is undefined (oversized shift or uninitialised data)' % what, key=where + ' undefined')
        raise Stop()
    d = B.differ(tuple(got), tuple(exp))
    if d is None:
        return True
    if d[0] == 'no':
        r.violation(where, '%s: the result is not the number of set bits' % what, key=where + ' value')
        raise Stop()
    r.undecided('%s: %s' % (where, what))
    return False


def bitmap(r, W, n, full):
    try:
        m = Map(r, W, n)
    except Fault as e:
        r.violation('bitfield', 'size %d: %s' % (n, e), key='bitfield fault')
        raise Stop()
    r.count('sizes')
    try:
        # construction leaves no bit set
        for i in sorted({0, n // 2, n - 1}):
            s, v = m.call(m.st, 'bg', [m.b, c64(i)], 'bitfield::get')
            if B.cval(tuple(v)) != 0:
                if B.cval(tuple(v)) == 1 or B.cval(tuple(v)) is None:
                    r.violation('bitfield', 'size %d: bit %d of a new bitmap is not clear' % (n, i), key='new not clear')
                    raise Stop()
        m.find()
        g = m.g
        st = m.fill()
        before = m.mem(st)
        # set
        near = sorted({i for c in list(range(0, n, 64)) + [n - 1] for i in (c - 1, c, c + 1) if 0 <= i < n} | set(range(min(n, 130))))
        for i in near if n <= 256 or full else near[::7] + near[-3:]:
            s, v = m.call(st, 'bs', [m.b, c64(i)], 'bitfield::set')
            after = m.mem(s)
            for o in m.data:
                for x, y in zip(before[o], after[o]):
                    if x == g[i]:
                        if y != 1:
                            r.violation('bitfield::set', 'size %d: set(%d) does not set the bit that get(%d) returns' % (n, i, i), key='set misses')
                            raise Stop()
                    elif y != x:
                        r.violation('bitfield::set', 'size %d: set(%d) changes another stored bit' % (n, i), key='set other')
                        raise Stop()
            r.count('set')
        # clear
        s, v = m.call(st, 'bc', [m.b], 'bitfield::clear')
        left = set(b for w in m.mem(s).values() for b in w)
        for i in range(n):
            if g[i] in left:
                r.violation('bitfield::clear', 'size %d: bit %d is not cleared' % (n, i), key='clear misses')
                raise Stop()
        s, v = m.call(m.st, 'bz', [m.b], 'bitfield::size')
        size = B.cval(tuple(v))
        if size is None or size < n:
            r.violation('bitfield::size', 'a bitmap for %d bits reports the size %s' % (n, size), key='size')
            raise Stop()
        # count
        for a in range(0, n + 1, 64):
            if a > 128 and a % 1024 not in (0, 64, 960) and not full:
                continue
            ends = {e for e in (a, a + 1, a + 31, a + 63, a + 64, a + 65, a + 127, a + 128, a + 1023, a + 1024, n - 1, n) if a <= e <= n}
            if n <= 130:
                ends |= set(range(a, n + 1))
            for e in sorted(ends):
                s, v = m.call(st, 'bk', [m.b, c64(a), c64(e)], 'bitfield::count')
                same(r, 'bitfield::count', 'size %d: bits %d to %d' % (n, a, e), v, lin(g[a:e]))
                r.count('counted ranges')
        # rank
        pts = sorted({p for c in list(range(0, n, 1024)) + [64, 128, 960, n - 1] for p in (c - 65, c - 64, c - 63, c - 1, c, c + 1, c + 62, c + 63, c + 64, c + 65) if 0 <= p < n})
        offs = [0, 1, 2, 62, 63, 64, 65, 100, 127, 128, 500, 1000, 1023, 1024, 1025, 1100]
        for p in pts:
            for o in offs if full or n < 1200 or p % 1024 in (0, 1, 63, 64, 1023) else (1, 63, 100, 1024):
                if p + o >= n:
                    continue
                st = m.fill(ones=(g[p], g[p + o]))
                gg = [1 if x in (g[p], g[p + o]) else x for x in g]
                s, x = m.call(st, 'xn', [m.b], 'bitfield_index')
                out = m.I.alloc(s, 16, 'out')
                s, v = m.call(s, 'xl', [x, c64(p), c64(o), out], 'bitfield_index::lookup')
                w = getmem(m.I, s, out, 16)
                what = 'size %d, position %d, offset %d' % (n, p, o)
                same(r, 'bitfield_index::lookup', what + ', rank', w[:64], lin(gg[:p]))
                same(r, 'bitfield_index::lookup', what + ', distance', w[64:], lin(gg[p:p + o]))
                r.count('lookups')
    except Fault as e:
        r.violation('bitfield / bitfield_index', 'size %d: %s' % (n, e), key='bitfield fault')
        raise Stop()
    r.ok('bitmap and rank index, size %d' % n)


def shift(m, st, obj, data, delta):
    """the same object seen as part of a larger one: all pointers to data are moved down by delta bytes"""
    for o, mem in st.mem.items():
        if o[0] != 'heap':
            continue
        for off, b in list(mem.items()):
            if b[0] == 'P' and b[1][1] == data:
                mem[off] = ('P', ('p', data, b[1][2] - delta)) + tuple(b[2:])


def far(r, W, base):
    """indices above base (a multiple of 2^16): the stored words of the object are those of bits base..base+n"""
    n = 2112
    m = Map(r, W, n)
    m.find()
    if len(m.data) != 1:
        raise GiveUp('bitmap storage in several parts')
    d = m.data[0]
    g = m.g
    if m.st.size[d] % 8:
        raise GiveUp('storage')

    def big(st):
        # first pointer only moves: the storage begins base bits earlier
        shift(m, st, m.b, d, base // 8)
        # a size member counts the words or the bits
        mem = st.mem[m.b[1]]
        for off in range(0, st.size[m.b[1]], 8):
            if all(off + k in mem and mem[off + k][0] != 'P' for k in range(8)):
                v = B.cval(sum((tuple(mem[off + k]) for k in range(8)), ()))
                for unit in (1, 8, 64):
                    if v is not None and v * unit in (n, (n + 63) // 64 * 64):
                        setmem(st, ('p', m.b[1], off), c64(v + base // unit))
                        break
        s, v = m.call(st, 'bz', [m.b], 'bitfield::size')
        if B.cval(tuple(v)) != (n + 63) // 64 * 64 + base:
            raise GiveUp('size member not recognised')
        return st
    st = big(m.fill())
    for i in (0, 1, 63, 64, 1000, n - 1):
        try:
            s, v = m.call(st, 'bg', [m.b, c64(base + i)], 'bitfield::get')
        except Fault as e:
            r.violation('bitfield::get', 'index 2^%.0f + %d: another word is read (%s)' % (__import__('math').log2(base), i, e), key='get far')
            raise Stop()
        if tuple(v)[0] != g[i]:
            r.violation('bitfield::get', 'index %d: a different stored bit is returned' % (base + i), key='get far')
            raise Stop()
        try:
            s, v = m.call(st, 'bs', [m.b, c64(base + i)], 'bitfield::set')
        except Fault as e:
            r.violation('bitfield::set', 'index %d: another word is written (%s)' % (base + i, e), key='set far')
            raise Stop()
        if [1 if x == g[i] else x for x in m.mem(st)[d]] != list(m.mem(s)[d]):
            r.violation('bitfield::set', 'index %d: a different stored bit is set' % (base + i), key='set far')
            raise Stop()
    r.ok('bitmap access above 2^%d' % (base.bit_length() - 1))
    # the index over the low part, its entries replaced by arbitrary counts
    small = m.fill()
    s, x = m.call(small, 'xn', [m.b], 'bitfield_index')
    vec = [o for o in s.mem if o[0] == 'heap' and o not in small.mem and o != x[1]]
    vec = [o for o in vec if any(b[0] == 'P' and b[1][1] == o for b in s.mem[x[1]].values())]
    if len(vec) != 1:
        raise GiveUp('index storage not recognised')
    vec = vec[0]
    # entry width: the index of the small object holds the sums at multiples of 1024
    width = None
    for w in (8, 4, 2):
        if w * 2 + w > s.size[vec]:
            continue
        try:
            e1 = getmem(m.I, s, ('p', vec, w), w)
        except (GiveUp, KeyError, Fault):
            continue
        for step in (256, 512, 1024, 2048, 64, 128):
            if B.differ(tuple(e1), lin(g[:step], w * 8)) is None:
                width = (w, step)
                break
        if width:
            break
    if width is None:
        raise GiveUp('index entries not recognised')
    w, step = width
    if w < 8 and w * 8 < 35:
        r.violation('bitfield_index', 'index entries have %d bits, but a table can have more entries than that' % (w * 8), key='index entry width')
        raise Stop()
    ents = B.inp('base', 512)
    nent = s.size[vec] // w
    for p in (5, step - 1, step, step + 65, 2 * step + 3):
        for o in (0, 1, 62, 300):
            if p + o >= n:
                continue
            ones = (g[p], g[p + o])
            st = s.fork()
            setmem(st, ('p', d, 0), tuple(1 if b in ones else b for b in m.mem(small)[d]))
            st = big(st)
            for off, b in list(st.mem[vec].items()):
                del st.mem[vec][off]
            k = p // step
            setmem(st, ('p', vec, k * w), ents[:w * 8 - 8] + (0,) * 8)
            shift(m, st, x, vec, 0)
            for q, b in list(st.mem[x[1]].items()):
                if b[0] == 'P' and b[1][1] == vec:
                    # begin moves down, end stays
                    if b[1][2] == 0:
                        st.mem[x[1]][q] = ('P', ('p', vec, -(base // step) * w)) + tuple(b[2:])
            out = m.I.alloc(st, 16, 'out')
            try:
                s2, v = m.call(st, 'xl', [x, c64(base + p), c64(o), out], 'bitfield_index::lookup')
            except Fault as e:
                r.violation('bitfield_index::lookup', 'position %d: other words are read (%s)' % (base + p, e), key='lookup far')
                raise Stop()
            got = getmem(m.I, s2, out, 16)
            gg = [1 if y in ones else y for y in g]
            b0 = B.lin({tuple(ents[:w * 8 - 8]): 1}, 0, 64) if False else B.add(B.zext(tuple(ents[:w * 8 - 8]), 64), lin(gg[k * step:p]))
            what = 'position %d, offset %d' % (base + p, o)
            same(r, 'bitfield_index::lookup', what + ', rank', got[:64], b0)
            same(r, 'bitfield_index::lookup', what + ', distance', got[64:], lin(gg[p:p + o]))
            r.count('far lookups')
    r.ok('rank lookup above 2^%d' % (base.bit_length() - 1))


def big_counts(r):
    """index construction with large counts: bitfield::count replaced by a large number per call"""
    W = Witnesses(PRE, {k: FS[k] for k in ('bn', 'xn', 'bg')}, 'c16n', extra=('-fno-inline',))
    calls = []
    C = 3 * 2**31 + 7

    def cnt(I, st, a, rt):
        calls.append((B.cval(tuple(a[1])), B.cval(tuple(a[2]))))
        return [(st, 'ret', c64(C))]
    I = W.interp('bn', models={'_ZNK8bitfield5countEll': cnt})
    I.max_steps = 10**8
    n = 4096 + 64
    outs = I.run('bn', State(), [c64(n)])
    if len(outs) != 1 or outs[0][1] != 'ret':
        raise GiveUp('constructor')
    st, b = outs[0][0], outs[0][2]
    I.steps = 0
    outs = I.run('xn', st.fork(), [b])
    if len(outs) != 1 or outs[0][1] != 'ret':
        raise GiveUp('index constructor')
    s, x = outs[0][0], outs[0][2]
    step = calls[0][1] - calls[0][0] if calls else 0
    if not step or [c[0] for c in calls] != list(range(0, n, step)) or any(c[1] != min(c[0] + step, n) for c in calls):
        raise GiveUp('counted ranges %s' % calls[:3])
    vec = [o for o in s.mem if o[0] == 'heap' and o not in st.mem and o != x[1] and any(q[0] == 'P' and q[1][1] == o for q in s.mem[x[1]].values())]
    if len(vec) != 1:
        raise GiveUp('index storage')
    got = getmem(I, s, ('p', vec[0], 0), 8 * 3)
    for k in range(3):
        v = B.cval(tuple(got[64 * k:64 * k + 64]))
        if v != k * C:
            r.violation('bitfield_index', 'when %d bits are set before it, index entry %d holds %s' % (k * C, k, v), key='index overflow')
            return
    r.ok('index entries hold sums above 2^32')


def check(r, tier):
    r.rule = RULE
    full = tier == 'thorough'
    try:
        W = Witnesses(PRE, FS, 'c16')
        if W.err:
            raise GiveUp(str(W.err)[:200])
        for n in (1, 63, 64, 65, 127, 128, 1000, 1023, 1024, 1025, 1088, 2047, 2048, 2049, 3100) if full else (1, 63, 64, 65, 128, 1024, 1025, 1088, 2048, 2100):
            try:
                bitmap(r, W, n, full)
            except GiveUp as e:
                r.undecided('bitmap size %d: %s' % (n, str(e)[:150]))
        for base in (2**31, 2**32, 2**33, 2**35) if full else (2**32, 2**35):
            try:
                far(r, W, base)
            except GiveUp as e:
                r.undecided('bitmap above %d: %s' % (base, str(e)[:150]))
        try:
            big_counts(r)
        except (GiveUp, Fault) as e:
            r.undecided('large counts: %s' % str(e)[:150])
        r.saw('bitfield::bitfield', 'bitfield::get', 'bitfield::set', 'bitfield::clear', 'bitfield::size', 'bitfield::count', 'bitfield_index::bitfield_index', 'bitfield_index::lookup')
    except Stop:
        pass
    except GiveUp as e:
        r.undecided('bitmap: %s' % str(e)[:150])
    for tag in ('K32', 'K34'):
        r.build = tag
        backprop.check(r, load(tag))
