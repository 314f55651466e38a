"""C15: bit packing and byte order helpers lose no bits."""
from sa import bits as B
from sa.ir import GiveUp, Fault, State
from sa.wit import Witnesses, setmem, getmem, compare, noreturn

TECHNIQUE = 'bit-provenance dataflow over the LLVM IR of the packing helpers, for every combination of offset and width modulo the word size'
RULE = ('following every bit of the appended value and of the previous contents through the helper: the result is the previous bits followed by the '
        'value bits (most significant first), zero padded; slices return exactly the named bits; byte order helpers are the '
        'prescribed byte permutation and its inverse. Offsets and widths are enumerated over all residues of the 64 bit word, values are symbolic')

PRE = '#include <chia/bits.hpp>\n'


def msb(w):
    """bit list most significant first of a word"""
    return list(reversed(w))


def pack(bl):
    """MSB-first bit list -> memory word (byte 0 first), zero padded"""
    bl = list(bl) + [0] * (-len(bl) % 8)
    w = ()
    for i in range(0, len(bl), 8):
        w += tuple(reversed(bl[i:i+8]))
    return w


def unpack(w):
    """memory word -> MSB-first bit list"""
    out = []
    for i in range(0, len(w), 8):
        out += reversed(w[i:i+8])
    return out


FS = {
    'wb': 'int wb(uint64_t* dst, uint64_t v, int off, int n) { return write_bits(dst, v, off, n); }',
    'ab': 'int ab(uint64_t* dst, const uint64_t* src, int off, int n) { return append_bits(dst, src, off, n); }',
    'sb': 'int sb(uint64_t* dst, const uint64_t* src, int off, int n) { return slice_bits(dst, src, off, n); }',
    'i2': 'void i2(uint8_t* o, uint16_t v) { Util::IntToTwoBytes(o, v); }',
    'i2le': 'void i2le(uint8_t* o, uint16_t v) { Util::IntToTwoBytesLE(o, v); }',
    'b2': 'uint16_t b2(const uint8_t* p) { return Util::TwoBytesToInt(p); }',
    'i8': 'void i8_(uint8_t* o, uint64_t v) { Util::IntToEightBytes(o, v); }',
    'b8': 'uint64_t b8(const uint8_t* p) { return Util::EightBytesToInt(p); }',
    'i16': 'void i16_(uint8_t* o, const uint128_t* v) { Util::IntTo16Bytes(o, *v); }',
    's64': 'uint64_t s64(const uint8_t* p, uint32_t s, uint32_t n) { return Util::SliceInt64FromBytes(p, s, n); }',
    's64f': 'uint64_t s64f(const uint8_t* p, uint32_t s, uint32_t n) { return Util::SliceInt64FromBytesFull(p, s, n); }',
    's128': 'void s128(uint128_t* o, const uint8_t* p, uint32_t s, uint32_t n) { *o = Util::SliceInt128FromBytes(p, s, n); }',
    'bs16': 'uint16_t bs16(uint16_t v) { return bswap_16(v); }',
    'bs32': 'uint32_t bs32(uint32_t v) { return bswap_32(v); }',
    'bs64': 'uint64_t bs64(uint64_t v) { return bswap_64(v); }',
    'xn': 'uint64_t xn(const uint8_t* p, uint32_t len, uint32_t b, uint32_t n) { return Util::ExtractNum(p, len, b, n); }',
}
for c in ('ParkBits', 'Bits', 'LargeBits'):
    FS['ap' + c] = 'void ap%s(uint8_t* o, uint64_t a, uint32_t na, uint64_t v, uint32_t nv, uint64_t b, uint32_t nb, uint32_t* size) { %s x; if(na) { x.AppendValue(a, na); } x.AppendValue(v, nv); x.AppendValue(b, nb); x.ToBytes(o); *size = x.GetSize(); }' % (c, c)
    FS['ct' + c] = 'void ct%s(uint8_t* o, uint64_t a, uint32_t na, uint64_t b, uint32_t nb, uint32_t* size) { %s x(a, na); x += %s(b, nb); x.ToBytes(o); *size = x.GetSize(); }' % (c, c, 'Bits')
    FS['pl' + c] = 'void pl%s(uint8_t* o, uint64_t a, uint32_t na, uint64_t b, uint32_t nb, uint64_t c, uint32_t nc) { %s x(a, na); %s y(b, nb); y.AppendValue(c, nc); auto z = x + y; z.ToBytes(o); }' % (c, c, c)
    FS['sl' + c] = 'void sl%s(uint8_t* o, uint64_t a, uint64_t b, uint64_t c, uint32_t nc, uint32_t s, uint32_t e, uint32_t* size) { %s x(a, 64); x.AppendValue(b, 64); x.AppendValue(c, nc); auto z = x.Slice(s, e); z.ToBytes(o); *size = z.GetSize(); }' % (c, c)
    FS['si' + c] = 'uint64_t si%s(uint64_t a, uint64_t b, uint64_t c, uint32_t nc, uint32_t s, uint32_t e) { %s x(a, 64); x.AppendValue(b, 64); x.AppendValue(c, nc); return x.SliceBitsToInt(s, e); }' % (c, c)
    FS['by' + c] = 'void by%s(uint8_t* o, const uint8_t* p, uint32_t n, uint32_t bits) { %s x(p, n, bits); x.ToBytes(o); }' % (c, c)
FNAME = {'i8': 'i8_', 'i16': 'i16_'}
MODEL = {'_ZSt*': lambda I, st, a, rt: [(st, 'ret', a[0] if a else None)], '_ZNSo*': lambda I, st, a, rt: [(st, 'ret', a[0] if a else None)]}


def noop(I, st, a, rt):
    return [(st, 'ret', a[0] if rt[0] == 'ptr' and a else None)]


MODEL = {'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': noop, '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_': noop,
         '_ZNSo3putEc': noop, '_ZNSo5flushEv': noop, '_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l': noop}


def check(r, tier):
    r.rule = RULE
    W = Witnesses(PRE, FS, 'c15')
    c32 = lambda v: B.const(v, 32)
    full = tier == 'thorough'

    def run(name, where, what, mk, get):
        """mk(I, st) -> (args, ctx); get(I, st, ret, ctx) -> [(got, expected)]"""
        try:
            I = W.interp(name, models=MODEL)
            st = State()
            args, ctx = mk(I, st)
            outs = I.run(FNAME.get(name, name), st, args)
        except Fault as e:
            r.violation(where, '%s: %s' % (what, e), key=where + ' fault')
            return
        except GiveUp as e:
            r.undecided('%s: %s' % (where, str(e)[:150]))
            return
        r.saw(where)
        r.count('shapes')
        for s2, kind, v in outs:
            if kind != 'ret':
                noreturn(r, what, where, s2, kind, where + ' noreturn', v)
                continue
            for got, exp in get(I, s2, v, ctx):
                d = B.differ(tuple(got), tuple(exp), s2.assume.items())
                if d is None:
                    ok.setdefault(where, 0)
                    ok[where] += 1
                elif d[0] == 'no':
                    i = d[1]
                    r.violation(where, '%s: bit %d is %s, expected %s' % (what, i, B.show(got[i]), B.show(exp[i])), key=where)
                else:
                    r.undecided('%s: %s' % (where, what))
    ok = {}

    # write_bits: dst holds `off` arbitrary bits followed by zeros
    def wb(off, n):
        def mk(I, st):
            d = I.alloc(st, 32, 'dst')
            prev = unpack(B.inp('prev', 256))[:off]
            setmem(st, d, pack(prev + [0] * (256 - off)))
            v = B.inp('v', n)
            return [d, B.zext(v, 64), c32(off), c32(n)], (d, prev, v)

        def get(I, st, ret, ctx):
            d, prev, v = ctx
            yield getmem(I, st, d, 32), pack(prev + msb(v) + [0] * (256 - off - n))
            yield ret, c32(off + n)
        run('wb', 'write_bits', 'offset %d, %d bits' % (off, n), mk, get)
    widths = range(1, 65)
    for n in widths:
        for off in range(0, 128 if full else 64, 1):
            wb(off, n)
        for off in (64, 65, 100, 127):
            wb(off, n)

    def app(name, where, off, n, slicing):
        def mk(I, st):
            d = I.alloc(st, 64, 'dst')
            s = I.alloc(st, 64, 'src')
            src = B.inp('src', 512)
            setmem(st, s, src)
            prev = [] if slicing else unpack(B.inp('prev', 512))[:off]
            setmem(st, d, pack(prev + [0] * (512 - len(prev))))
            return [d, s, c32(off), c32(n)], (d, prev, unpack(src))

        def get(I, st, ret, ctx):
            d, prev, src = ctx
            part = src[off:off+n] if slicing else src[:n]
            yield getmem(I, st, d, 64), pack(prev + part + [0] * (512 - len(prev) - n))
            yield ret, c32(n if slicing else off + n)
        run(name, where, 'offset %d, %d bits' % (off, n), mk, get)
    ks = range(16, 35) if full else (16, 17, 25, 31, 32, 33, 34)
    for k in ks:
        for vl in (1, 2, 3, 4):
            n = vl * k
            for off in sorted({0, k + 6, n, k + 6 + n, 1, 63, 64}):
                if off + n <= 448:
                    app('ab', 'append_bits', off, n, False)
                    app('sb', 'slice_bits', off, n, True)
    for n in list(range(0, 130)):
        for off in (0, 5, 38, 63, 64):
            app('ab', 'append_bits', off, n, False)
            app('sb', 'slice_bits', off, n, True)

    # byte order
    def simple(name, where, nin, nbytes):
        v = B.inp('v', nin)

        def mk(I, st):
            o = I.alloc(st, nbytes, 'out')
            if nin == 128:
                a = I.alloc(st, 16, 'in')
                setmem(st, a, v)
                return [o, a], o
            return [o, v], o

        def get(I, st, ret, o):
            yield getmem(I, st, o, nbytes), (v if name == 'i2le' else pack(msb(v)))
        run(name, where, 'byte order', mk, get)
    simple('i2', 'Util::IntToTwoBytes', 16, 2)
    simple('i2le', 'Util::IntToTwoBytesLE', 16, 2)
    simple('i8', 'Util::IntToEightBytes', 64, 8)
    simple('i16', 'Util::IntTo16Bytes', 128, 16)

    def rev(name, where, n):
        w = B.inp('p', n)

        def mk(I, st):
            p = I.alloc(st, n // 8, 'in')
            setmem(st, p, w)
            return [p], None
        run(name, where, 'byte order', mk, lambda I, st, ret, c: [(ret, tuple(reversed(unpack(w))))])
    rev('b2', 'Util::TwoBytesToInt', 16)
    rev('b8', 'Util::EightBytesToInt', 64)
    for n in (16, 32, 64):
        w = B.inp('v', n)
        run('bs%d' % n, 'bswap_%d' % n, 'byte order', lambda I, st: ([w], None), lambda I, st, ret, c: [(ret, tuple(reversed(unpack(w))))])

    # slices of byte strings
    def sl(name, where, s, n, w):
        mem = B.inp('mem', 48 * 8)

        def mk(I, st):
            p = I.alloc(st, 48, 'bytes')
            setmem(st, p, mem)
            if name == 's128':
                o = I.alloc(st, 16, 'out')
                return [o, p, c32(s), c32(n)], o
            if name == 'xn':
                return [p, c32(40), c32(s), c32(n)], None
            return [p, c32(s), c32(n)], None

        def get(I, st, ret, o):
            v = getmem(I, st, o, 16) if o else ret
            yield v, B.zext(tuple(reversed(unpack(mem)[s:s+n])), len(v))
        run(name, where, 'bits %d..%d' % (s, s + n), mk, get)
    for s in range(0, 136 if full else 72):
        for n in range(1, 65):
            if s + n <= 64 or s % 8 + n <= 64:
                sl('s64', 'Util::SliceInt64FromBytes', s, n, 64)
            # the fast path needs the first byte within reach: the callers slice at multiples of their width
            sl('s64f', 'Util::SliceInt64FromBytesFull', s, n, 64)
    for s in range(0, 24):
        for n in range(1, 129, 1 if full else 3):
            sl('s128', 'Util::SliceInt128FromBytes', s, n, 128)

    # bit strings
    for c in ('ParkBits', 'Bits', 'LargeBits'):
        T = {'ParkBits': 'BitsGeneric<ParkVector>', 'Bits': 'BitsGeneric<SmallVector>', 'LargeBits': 'BitsGeneric<std::vector>'}[c]
        dense = full or c == 'ParkBits'

        def ap(na, nv, nb):
            va, vv, vb = B.inp('a', na), B.inp('v', nv), B.inp('b', nb)

            def mk(I, st):
                o = I.alloc(st, 40, 'out')
                z = I.alloc(st, 4, 'size')
                setmem(st, o, (0,) * 320)
                return [o, B.zext(va, 64), c32(na), B.zext(vv, 64), c32(nv), B.zext(vb, 64), c32(nb), z], (o, z)

            def get(I, st, ret, ctx):
                o, z = ctx
                yield getmem(I, st, o, 40), pack(msb(va) + msb(vv) + msb(vb) + [0] * (320 - na - nv - nb))
                yield getmem(I, st, z, 4), c32(na + nv + nb)
            run('ap' + c, T + '::AppendValue/ToBytes', 'after %d+%d bits, %d bits' % (na, nv, nb), mk, get)
        edge = (1, 2, 8, 29, 31, 32, 33, 34, 61, 63, 64)
        for nv in (range(1, 65) if dense else edge):
            for nb in (range(1, 65) if dense else edge):
                ap(0, nv, nb)
        for nv in edge:
            for nb in edge:
                ap(64, nv, nb)
                ap(33, nv, nb)

        def two(kind, na, nb, nc=0):
            va, vb, vc = B.inp('a', na), B.inp('b', nb), B.inp('c', nc)

            def mk(I, st):
                o = I.alloc(st, 40, 'out')
                setmem(st, o, (0,) * 320)
                if kind == 'ct':
                    z = I.alloc(st, 4, 'size')
                    return [o, B.zext(va, 64), c32(na), B.zext(vb, 64), c32(nb), z], o
                return [o, B.zext(va, 64), c32(na), B.zext(vb, 64), c32(nb), B.zext(vc, 64), c32(nc)], o

            def get(I, st, ret, o):
                yield getmem(I, st, o, 40), pack(msb(va) + msb(vb) + msb(vc) + [0] * (320 - na - nb - nc))
            run(kind + c, T + ('::operator+=' if kind == 'ct' else '::operator+'), '%d + %d + %d bits' % (na, nb, nc), mk, get)
        for na in edge:
            for nb in edge:
                two('ct', na, nb)
                for nc in (1, 30, 64):
                    two('pl', na, nb, nc)

        def slc(kind, nc, s, e):
            va, vb, vc = B.inp('a', 64), B.inp('b', 64), B.inp('c', nc)
            allb = msb(va) + msb(vb) + msb(vc)

            def mk(I, st):
                a = [va, vb, B.zext(vc, 64), c32(nc), c32(s), c32(e)]
                if kind == 'si':
                    return a, None
                o = I.alloc(st, 32, 'out')
                setmem(st, o, (0,) * 256)
                z = I.alloc(st, 4, 'size')
                return [o] + a + [z], (o, z)

            def get(I, st, ret, ctx):
                part = allb[s:e]
                if kind == 'si':
                    yield ret, B.zext(tuple(reversed(part)), 64)
                else:
                    yield getmem(I, st, ctx[0], 32), pack(part + [0] * (256 - len(part)))
                    yield getmem(I, st, ctx[1], 4), c32(len(part))
            run(kind + c, T + ('::SliceBitsToInt' if kind == 'si' else '::Slice'), 'bits %d..%d of %d' % (s, e, len(allb)), mk, get)
        pts = (0, 1, 17, 63, 64, 65, 100, 127, 128, 129, 140)
        for nc in (20, 64):
            for s in pts:
                for e in pts:
                    if s < e <= 128 + nc and (e - s <= 64) and (s >> 6) + 1 >= (e >> 6) and c != 'LargeBits':
                        # (a slice of a whole aligned word is outside what SliceBitsToInt can express)
                        slc('si', nc, s, e)
                    if s < e <= 128 + nc:
                        slc('sl', nc, s, e)

        def by(n, nbits):
            w = B.inp('bytes', n * 8)

            def mk(I, st):
                p = I.alloc(st, n, 'in')
                setmem(st, p, w)
                o = I.alloc(st, 40, 'out')
                setmem(st, o, (0,) * 320)
                return [o, p, c32(n), c32(nbits)], o
            run('by' + c, T + ' from bytes', '%d bytes' % n, mk, lambda I, st, ret, o: [(getmem(I, st, o, 40), pack([0] * (nbits - n * 8) + unpack(w) + [0] * (320 - nbits)))])
        for n in range(1, 24):
            by(n, n * 8)
            if n < 16:
                by(n, n * 8 + 13)
                by(n, n * 8 + 64)
    for w, n in ok.items():
        r.ok('%s (%d shapes)' % (w, n))
