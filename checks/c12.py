"""C12: the plot file layout matches its header pointers."""
from sa import bits as B
from sa.ir import GiveUp, Fault, State
from sa.wit import Witnesses, setmem, getmem
from sa.prog import load
from sa import layout

TECHNIQUE = ('bit-provenance dataflow over the LLVM IR of the size formulas, header writer, park writer and positioned write (every output byte traced to its inputs), '
             'and path-sensitive dataflow over the stages of phases 3 and 4: the file offset, size and content of every write and every header pointer as terms, compared with the prescribed formulas')
RULE = ('Sizes: line point, stub, delta, park, C3 sizes for every k equal the format formulas. Header: exactly the prescribed bytes in order, the returned size is the number of bytes written. '
        'Park: first line point left aligned in 2k bits, stubs most significant first, two-byte delta size, deltas, zeros to the fixed size; an oversized park raises. fwrite_at seeks to the exact '
        '64-bit offset and writes all bytes there. Phase 3: park i of table t is written at begin(t) + i * park size, begin(t+1) = begin(t) + number of parks * park size, begin(1) = header size, parks hold 2048 '
        'consecutive points and the rest; the seven pointers are stored in order 80 bytes before the end of the header. Phase 4: P7 parks, C1, C2 and C3 sections follow each other, entries and parks are written '
        'at their own offsets, one per interval; pointers 8 to 10 are stored 24 bytes before the end of the header')
PRE = r'''
#include <iostream>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <array>
#include <algorithm>
#include <memory>
#include <mutex>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <random>
#include <set>
#include <queue>
namespace std { struct vf_null { template<class T> vf_null& operator<<(const T&) { return *this; } vf_null& operator<<(ostream& (*)(ostream&)) { return *this; } }; static vf_null vf_out; }
#define cout vf_out
#define cerr vf_out
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
'''
FS = {
    'lps': 'uint32_t lps(uint8_t k) { return phase3::CalculateLinePointSize(k); }',
    'sts': 'uint32_t sts(uint8_t k) { return phase3::CalculateStubsSize(k); }',
    'mds': 'uint32_t mds(uint8_t k, uint8_t t) { return phase3::CalculateMaxDeltasSize(k, t); }',
    'pks': 'uint32_t pks(uint8_t k, uint8_t t) { return phase3::CalculateParkSize(k, t); }',
    'c3s': 'uint32_t c3s(uint8_t k) { return phase4::CalculateC3Size(k); }',
    'wh': 'uint32_t wh(FILE* f, uint8_t k, const uint8_t* id, const uint8_t* memo, uint32_t n) { return phase3::WriteHeader(f, k, id, memo, n); }',
    'fa': 'size_t fa(FILE* f, uint64_t o, const void* b, size_t n) { return fwrite_at(f, o, b, n); }',
    'wp': '''void wp(const uint128_t* lp, const uint8_t* d, uint32_t nd, const uint64_t* s, uint32_t ns, uint8_t k, uint8_t t, uint8_t* o, uint64_t size) {
        std::vector<uint8_t> deltas(d, d + nd); ParkBits stubs; for(uint32_t i = 0; i < ns; ++i) { stubs.AppendValue(s[i], k - 3); }
        phase3::WritePark(*lp, deltas, stubs, k, t, o, size); }''',
}
R_VALUES = [4.7, 2.75, 2.75, 2.7, 2.6, 2.45]
c8, c32, c64 = (lambda v: B.const(v, 8)), (lambda v: B.const(v, 32)), (lambda v: B.const(v & (2**64 - 1), 64))
up8 = lambda x: (x + 7) // 8


def line_point_size(k):
    return up8(2 * k)


def stubs_size(k):
    return up8(2047 * (k - 3))


def deltas_size(k, t):
    return up8(int(2047 * (5.6 if t == 1 else 3.5)))


def park_size(k, t):
    return line_point_size(k) + stubs_size(k) + deltas_size(k, t)


def c3_size(k):
    return up8(8 * 10000) if k < 20 else up8(int(2.4 * 10000))


class Log:
    """models of the C library: the file is a list of (position, byte) effects kept in the state"""
    OBJ = ('vf file', 0)

    def __init__(self):
        z = lambda I, st, a, rt: [(st, 'ret', B.const(0, rt[1]) if rt and rt[0] == 'i' else None)]
        self.models = {'fwrite': self.fwrite, 'fflush': z, 'fseek': self.fseek, 'fseeko': self.fseek, 'fseeko64': self.fseek, '__cxa_atexit': z, '_ZNSt8ios_base4InitC1Ev': z, '_ZdlPv': z, '_ZdlPvm': z,
                       '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm': self.create}
        self.sizes = None

    def create(self, I, st, a, rt):
        n = B.cval(getmem(I, st, a[1], 8))
        return [(st, 'ret', I.alloc(st, n + 1, 'str'))]

    def log(self, st):
        return st.mem.setdefault(self.OBJ, {})

    def fwrite(self, I, st, a, rt):
        n, m = B.cval(a[1]), B.cval(a[2])
        if n is None or m is None:
            raise GiveUp('size of a write')
        g = self.log(st)
        data = I.loadb(st, a[0], n * m) if n * m else []
        for b in data:
            if b[0] == 'P':
                raise GiveUp('pointer in data')
            g[len(g)] = ('b', b)
        return [(st, 'ret', a[2])]

    def fseek(self, I, st, a, rt):
        g = self.log(st)
        g[len(g)] = ('seek', a[1], B.cval(a[2]))
        return [(st, 'ret', B.const(0, 32))]


def bytestr(s):
    return [c8(b) for b in s]


def be(v, n):
    return [v[8*i:8*i+8] for i in range(n - 1, -1, -1)]


def chunks(w):
    return [tuple(w[i:i+8]) for i in range(0, len(w), 8)]


def msb(v):
    return list(reversed(v))


def packbits(bits, nbytes):
    bits = bits + [0] * (nbytes * 8 - len(bits))
    return [tuple(reversed(bits[i:i+8])) for i in range(0, len(bits), 8)]


def cmp_bytes(r, where, what, got, exp, assume, names=None):
    if len(got) != len(exp):
        r.violation(where, '%s: %d bytes instead of %d' % (what, len(got), len(exp)), key=where + ' length')
        return False
    for i, (g, e) in enumerate(zip(got, exp)):
        d = B.differ(tuple(g), tuple(e), assume)
        if d is None:
            continue
        if d[0] == 'no':
            r.violation(where, '%s: bit %d of byte %d%s is %s, expected %s' % (what, d[1], i, ' (%s)' % names(i) if names else '', B.show(g[d[1]]), B.show(e[d[1]])), key=where + ' content')
        else:
            r.undecided('%s: %s byte %d' % (where, what, i))
        return False
    return True


def sizes(r, W, tier):
    for n, where, f, two in (('lps', 'phase3::CalculateLinePointSize', line_point_size, False), ('sts', 'phase3::CalculateStubsSize', stubs_size, False),
                             ('mds', 'phase3::CalculateMaxDeltasSize', deltas_size, True), ('pks', 'phase3::CalculateParkSize', park_size, True),
                             ('c3s', 'phase4::CalculateC3Size', c3_size, False)):
        try:
            I = W.interp(n)
            bad = 0
            for k in range(16, 35):
                for t in (range(1, 7) if two else (0,)):
                    outs = I.run(n, State(), [c8(k)] + ([c8(t)] if two else []))
                    exp = f(k, t) if two else f(k)
                    v = B.cval(outs[0][2]) if len(outs) == 1 and outs[0][1] == 'ret' else None
                    if v is None:
                        raise GiveUp('value for k=%d' % k)
                    if v != exp:
                        r.violation(where, 'k=%d%s: %d bytes, the format prescribes %d' % (k, ' table %d' % t if two else '', v, exp), key=where)
                        bad = 1
                        break
                if bad:
                    break
            r.saw(where)
            if not bad:
                r.ok(where + ' for k 16..34')
        except (GiveUp, Fault) as e:
            r.undecided('%s: %s' % (where, str(e)[:150]))


def started(W, n, lg, **kw):
    I = W.interp(n, models=lg.models, **kw)
    I.max_steps = 10**7
    st = State()
    if '_GLOBAL__sub_I__' in W.mods[n].text:
        outs = I.run('_GLOBAL__sub_I__', st, [])
        if len(outs) != 1 or outs[0][1] != 'ret':
            raise GiveUp('initialisation of globals')
        st = outs[0][0]
    return I, st


def header(r, W, tier):
    where = 'phase3::WriteHeader'
    for mlen in (128, 112, 0, 1, 255, 256, 300):
        for k in (16, 32, 34) if mlen == 128 else (32,):
            try:
                lg = Log()
                I, st = started(W, 'wh', lg)
                f = I.alloc(st, 64, 'FILE')
                idp = I.alloc(st, 32, 'id')
                idv = B.inp('id', 256)
                setmem(st, idp, idv)
                me = I.alloc(st, max(mlen, 1), 'memo')
                mv = B.inp('memo', max(mlen, 1) * 8)
                setmem(st, me, mv)
                outs = I.run('wh', st, [f, c8(k), idp, me, c32(mlen)])
            except Fault as e:
                r.violation(where, 'memo of %d bytes: %s' % (mlen, e), key=where + ' fault')
                return
            except GiveUp as e:
                r.undecided('%s: %s' % (where, str(e)[:150]))
                return
            r.count('headers')
            exp = (bytestr(b'Proof of Space Plot') + chunks(idv) + [c8(k)] + bytestr(b'\x00\x04v1.0') + bytestr(mlen.to_bytes(2, 'big'))
                   + chunks(mv)[:mlen] + bytestr(bytes(80)))
            for s, kind, v in outs:
                if kind != 'ret':
                    if kind == 'giveup' or not B.sat(s.assume):
                        r.undecided('%s: %s %s' % (where, kind, str(v)[:120]))
                    else:
                        r.violation(where, 'memo of %d bytes: does not return (%s)' % (mlen, kind), key=where + ' noreturn')
                    continue
                g = s.mem.get(Log.OBJ, {})
                ops = [g[i] for i in range(len(g))]
                if any(o[0] != 'b' for o in ops):
                    r.undecided(where + ': seeks')
                    continue
                if not cmp_bytes(r, where, 'header with a memo of %d bytes' % mlen, [o[1] for o in ops], exp, s.assume.items()):
                    return
                if B.cval(v) != len(exp):
                    r.violation(where, 'returns %s for a header of %d bytes' % (B.cval(v), len(exp)), key=where + ' size')
                    return
    r.ok(where + ': exact bytes')
    r.saw(where)


def write_at(r, W):
    where = 'fwrite_at'
    try:
        for n in (0, 1, 8, 77):
            lg = Log()
            I, st = started(W, 'fa', lg)
            f = I.alloc(st, 64, 'FILE')
            b = I.alloc(st, max(n, 1), 'buf')
            v = B.inp('d', max(n, 1) * 8)
            setmem(st, b, v)
            off = B.inp('off', 63) + (0,)
            for s, kind, ret in I.run('fa', st, [f, off, b, c64(n)]):
                if kind != 'ret':
                    if kind != 'giveup' and B.sat(s.assume):
                        r.violation(where, 'writing %d bytes does not return (%s)' % (n, kind), key=where + ' noreturn')
                    else:
                        r.undecided('%s: %s' % (where, str(ret)[:100]))
                    return
                g = s.mem.get(Log.OBJ, {})
                ops = [g[i] for i in range(len(g))]
                sk = [o for o in ops if o[0] == 'seek']
                if not sk or ops[0][0] != 'seek':
                    r.violation(where, 'data is written before the file position is set', key=where + ' seek')
                    return
                if len(sk) != 1 or sk[0][2] is None:
                    r.undecided(where + ': several seeks')
                    return
                d = B.differ(tuple(sk[0][1]), off, s.assume.items())
                if sk[0][2] != 0 or d is not None and d[0] == 'no':
                    r.violation(where, 'the file position is not the given offset' + (' (bit %d)' % d[1] if d else ' from the start'), key=where + ' position')
                    return
                if d is not None:
                    r.undecided(where + ': position')
                    return
                if not cmp_bytes(r, where, '%d bytes' % n, [o[1] for o in ops[1:]], chunks(v)[:n], s.assume.items()):
                    return
                if B.cval(ret) != n:
                    r.violation(where, 'returns %s after writing %d bytes' % (B.cval(ret), n), key=where + ' return')
                    return
        r.ok('fwrite_at: seek to the offset, then all bytes')
        r.saw(where)
    except Fault as e:
        r.violation(where, str(e), key=where + ' fault')
    except GiveUp as e:
        r.undecided('%s: %s' % (where, str(e)[:150]))


def park(r, W, tier):
    where = 'phase3::WritePark'
    full = tier == 'thorough'
    try:
        for k in (16, 17, 25, 31, 32, 33, 34) if not full else range(16, 35):
            for t in (1, 2, 6):
                P = park_size(k, t)
                hd = line_point_size(k) + stubs_size(k)
                for n, ret in ((0, 5), (1, 7), (3, 0), (3, 300), (9, 40), (3, P - hd - 2), (3, P - hd - 1)):
                    if k not in (17, 32) and not full and (n, ret) not in ((3, 0), (9, 40)):
                        continue
                    if not one_park(r, W, k, t, P, n, ret, where):
                        return
        r.ok(where + ': layout')
        r.saw(where)
    except Fault as e:
        r.violation(where, str(e), key=where + ' fault')
    except GiveUp as e:
        r.undecided('%s: %s' % (where, str(e)[:150]))


def one_park(r, W, k, t, P, n, ret, where):
    lg = Log()
    tmp = B.inp('enc', max(ret, 1) * 8)
    dv = B.inp('d', max(n, 1) * 8)
    calls = []

    def enc(I, st, a, rt):
        v = a[-3]
        beg, end = I.loadv(st, v, ('ptr',)), I.loadv(st, ('p', v[1], v[2] + 8), ('ptr',))
        calls.append((end[2] - beg[2], getmem(I, st, beg, end[2] - beg[2]) if end[2] > beg[2] else (), a[-2]))
        if ret:
            setmem(st, a[-1], tmp) if False else [st.mem[a[-1][1]].__setitem__(a[-1][2] + i, tmp[8*i:8*i+8]) for i in range(ret)]
        return [(st, 'ret', c64(ret))]
    m = dict(lg.models)
    m['_ZN8Encoding15ANSEncodeDeltas*'] = enc
    # building a text: only the error message does that
    m['_ZNSt7__cxx1112basic_string*'] = lambda I, st, a, rt: [(st, 'text', None)]
    I = W.interp('wp', models=m)
    I.max_steps = 10**7
    st = State()
    lp = I.alloc(st, 16, 'lp')
    lv = B.inp('lp', 2 * k) + (0,) * (128 - 2 * k)
    setmem(st, lp, lv)
    d = I.alloc(st, max(n, 1), 'deltas')
    setmem(st, d, dv)
    s = I.alloc(st, max(n, 1) * 8, 'stubs')
    sv = [B.inp('s%d' % i, k - 3) for i in range(n)]
    for i, v in enumerate(sv):
        setmem(st, ('p', s[1], 8 * i), B.zext(v, 64))
    out = I.alloc(st, P + max(16, ret + 2), 'park')
    setmem(st, out, B.inp('old', (P + max(16, ret + 2)) * 8))
    before = B.inp('old', (P + max(16, ret + 2)) * 8)
    outs = I.run('wp', st, [lp, d, c32(n), s, c32(n), c8(k), c8(t), out, c64(P)])
    r.count('parks')
    hd = line_point_size(k) + stubs_size(k)
    size = ret or n
    what = 'k=%d table %d, %d entries, %d delta bytes%s' % (k, t, n + 1, size, '' if ret else ' (not compressed)')
    too_big = hd + 2 + size > P
    for s2, kind, v in outs:
        if kind == 'giveup':
            r.undecided('%s: %s' % (where, str(v)[:120]))
            return False
        if kind == 'text' and not too_big:
            r.undecided('%s: %s: builds a text' % (where, what))
            return False
        if too_big:
            if kind == 'ret':
                r.violation(where, '%s: the deltas do not fit but no error is raised' % what, key=where + ' overflow')
                return False
            continue
        if kind != 'ret':
            if B.sat(s2.assume):
                r.violation(where, '%s: does not return (%s)' % (what, kind), key=where + ' noreturn')
                return False
            continue
        if not calls:
            r.undecided(where + ': encoder not called')
            return False
        cn, cb, R = calls[-1]
        if cn != n or n and B.differ(tuple(cb), tuple(dv[:8*n])) is not None and B.differ(tuple(cb), tuple(dv[:8*n]))[0] == 'no':
            r.violation(where, '%s: other deltas are encoded' % what, key=where + ' deltas')
            return False
        rv = fp(R)
        if rv is not None and rv != R_VALUES[t - 1]:
            r.violation(where, '%s: the deltas are encoded with R=%s instead of %s' % (what, rv, R_VALUES[t - 1]), key=where + ' R')
            return False
        if rv is None:
            r.undecided(where + ': R value')
        exp = packbits(msb(lv[:2*k]), line_point_size(k)) + packbits(sum((msb(x) for x in sv), []), stubs_size(k))
        w = size | (0 if ret else 0x8000)
        exp += [c8(w & 255), c8(w >> 8)] + (chunks(tmp)[:ret] if ret else chunks(dv)[:n])
        exp += [c8(0)] * (P - len(exp))
        got = chunks(getmem(I, s2, out, P))
        if not cmp_bytes(r, where, what, got, exp, s2.assume.items()):
            return False
        rest = chunks(getmem(I, s2, ('p', out[1], P), max(16, ret + 2)))
        if not cmp_bytes(r, where, what + ', after the park', rest, chunks(before)[P:P + max(16, ret + 2)], s2.assume.items()):
            return False
    return True


def fp(v):
    """concrete double"""
    import struct
    try:
        if isinstance(v, list) and v[0] == 'fpb':
            bs = [B.cval(b) for b in v[1]]
            return struct.unpack('<d', bytes(bs))[0]
        if isinstance(v, float):
            return v
    except Exception:
        pass
    return None


def check(r, tier):
    r.rule = RULE
    W = Witnesses(PRE, FS, 'c12')
    sizes(r, W, tier)
    header(r, W, tier)
    write_at(r, W)
    park(r, W, tier)
    for tag in ('K32', 'K34'):
        layout.check(r, load(tag), {'park': park_size, 'c3': c3_size})
