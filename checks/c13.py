"""C13: the first table function is exactly ChaCha8 as prescribed."""
from sa import bits as B
from sa.ir import GiveUp, Fault, State
from sa.wit import Witnesses, setmem, getmem, compare, noreturn

PRE = '#include <chia/phase1.h>\n#include <chia/phase1.hpp>\n'


def rotl(w, k):
    return w[-k:] + w[:-k]


def xor(a, b):
    return tuple(B.bxor(x, y) for x, y in zip(a, b))


def chacha_block(key, ctr):
    """key: 256 bits (byte 0 first), ctr: 64 bits -> 512 keystream bits (byte 0 first)"""
    sig = b'expand 32-byte k'
    st = [B.const(int.from_bytes(sig[i*4:i*4+4], 'little'), 32) for i in range(4)]
    st += [key[i*32:i*32+32] for i in range(8)]
    st += [B.low(ctr, 32), ctr[32:64], (0,)*32, (0,)*32]
    x = list(st)

    def qr(a, b, c, d):
        x[a] = B.add(x[a], x[b])
        x[d] = rotl(xor(x[d], x[a]), 16)
        x[c] = B.add(x[c], x[d])
        x[b] = rotl(xor(x[b], x[c]), 12)
        x[a] = B.add(x[a], x[b])
        x[d] = rotl(xor(x[d], x[a]), 8)
        x[c] = B.add(x[c], x[d])
        x[b] = rotl(xor(x[b], x[c]), 7)
    for _ in range(4):
        qr(0, 4, 8, 12)
        qr(1, 5, 9, 13)
        qr(2, 6, 10, 14)
        qr(3, 7, 11, 15)
        qr(0, 5, 10, 15)
        qr(1, 6, 11, 12)
        qr(2, 7, 8, 13)
        qr(3, 4, 9, 14)
    out = ()
    for a, b in zip(x, st):
        out += B.add(a, b)
    return out


TECHNIQUE = 'value-graph comparison over LLVM IR (bit-provenance domain) of the table-1 function with the ChaCha8 specification; affine tiling of the x range over the syntax tree'
RULE = ('the bits of every y computed by F1Calculator for x = 512n + 16j + i (n symbolic, j and i enumerated, plot id symbolic) are the same '
        'value graph as the specified keystream bits; the loops of compute_f1 hand out each x in [0, 2^k) exactly once and hand every result on once')


def check(r, tier):
    r.rule = RULE
    for tag in ('K32', 'K34'):
        f1(r, tag, tier)
        tiles(r, tag)


def f1(r, tag, tier):
    kmax = 34 if tag == 'K34' else 32
    if tier == 'thorough':
        ks = range(16, kmax + 1)
    else:
        ks = (16, 23, 32) if tag == 'K32' else (33, 34)
    W = Witnesses(PRE, {
        'f1': 'void f1(int k, const uint8_t* id, uint64_t x, uint64_t n, phase1::entry_1* out) { phase1::F1Calculator F(k, id); F.compute_block(x, n, out); }\n'
              'size_t esz() { return sizeof(phase1::entry_1); } uint64_t ey(const phase1::entry_1* e) { return e->y; } uint64_t ex(const phase1::entry_1* e) { return e->x; }',
        'ks': 'void ks(const uint8_t* key, uint64_t pos, uint32_t n, uint8_t* out) { chacha8_ctx c; chacha8_keysetup(&c, key, 256, NULL); chacha8_get_keystream(&c, pos, n, out); }'},
        'c13' + tag, ['-DCHIA_K34=1'] if tag == 'K34' else [], link=['lib/chacha8.c'])
    # the keystream itself
    try:
        I = W.interp('ks', max_steps=10**7)
        lo = B.inp('poslo', 31) + (0,)
        hi = B.inp('poshi', 32)
        for n, low in [(n, w) for n in (1, 2, 3, 4) for w in (lo, B.const(2**32 - n, 32), B.const(2**32 - 1, 32))]:
            st = State()
            kp = I.alloc(st, 32, 'key')
            key = B.inp('key', 256)
            setmem(st, kp, key)
            pos = low + hi
            o = I.alloc(st, 64 * n, 'keystream')
            for s2, kind, v in I.run('ks', st, [kp, pos, B.const(n, 32), o]):
                if kind != 'ret':
                    noreturn(r, 'chacha8_get_keystream', 'chacha8_get_keystream', s2, kind, 'chacha8 noreturn', v)
                    continue
                for b in range(n):
                    if low is lo:
                        ctr = B.add(low, B.const(b, 32)) + hi
                    else:
                        v = B.cval(low) + b
                        ctr = B.const(v & 0xFFFFFFFF, 32) + (B.add(hi, B.const(1, 32)) if v >> 32 else hi)
                    exp = chacha_block(key, ctr)
                    compare(r, 'chacha8_get_keystream: block %d of %d is the ChaCha8 block (%s)' % (b, n, tag), 'lib/chacha8.c: chacha8_get_keystream',
                            getmem(I, s2, ('p', o[1], 64 * b), 64), exp, s2.assume, key='chacha8 block')
        r.saw('chacha8_keysetup', 'chacha8_get_keystream')
    except Fault as e:
        r.violation('lib/chacha8.c', str(e), key='chacha8 fault')
    except GiveUp as e:
        r.undecided('chacha8 keystream (%s): %s' % (tag, str(e)[:200]))
    for k in ks:
        block_k(r, W, k, tag)


def block_k(r, W, k, tag):
    where = 'phase1::F1Calculator::compute_block'
    cache = {}
    n = B.inp('n', k - 9)
    for j in range(32):
        try:
            I = W.interp('f1', max_steps=10**7)
            esz = B.cval(I.run('esz', State(), [])[0][2])
            st = State()
            idp = I.alloc(st, 32, 'id')
            ID = B.inp('id', 256)
            setmem(st, idp, ID)
            x0 = B.zext((0,) * 4 + B.const(j, 5) + n, 64)
            o = I.alloc(st, 16 * esz, 'block')
            outs = I.run('f1', st, [B.const(k, 32), idp, x0, B.const(16, 64), o])
            key = B.const(1, 8) + ID[:248]
            for s2, kind, v in outs:
                if kind != 'ret':
                    noreturn(r, 'k=%d, x = 512n + %d' % (k, 16 * j), where, s2, kind, 'compute_block noreturn', v)
                    continue
                nbits = B.mul(B.zext(n, 64), B.const(512 * k, 64))
                for i in range(16):
                    bit0 = (16 * j + i) * k
                    bl = []
                    for b in range(bit0 // 512, (bit0 + k - 1) // 512 + 1):
                        if b not in cache:
                            w = chacha_block(key, B.add(B.lshr(nbits, 9), B.const(b, 64)))
                            cache[b] = [w[q ^ 7] for q in range(512)]       # most significant bit of each byte first
                        bl += cache[b]
                    off = bit0 % 512
                    f = tuple(reversed(bl[off:off + k]))
                    x = B.zext(B.const(16 * j + i, 9) + n, 64)
                    y = B.zext(x[k-6:k] + f, 64)
                    e = ('p', o[1], i * esz)
                    gx = I.call(s2.fork(), '@ex', [e])[0][2]
                    gy = I.call(s2.fork(), '@ey', [e])[0][2]
                    what = 'k=%d (%s)' % (k, tag)
                    compare(r, what + ': y is the keystream slice and the top bits of x', where, gy, y, s2.assume, key='f1 y')
                    compare(r, what + ': x is the own x', where, gx, x, s2.assume, key='f1 x')
            r.count('f1 blocks')
            r.saw('phase1::F1Calculator::F1Calculator', where)
        except Fault as e:
            r.violation(where, 'k=%d: %s' % (k, e), key='compute_block fault')
        except GiveUp as e:
            r.undecided('%s k=%d (%s): %s' % (where, k, tag, str(e)[:200]))
            return


# ---------------------------------------------------------------- the x range
def tiles(r, tag):
    from sa.prog import load
    from sa.engine import Engine, show
    from sa.pipe import PipeCfg, flat
    from sa import terms as T
    p = load(tag)
    fs = p.fns('phase1::compute_f1')
    if not fs:
        r.undecided('compute_f1 not found')
        return
    f = fs[0]
    kmax = 34 if tag == 'K34' else 32
    for k in range(16 if tag == 'K32' else 33, kmax + 1):
        what = 'k=%d: every x from 0 to 2^k-1 exactly once' % k
        eng = Engine(p, PipeCfg(('phase1::F1Calculator',)))
        args = {i: k for i, q in enumerate(f['p']) if q['t'] == 'int' and (q['n'] == 'k' or i == 1)}
        if len(args) != 1:
            r.undecided(what + ': no parameter k')
            return
        try:
            res = [s for s, v in eng.run(f, args=args) if not s.out]
        except Exception as e:
            r.undecided('%s: %s' % (what, e))
            return
        if len(res) != 1:
            r.undecided('%s: %d paths' % (what, len(res)))
            continue
        evs = list(flat(res[0].ev))
        stages = {show(e['loc']): e for e, lo in evs if e.kind == 'stage'}
        takes = [(e, lo) for e, lo in evs if e.kind == 'take']
        done = False
        groups = {}
        for e, lo in takes:
            sid = show(e['to'])[1:]
            stg = stages.get(sid)
            if stg is None or not (isinstance(stg['fn'], tuple) and stg['fn'][0] == 'lam'):
                continue
            groups.setdefault(sid, []).append((e, lo))
        for sid, tk in groups.items():
            lam = stages[sid]['fn']
            g = p.functions.get(lam[1])
            inner = [s for s, v in Engine(p, PipeCfg(('phase1::F1Calculator',))).run(g, caps=lam) if not s.out]
            for s in inner:
                cb = [(x, li) for x, li in flat(s.ev) if x.kind == 'call' and x['name'].endswith('F1Calculator::compute_block')]
                if len(cb) != 1 or len(cb[0][1]) > 1 or any(len(lo) > 1 for e, lo in tk):
                    continue
                x, li = cb[0]
                done = True
                # value of the item in terms of the outer loop, first_x in terms of item and inner loop
                item = None
                for q in g['p'][:1]:
                    item = ('rd', ('L', ('o', ('sym', 'p:' + q['n'])), ()), 0)
                first, cnt = x['args'][0], x['args'][1]
                segs, bad = [], None
                for e, lo in tk:
                    v = affine(T, first, cnt, item, li, e, lo)
                    if isinstance(v, str):
                        bad = v
                        break
                    segs.append(v)
                if bad is None:
                    bad = dest(T, x, li, s, cnt)
                if bad is None:
                    bad = forward(p, T, Engine, PipeCfg, flat, stages, stages[sid].get('out'))
                if bad is None:
                    pos = 0
                    for st_, n_ in sorted(segs):
                        if st_ != pos:
                            bad = '!x=%d is %s' % (min(st_, pos), 'not produced' if st_ > pos else 'produced twice')
                            break
                        pos += n_
                    if bad is None and pos != 1 << k:
                        bad = '!%d values of x are produced instead of %d' % (pos, 1 << k)
                if bad is None:
                    r.ok(what)
                elif bad[0] == '!':
                    r.violation('phase1::compute_f1 (%s)' % x.l, what + ' fails: ' + bad[1:], key='compute_f1 tiling')
                else:
                    r.undecided('%s: %s' % (what, bad))
        if not done:
            r.undecided(what + ': structure not recognised')
    r.saw('phase1::compute_f1')


def lincoef(T, t, atoms):
    """t = const + sum coef*atom over the given atoms only -> (const, [coef]) or None"""
    c, d = T.parts(t)
    co = [0] * len(atoms)
    for m, k in d.items():
        if len(m) != 1 or m[0] not in atoms:
            return None
        co[atoms.index(m[0])] += k
    return c, co


def dest(T, x, li, s, cnt):
    """the blocks of one item are stored one after the other and fill the output vector exactly"""
    from sa.engine import show
    d = x['args'][2] if len(x['args']) > 2 else None
    if not (isinstance(d, tuple) and d[0] == 'ptr' and d[1][2] and d[1][2][-1][0] == 'e'):
        return None
    at = [('it', li[0]['id'])] if li else []
    co = lincoef(T, d[1][2][-1][1], at)
    inner = li[0].get('bound') if li else 1
    if co is None or not isinstance(inner, int):
        return None
    if co[0] != 0 or (li and inner > 1 and co[1][0] != cnt):
        return '!the %d entries of consecutive blocks are stored at index %s' % (cnt, show(d[1][2][-1][1]))
    base = ('L', d[1][1], d[1][2][:-2])
    size = [e['to'] for e in s.ev if e.kind == 'vec' and e.d.get('op') == 'resize' and e['vec'] == base]
    if len(size) == 1 and isinstance(size[0], int) and size[0] != cnt * inner:
        return '!%d entries are stored in an output of size %d' % (cnt * inner, size[0])
    return None


def forward(p, T, Engine, PipeCfg, flat, stages, out):
    """the next stage adds every entry it is given exactly once"""
    from sa.engine import show
    stg = stages.get(show(out)[1:]) if isinstance(out, tuple) else None
    if stg is None or not (isinstance(stg['fn'], tuple) and stg['fn'][0] == 'lam'):
        return None
    g = p.functions.get(stg['fn'][1])
    for s, v in Engine(p, PipeCfg(('phase1::F1Calculator',))).run(g, caps=stg['fn']):
        if s.out:
            continue
        adds = [(x, li) for x, li in flat(s.ev) if x.kind == 'call' and x['name'].endswith('::add')]
        if not adds:
            return '!a path of the stage adds nothing to the sorter'
        if len(adds) != 1 or len(adds[0][1]) != 1:
            continue
        x, (lp,) = adds[0]
        a = x['args'][0] if x['args'] else None
        if not (isinstance(a, tuple) and a[0] == 'ptr' and a[1][2] and a[1][2][-1][0] == 'e' and a[1][1] == ('o', ('sym', 'p:' + g['p'][0]['n']))):
            continue
        co = lincoef(T, a[1][2][-1][1], [('it', lp['id'])])
        n = ('rd', ('L', a[1][1], a[1][2][:-2] + (('f', '#n'),)), 0)
        if co is None:
            continue
        if co[1][0] >= 1 and isinstance(co[0], int) and co[0] > 0:
            return '!the first %d entries are not added' % co[0]
        if co[1][0] > 1:
            return '!only every %d-th entry is added' % co[1][0]
        if lp.get('bound') is None:
            continue
        df = T.sub(lp['bound'], n)
        if co[0] == 0 and co[1][0] == 1 and isinstance(df, int) and df != 0:
            return '!the add loop visits %s entries' % show(lp['bound'])
    return None


def affine(T, first, cnt, item, li, take, lo):
    """(first x, number of consecutive x values) one hand-over (or loop of hand-overs) leads to; '!..' not contiguous, other str: unknown"""
    if not isinstance(cnt, int):
        return 'block size not constant: %s' % (cnt,)
    from sa.engine import show
    atoms = [item]
    if li:
        atoms.append(('it', li[0]['id']))
    r = lincoef(T, first, atoms)
    if r is None:
        return 'first x not affine: ' + show(first)
    c, co = r
    inner = li[0].get('bound') if li else 1
    if not isinstance(inner, int):
        return 'inner loop bound unknown'
    a = co[0]
    b = co[1] if li else cnt
    atoms2 = [('it', lo[0]['id'])] if lo else []
    r2 = lincoef(T, take['val'], atoms2)
    if r2 is None:
        return 'item not affine: ' + show(take['val'])
    outer = lo[0].get('bound') if lo else 1
    if not isinstance(outer, int):
        return 'outer loop bound unknown'
    c2 = r2[0]
    a2 = a * (r2[1][0] if lo else 1)
    start = c + a * c2
    if b != cnt and inner > 1:
        return '!consecutive blocks start %d apart but hold %d entries' % (b, cnt)
    if a2 != cnt * inner and outer > 1:
        return '!consecutive items start %d apart but produce %d entries' % (a2, cnt * inner)
    return start, cnt * inner * outer
