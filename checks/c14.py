"""C14: table functions combine both parents as the format prescribes."""
from sa import bits as B
from sa.ir import GiveUp, Fault, State
from sa.wit import Witnesses, setmem, getmem, compare, noreturn

TECHNIQUE = 'bit-provenance dataflow over the LLVM IR of FxCalculator::evaluate with BLAKE3 as an uninterpreted function; data-flow of its call sites over the syntax tree'
RULE = ('for every table and k, with all input bits symbolic: the bytes given to the hash are exactly the prescribed concatenation, the value and the '
        'new metadata are exactly the prescribed slices of the hash output (or of the parents\' metadata); position and offset are left alone; '
        'the evaluation stage evaluates (left, right) of every match with the table index and k it was built for, tables 2 to 7 in order')
LEN = {2: 1, 3: 2, 4: 4, 5: 4, 6: 3, 7: 2}          # metadata of the parents in units of k
PRE = '#include <chia/phase1.h>\n#include <chia/phase1.hpp>\n'


def src(t):
    T, S = 'phase1::entry_%d' % (t - 1), 'phase1::entry_%d' % t
    put = 'l.x = *xl; r.x = *xr;' if t == 2 else 'memcpy(l.meta.data(), ml, l.meta.size()); memcpy(r.meta.data(), mr, r.meta.size());'
    get = '' if t == 7 else 'memcpy(mo, o.meta.data(), o.meta.size());'
    return ('void fx%d(int k, const uint64_t* yl, const uint64_t* yr, const uint64_t* xl, const uint64_t* xr, const uint8_t* ml, const uint8_t* mr, '
            'const uint64_t* pin, uint64_t* yo, uint8_t* mo, uint64_t* po) { %s l, r; l.y = *yl; r.y = *yr; %s %s o; o.pos = pin[0]; o.off = pin[1]; '
            '%s phase1::FxCalculator<%s, %s> F(k, %d); F.evaluate(l, r, o); *yo = o.y; po[0] = o.pos; po[1] = o.off; %s }\n'
            'size_t mi%d() { return %s; } size_t mo%d() { return %s; }'
            % (t, T, put, S, '' if t == 7 else 'memset(o.meta.data(), 0, o.meta.size());', T, S, t, get,
               t, '0' if t == 2 else 'sizeof(%s::meta)' % T, t, '0' if t == 7 else 'sizeof(%s::meta)' % S))


def bytes_msb(bits):
    """bits most significant first -> memory word (byte 0 first), zero padded"""
    bits = list(bits) + [0] * (-len(bits) % 8)
    w = ()
    for i in range(0, len(bits), 8):
        w += tuple(reversed(bits[i:i+8]))
    return w


def bits_msb(w):
    return [w[i + 7 - j] for i in range(0, len(w), 8) for j in range(8)]


def models(store):
    def key(p):
        return (p[1], p[2])

    def init(I, st, a, rt):
        st.log.append(('init', key(a[0])))
        return [(st, 'ret', None)]

    def update(I, st, a, rt):
        n = B.cval(a[2])
        if n is None:
            raise GiveUp('hash input length unknown')
        st.log.append(('update', key(a[0]), getmem(I, st, a[1], n)))
        return [(st, 'ret', None)]

    def fin(I, st, a, rt):
        n = B.cval(a[2])
        if n is None or n > 64:
            raise GiveUp('hash output length unknown')
        data, started = (), False
        for e in st.log:
            if e[1] != key(a[0]):
                continue
            if e[0] == 'init':
                data, started = (), True
            elif e[0] == 'update':
                data += e[2]
        if not started:
            raise GiveUp('hash without init')
        st.log.append(('final', key(a[0]), data))
        I.check(st, a[1], n, 'write')
        setmem(st, a[1], hashed(data)[:8 * n])
        return [(st, 'ret', None)]
    return {'blake3_hasher_init': init, 'blake3_hasher_update': update, 'blake3_hasher_finalize': fin}


def hashed(data):
    return B.wop('blake3', (tuple(data),), 512)


def check(r, tier):
    r.rule = RULE
    for tag in ('K32', 'K34'):
        funcs(r, tag, tier)
        sites(r, tag)


def funcs(r, tag, tier):
    kmax = 34 if tag == 'K34' else 32
    ks = range(16, kmax + 1)
    W = Witnesses(PRE, {'fx%d' % t: src(t) for t in LEN}, 'c14' + tag, ['-DCHIA_K34=1'] if tag == 'K34' else [], link=['lib/chacha8.c'])
    where = 'phase1::FxCalculator::evaluate'
    for t in LEN:
        for k in ks:
            what = 'table %d, k=%d (%s)' % (t, k, tag)
            try:
                I = W.interp('fx%d' % t, models=models({}), max_steps=2 * 10**6)
                mi = B.cval(I.run('mi%d' % t, State(), [])[0][2])
                mo = B.cval(I.run('mo%d' % t, State(), [])[0][2])
                st = State()

                def word(v, n=64):
                    p = I.alloc(st, n // 8, 'in')
                    setmem(st, p, B.zext(v, n))
                    return p
                yl, yr = B.inp('yl', k + 6), B.inp('yr', k + 6)
                nm = LEN[t] * k
                ML, MR = B.inp('ml', nm), B.inp('mr', nm)       # most significant first
                args = [B.const(k, 32), word(yl), word(yr)]
                if t == 2:
                    args += [word(tuple(reversed(ML))), word(tuple(reversed(MR))), word((0,) * 64), word((0,) * 64)]
                else:
                    args += [word((0,) * 64), word((0,) * 64)]
                    for nme, m in (('ml', ML), ('mr', MR)):
                        w = bytes_msb(m)
                        if len(w) > 8 * mi:
                            r.violation('phase1::entry_%d' % (t - 1), '%s: %d metadata bits do not fit %d bytes' % (what, nm, mi), key='meta size')
                            raise GiveUp('metadata too long')
                        w += B.inp(nme + 'junk', 8 * mi - len(w))
                        p = I.alloc(st, mi, nme)
                        setmem(st, p, w)
                        args.append(p)
                pos, off = B.inp('pos', 35 if tag == 'K34' else 32), B.inp('off', 10)
                pin = I.alloc(st, 16, 'pin')
                setmem(st, pin, B.zext(pos, 64) + B.zext(off, 64))
                yo, mop, po = I.alloc(st, 8, 'yo'), I.alloc(st, max(mo, 1), 'mo'), I.alloc(st, 16, 'po')
                args += [pin, yo, mop, po]
                ylm = list(reversed(yl))
                data = bytes_msb(ylm + list(ML) + list(MR))
                h = bits_msb(hashed(data))
                ny = k + 6 if t < 7 else k
                ey = B.zext(tuple(reversed(h[:ny])), 64)
                if t < 4:
                    em = list(ML) + list(MR)
                elif t < 7:
                    em = h[k + 6:k + 6 + {4: 4, 5: 3, 6: 2}[t] * k]
                else:
                    em = []
                for s2, kind, v in I.run('fx%d' % t, st, args):
                    if kind != 'ret':
                        noreturn(r, what, where, s2, kind, 'fx noreturn', v)
                        continue
                    fin = [e[2] for e in s2.log if e[0] == 'final']
                    if len(fin) == 1:
                        if len(fin[0]) != len(data):
                            r.violation(where, '%s: %d bytes are hashed, expected %d' % (what, len(fin[0]) // 8, len(data) // 8), key='fx hash length')
                            continue
                        if not compare(r, what + ': hash input', where, fin[0], data, s2.assume, key='fx hash input'):
                            continue
                    compare(r, what + ': value', where, getmem(I, s2, yo, 8), ey, s2.assume, key='fx value')
                    compare(r, what + ': position and offset kept', where, getmem(I, s2, po, 16), B.zext(pos, 64) + B.zext(off, 64), s2.assume, key='fx pos')
                    if em:
                        got = bits_msb(getmem(I, s2, mop, mo))[:len(em)]
                        compare(r, what + ': new metadata', where, tuple(got), tuple(em), s2.assume, key='fx meta')
                r.count('evaluations')
            except Fault as e:
                r.violation(where, '%s: %s' % (what, e), key='fx fault')
            except GiveUp as e:
                r.undecided('%s: %s' % (what, str(e)[:200]))
    r.saw(where, 'phase1::get_meta::operator()', 'phase1::set_meta::operator()')


def sites(r, tag):
    from sa.prog import load
    from sa.engine import Engine, show
    from sa.pipe import PipeCfg, flat
    p = load(tag)
    cfg = lambda: PipeCfg(('phase1::FxCalculator', 'phase1::FxMatcher'))
    for f in p.fns('phase1::compute_matches'):
        try:
            res = [s for s, v in Engine(p, cfg()).run(f) if not s.out]
        except Exception as e:
            r.undecided('compute_matches: %s' % e)
            continue
        done = set()
        for s in res:
            for e, lo in flat(s.ev):
                if e.kind != 'stage' or not (isinstance(e['fn'], tuple) and e['fn'][0] == 'lam') or e['fn'][1] in done:
                    continue
                done.add(e['fn'][1])
                g = p.functions.get(e['fn'][1])
                for s2, v in Engine(p, cfg()).run(g, caps=e['fn']):
                    if s2.out:
                        continue
                    evs = list(flat(s2.ev))
                    ct = {show(x['this']): x for x, li in evs if x.kind == 'call' and x['name'].endswith('FxCalculator::FxCalculator')}
                    for x, li in evs:
                        if x.kind != 'call' or not x['name'].endswith('FxCalculator::evaluate'):
                            continue
                        a, b = [show(y) for y in x['args'][:2]]
                        if a.endswith('.left') and b.endswith('.right') and a[:-5] == b[:-6]:
                            r.ok('evaluate(left, right) of one match (%s)' % x.l)
                        elif a.endswith('.right') and b.endswith('.left') or a == b:
                            r.violation('phase1::compute_matches (%s)' % x.l, 'evaluate(%s, %s): the parents are not passed as (left, right)' % (a, b), key='fx parents')
                        else:
                            r.undecided('evaluate(%s, %s)' % (a, b))
                        c = ct.get(show(x['this']))
                        if c is not None and len(c['args']) == 2:
                            kk, ri = ('sym', 'p:k'), ('sym', 'p:R_index')
                            if c['args'][0] == kk and c['args'][1] == ri:
                                r.ok('FxCalculator(k, table) (%s)' % c.l)
                            elif c['args'][0] == ri and c['args'][1] == kk:
                                r.violation('phase1::compute_matches (%s)' % c.l, 'FxCalculator is built with k and table index exchanged', key='fx ctor')
                            else:
                                r.undecided('FxCalculator(%s)' % ', '.join(map(show, c['args'])))
        r.saw(f['base'])
    for f in p.fns('phase1::compute'):
        try:
            res = [s for s, v in Engine(p, PipeCfg(('phase1::compute_table', 'phase1::compute_f1'))).run(f) if not s.out]
        except Exception as e:
            r.undecided('phase1::compute: %s' % e)
            continue
        for s in res:
            ct = [e for e in s.ev if e.kind == 'call' and e['name'].endswith('phase1::compute_table')]
            idx = [e['args'][0] for e in ct]
            if len(ct) != 6 or not all(isinstance(i, int) for i in idx):
                r.undecided('phase1::compute: table sequence not recognised')
                continue
            if idx != [2, 3, 4, 5, 6, 7]:
                r.violation('phase1::compute', 'tables are computed with function numbers %s' % idx, key='fx index')
            else:
                r.ok('tables 2 to 7 with their own function (%s)' % tag)
        r.saw(f['base'])
