"""C19: plot id and memo belong to the keys of the farmer.

create_plot() is executed abstractly; the calls of the key library are uninterpreted functions, byte vectors are lists of segments.
The id and the memo handed to phase 1 are compared with the terms a farmer uses to find the plot's keys.
"""
from sa.prog import load, REPO
from sa.disk import Bad, Unk, rule
from sa.engine import Engine, L, loc_ext, show, strip_cv, deref_type, is_prefix
from sa.pipe import PipeCfg, flat
from sa.mainprog import options, paths, plots
from sa import terms as T, bits as B
from sa.wit import Witnesses, GiveUp, Fault, State, setmem, getmem
from checks.c12 import PRE as PRE12, Log, started, chunks, packbits, cmp_bytes

TECHNIQUE = 'term abstraction (uninterpreted key functions, byte vectors as segment lists) of create_plot() over all its paths, compared with the reference derivation'
RULE = ('on every path of create_plot the memo given to phase 1 is pool key or puzzle hash, farmer key, master key; the id is the given one or the hash of pool key or puzzle hash and plot key '
        '(local key + farmer key, plus the taproot key for contracts), the local key being m/12381/port/3/0; k, memo, id, name, directories and bucket counts go unchanged through the phases')
NS = 'bls::'


def ghost(loc):
    return ('L', ('gh',) + loc[1:], ())


def isvec(t):
    t = strip_cv(deref_type(t or ''))
    return t.startswith(('std::vector<unsigned char', 'vector<uint8_t', 'std::vector<uint8_t'))


class KeyCfg(PipeCfg):
    keep_paths = True
    join_at = 10**6

    def opaque(self, eng, f):
        return f['base'] in ('phase1::compute', 'phase2::compute', 'phase3::compute', 'phase4::compute', 'get_date_string_ex', 'get_wall_time_micros') or PipeCfg.opaque(self, eng, f)

    # -- contents of byte vectors
    def segs(self, eng, st, loc):
        g = st.store.get(ghost(loc))
        if g is not None:
            return g
        v = eng._read(st, loc)
        if isinstance(v, tuple) and v and v[0] == 'call' and v[1] in ('ser', 'sersk'):
            return ('segs', ((v, 48 if v[1] == 'ser' else 32),))
        if isinstance(v, tuple) and v and v[0] == 'segs':
            return v
        if loc[1][0] == 'o' and not loc[2] and isinstance(loc[1][1], tuple) and str(loc[1][1][1]).startswith('p:'):
            return ('segs', ((('bytes', loc[1][1][1][2:]), None),))
        if isinstance(v, tuple) and v and v[0] == 'rd' and v[2] == 0 and v[1][1][0] == 'o' and v[1] != loc:
            return self.segs(eng, st, v[1])
        n = eng._read(st, loc_ext(loc, ('f', '#n')), 'unsigned long')
        if n == 0:
            return ('segs', ())
        return ('segs', ((('unknown', repr(loc)), None),))

    def setsegs(self, st, loc, v):
        st.store[ghost(loc)] = v

    def rng(self, eng, st, a, b):
        """segments between two iterators"""
        if not all(isinstance(x, tuple) and x and x[0] == 'ptr' for x in (a, b)):
            return None
        la, lb = a[1], b[1]
        for i in range(len(la[2]), -1, -1):
            if la[2][i:i + 1] == (('f', '#b'),) and len(la[2]) == i + 1:
                vec = ('L', la[1], la[2][:i])
                n = eng._read(st, loc_ext(vec, ('f', '#n')), 'unsigned long')
                if lb[:2] == vec[:2] and lb[2][:i + 1] == la[2] and (lb[2][i + 1:] == (('e', n),) or lb[2][i + 1:] == () and n == 0):
                    return self.segs(eng, st, vec)
        return None

    def data(self, eng, st, p, n):
        """segments of n bytes at p"""
        if isinstance(p, tuple) and p and p[0] == 'ptr':
            loc = p[1]
            if loc[2] and loc[2][-1] == ('f', '#b'):
                vec = ('L', loc[1], loc[2][:-1])
                m = eng._read(st, loc_ext(vec, ('f', '#n')), 'unsigned long')
                sg = self.segs(eng, st, vec)
                if m == n:
                    return sg
                if isinstance(n, int) and sg[1] and all(isinstance(k, int) for _, k in sg[1]):
                    out, left = [], n
                    for t, k in sg[1]:
                        if left <= 0:
                            break
                        if k > left:
                            return ('segs', (('part', sg, n),)) if False else None
                        out.append((t, k))
                        left -= k
                    return ('segs', tuple(out)) if left == 0 else None
        return None

    def put(self, eng, st, p, term, n):
        """n bytes described by term are stored at p"""
        if not (isinstance(p, tuple) and p and p[0] == 'ptr'):
            return False
        loc = p[1]
        off = 0
        path = loc[2]
        if path and path[-1][0] in ('e', 'k') and len(path) > 1 and path[-2][0] == 'f' and path[-2][1] in ('#b', '#a'):
            off = path[-1][1]
            path = path[:-1]
        if not path or path[-1] not in (('f', '#b'), ('f', '#a')):
            return False
        tgt = ('L', loc[1], path[:-1])
        if path[-1] == ('f', '#a'):
            if off != 0:
                return False
            self.setsegs(st, tgt, ('segs', ((term, n),)))
            return True
        sg = self.segs(eng, st, tgt)
        out, pos, done = [], 0, False
        if not isinstance(off, int) or not all(isinstance(k, int) for _, k in sg[1]):
            self.setsegs(st, tgt, ('segs', ((('unknown', 'write'), None),)))
            return True
        for t, k in sg[1]:
            if pos + k <= off or pos >= off + n:
                out.append((t, k))
            else:
                if pos < off:
                    out.append((t if t == 'zeros' else ('part', t, 0, off - pos), off - pos))
                if not done:
                    out.append((term, n))
                    done = True
                if pos + k > off + n:
                    r = pos + k - off - n
                    out.append((t if t == 'zeros' else ('part', t, k - r, r), r))
            pos += k
        self.setsegs(st, tgt, ('segs', tuple(out)) if done else ('segs', ((('unknown', 'write'), None),)))
        return True

    def obj(self, eng, st, a):
        return eng._read(st, a[1]) if isinstance(a, tuple) and a and a[0] == 'ptr' else a

    def model2(self, eng, st, name, node, this, args):
        v = None
        if name == NS + 'G1Element::FromByteVector' and len(args) == 1 and args[0][0] == 'ptr':
            st2 = st.fork()
            st2.out = ('throw', 'std::exception', ('exc', name), node.get('l', ''))
            return [(st, ('call', 'g1', self.segs(eng, st, args[0][1]))), (st2, None)]
        if name == NS + 'G1Element::Serialize':
            return [(st, ('call', 'ser', self.obj(eng, st, this)))]
        if name == NS + 'PrivateKey::Serialize':
            return [(st, ('call', 'sersk', self.obj(eng, st, this)))]
        if name == NS + 'PrivateKey::GetG1Element':
            return [(st, ('call', 'pub', self.obj(eng, st, this)))]
        if name == NS + 'operator+' and len(args) == 2:
            xs = []
            for a in args:
                y = self.obj(eng, st, a)
                xs += list(y[2]) if isinstance(y, tuple) and y[:2] == ('call', 'sum') else [y]
            return [(st, ('call', 'sum', tuple(sorted(xs, key=repr))))]
        if name == NS + 'AugSchemeMPL::KeyGen' and len(args) == 1 and args[0][0] == 'ptr':
            return [(st, ('call', 'keygen', self.segs(eng, st, args[0][1])))]
        if name.startswith(NS + 'AugSchemeMPL::DeriveChildSk') and len(args) == 2:
            return [(st, ('call', name.split('::')[-1], self.obj(eng, st, args[0]), args[1]))]
        if name in (NS + 'G1Element::operator=', NS + 'PrivateKey::operator=') and len(args) == 1:
            y = self.obj(eng, st, args[0])
            eng.erase(st, this[1])
            st.store[this[1]] = y
            return [(st, this)]
        if name in (NS + 'G1Element::G1Element', NS + 'PrivateKey::PrivateKey') and this:
            y = self.obj(eng, st, args[0]) if args else ('call', 'zero')
            eng.erase(st, this[1])
            st.store[this[1]] = y
            return [(st, None)]
        if name == NS + 'Util::Hash256' and len(args) == 3:
            d = self.data(eng, st, args[1], args[2])
            h = ('call', 'hash', d if d is not None else ('unknown', 'data'))
            if not self.put(eng, st, args[0], h, 32):
                st.store[('L', ('gh', 'lost'), ())] = 1
            return [(st, None)]
        if name == 'randombytes_buf' and len(args) == 2 and isinstance(args[1], int):
            self.put(eng, st, args[0], ('random', args[1]), args[1])
            return [(st, None)]
        if name in ('memcpy', 'std::memcpy', 'memmove') and len(args) == 3:
            src = args[1]
            t = None
            n = args[2]
            d = self.data(eng, st, src, n)
            if d is not None and len(d[1]) == 1:
                t = d[1][0][0]
                n = d[1][0][1]
            elif isinstance(src, tuple) and src[0] == 'ptr' and isinstance(n, int):
                w = eng._read(st, src[1])
                t = ('le', w, n)
            if t is not None:
                self.put(eng, st, args[0], t, n)
            elif isinstance(args[0], tuple) and args[0][0] == 'ptr':
                self.put(eng, st, args[0], ('unknown', 'memcpy'), n)
            return None
        if name.startswith('std::vector::') and isinstance(this, tuple) and this and this[0] == 'ptr':
            m = name[13:]
            loc = this[1]
            if m == 'vector':
                st.store.pop(ghost(loc), None)
                if args and isinstance(args[0], int):
                    self.setsegs(st, loc, ('segs', (('zeros', args[0]),) if args[0] else ()))
                elif len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'ptr':
                    self.setsegs(st, loc, self.segs(eng, st, args[0][1]))
                elif len(args) == 2 and isinstance(args[0], tuple) and isinstance(args[1], tuple):
                    r = self.rng(eng, st, args[0], args[1])
                    self.setsegs(st, loc, r if r is not None else ('segs', ((('unknown', 'range'), None),)))
                elif not args:
                    self.setsegs(st, loc, ('segs', ()))
            elif m in ('operator=', 'assign') and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'ptr':
                self.setsegs(st, loc, self.segs(eng, st, args[0][1]))
            elif m == 'assign' and len(args) == 2:
                r = self.rng(eng, st, args[0], args[1])
                self.setsegs(st, loc, r if r is not None else ('segs', ((('unknown', 'range'), None),)))
            elif m == 'insert' and len(args) == 3:
                old = self.segs(eng, st, loc)
                r = self.rng(eng, st, args[1], args[2])
                n = eng._read(st, loc_ext(loc, ('f', '#n')), 'unsigned long')
                at = args[0][1][2] if isinstance(args[0], tuple) and args[0][0] == 'ptr' else None
                b = loc[2] + (('f', '#b'),)
                if r is None or at is None:
                    self.setsegs(st, loc, ('segs', ((('unknown', 'insert'), None),)))
                elif at == b + (('e', n),) or at == b and (n == 0 or not old[1]):
                    self.setsegs(st, loc, ('segs', old[1] + r[1]))
                elif at == b:
                    self.setsegs(st, loc, ('segs', r[1] + old[1]))
                else:
                    self.setsegs(st, loc, ('segs', ((('unknown', 'insert'), None),)))
            elif m in ('clear',):
                self.setsegs(st, loc, ('segs', ()))
            elif m not in ('size', 'data', 'begin', 'end', 'empty', 'cbegin', 'cend', 'reserve', 'capacity', '~vector', 'operator[]', 'at', 'front', 'back', 'swap', 'shrink_to_fit'):
                if ghost(loc) in st.store:
                    self.setsegs(st, loc, ('segs', ((('unknown', m), None),)))
            elif m == 'swap':
                self.setsegs(st, loc, ('segs', ((('unknown', m), None),)))
            return None
        if name in ('phase1::compute', 'phase2::compute', 'phase3::compute', 'phase4::compute'):
            vals = []
            for a in args:
                vals.append(a)
            d = {}
            if name == 'phase1::compute' and isinstance(args[0], tuple) and args[0][0] == 'ptr':
                loc = args[0][1]
                d['id'] = st.store.get(ghost(loc_ext(loc, ('f', 'id'))))
                d['memo'] = self.segs(eng, st, loc_ext(loc, ('f', 'memo')))
                d['k'] = eng._read(st, loc_ext(loc, ('f', 'k')), 'int')
                d['pname'] = eng._read(st, loc_ext(loc, ('f', 'plot_name')))
                d['lost'] = st.store.get(('L', ('gh', 'lost'), ()), 0)
            eng.emit(st, 'phase', node.get('l', ''), name=name, vals=tuple(vals), **d)
        return None


def seg1(t, n=None):
    return ('segs', ((t, n),))


def strip(t):
    """without lengths; a key that was parsed and written again is the bytes it came from"""
    if isinstance(t, tuple):
        if t and t[0] == 'segs':
            out = []
            for x, _ in t[1]:
                x = strip(x)
                if isinstance(x, tuple) and x[:2] == ('call', 'ser') and isinstance(x[2], tuple) and x[2][:2] == ('call', 'g1') and x[2][2][0] == 'segs' and len(x[2][2][1]) == 1:
                    x = x[2][2][1][0]
                out.append(x)
            return ('segs', tuple(out))
        return tuple(strip(x) for x in t)
    return t


def has_unknown(t):
    return any(isinstance(x, tuple) and x and (x[0] in ('unknown', 'joined', 'fld', 'rd', 'phi', 'phx') or x[0] == 'sym' and not str(x[1]).startswith('p:')) for x in T.subterms(t))


def segs(*xs):
    return ('segs', tuple(xs))


POOL, PH, FK = ('bytes', 'pool_key_bytes'), ('bytes', 'puzzle_hash_bytes'), ('bytes', 'farmer_key_bytes')
PORT = ('sym', 'p:port')


def ref():
    msk = ('call', 'keygen', segs(('random', 32)))
    l = msk
    for i in (12381, PORT, 3, 0):
        l = ('call', 'DeriveChildSk', l, i)
    lk = ('call', 'pub', l)
    fk = ('call', 'g1', segs(FK))
    add = lambda *x: ('call', 'sum', tuple(sorted(x, key=repr)))
    h = lambda *x: ('call', 'hash', segs(*x))
    ser = lambda x: ('call', 'ser', x)
    base = add(lk, fk)
    tap = ('call', 'pub', ('call', 'keygen', segs(h(ser(base), ser(lk), FK))))
    return {'msk': ('call', 'sersk', msk), 'solo': ser(base), 'pool': ser(add(lk, fk, tap))}


def resort(t):
    if isinstance(t, tuple):
        t = tuple(resort(x) for x in t)
        if t[:2] == ('call', 'sum'):
            return ('call', 'sum', tuple(sorted(t[2], key=repr)))
    return t


def sh(t):
    """short text of a term"""
    if isinstance(t, tuple) and t:
        if t[0] == 'segs':
            return '[' + ', '.join(sh(x) for x in t[1]) + ']'
        if t[0] == 'call':
            return '%s(%s)' % (t[1], ', '.join(sh(x) for x in t[2:]))
        if t[0] == 'bytes':
            return t[1]
        if t[0] in ('random', 'zeros'):
            return '%s' % t[0]
        if t[0] == 'sym':
            return str(t[1]).replace('p:', '')
        return '(' + ', '.join(sh(x) for x in t) + ')'
    return str(t)


def cast_free(t):
    if isinstance(t, tuple):
        if t and t[0] == 'cast' and len(t) == 3:
            return cast_free(t[2])
        return tuple(cast_free(x) for x in t)
    return t


def same(got, want, what, l):
    if got == want:
        return
    if got is None or has_unknown(got):
        raise Unk('%s: %s' % (what, sh(got)[:150]))
    raise Bad('%s is %s instead of %s' % (what, sh(got)[:220], sh(want)[:220]), l)


PARAMS = ('k', 'port', 'plot_id', 'make_unique', 'num_threads', 'log_num_buckets', 'log_num_buckets_3', 'pool_key_bytes', 'puzzle_hash_bytes', 'farmer_key_bytes',
          'tmp_dir', 'tmp_dir_2', 'plot_dir')


def names(f):
    """name in the reference -> name of the parameter (by name, otherwise by position)"""
    have = [q['n'] for q in f['p']]
    if all(n in have for n in PARAMS):
        return {n: n for n in PARAMS}
    if len(have) != len(PARAMS) or any(n in have and have.index(n) != i for i, n in enumerate(PARAMS)):
        raise Unk('parameters of create_plot')
    return dict(zip(PARAMS, have))


class R:
    def __init__(self, p):
        fs = [f for f in p.fns('create_plot') if f.get('b')]
        if len(fs) != 1:
            raise Unk('create_plot')
        self.p, self.f = p, fs[0]
        self.nm = names(self.f)
        self.forced = True        # plots for port 11337 are unique whatever the option says
        global POOL, PH, FK, PORT
        POOL, PH, FK = [('bytes', self.nm[n]) for n in ('pool_key_bytes', 'puzzle_hash_bytes', 'farmer_key_bytes')]
        PORT = ('sym', 'p:' + self.nm['port'])
        self.eng = Engine(p, KeyCfg())
        self.sts = [(s, v) for s, v in self.eng.run(self.f) if not s.out or s.out[0] == 'ret']
        if self.eng.stats['truncated'] or not self.sts:
            raise Unk('paths of create_plot')
        self.calls = []
        for s, v in self.sts:
            c = [e for e, _ in flat(s.ev) if e.kind == 'phase' and e['name'] == 'phase1::compute']
            if len(c) != 1:
                raise Unk('phase 1 is not called once')
            self.calls.append((s, c[0]))

    def empty(self, e, n):
        t = ('rd', ('L', ('o', ('sym', 'p:' + n)), (('f', '#n'),)), 0)
        return e.facts.decide(T.eq(t, 0))

    def truth(self, e, t):
        return e.facts.decide(T.eq(t, 0))


def norm(t):
    return resort(cast_free(strip(t))) if t is not None else None


def memo_rule(x, r):
    rf = ref()
    for s, e in x.calls:
        puz = x.empty(e, x.nm['puzzle_hash_bytes'])
        got = norm(e['memo'])
        r.count('memo_paths')
        a, b = segs(PH, FK, rf['msk']), segs(POOL, FK, rf['msk'])
        if puz is None:
            raise Unk('path does not tell whether there is a contract')
        same(got, b if puz else a, 'the memo', e.l)


def id_rule(x, r):
    rf = ref()
    for s, e in x.calls:
        puz, ex, uq = x.empty(e, x.nm['puzzle_hash_bytes']), x.empty(e, x.nm['plot_id']), x.truth(e, ('sym', 'p:' + x.nm['make_unique']))
        got = norm(e['id'])
        r.count('id_paths')
        if ex is None or e['lost']:
            raise Unk('explicit plot id')
        if ex is False:
            same(got, segs(('bytes', x.nm['plot_id'])), 'the given plot id', e.l)
            continue
        if puz is None:
            raise Unk('path does not tell whether there is a contract')
        if uq is None and any(T.contains(t, ('sym', 'p:' + x.nm['make_unique'])) for t in e.facts.items):
            raise Unk('unique option')
        for u in (True, False) if uq is None else (uq,):         # not tested: the path is taken for both values
            h = ('call', 'hash', segs(POOL if puz else PH, rf['solo'] if puz else rf['pool']))
            hu = ('call', 'hash', segs(h, ('le', PORT, 4)))
            mmx = e.facts.decide(T.eq(PORT, 11337))
            if u is True and mmx is not False:
                x.forced = x.forced and got == segs(hu)
                if mmx and got == segs(hu):
                    continue
            if u is False:
                h = hu
            same(got, segs(h), 'the plot id%s' % ('' if u else ' of a unique plot'), e.l)


def phase_rule(x, r):
    """what is passed from phase to phase"""
    P = {n: ('sym', 'p:' + m) for n, m in x.nm.items()}
    for s, e in x.calls:
        ph = {}
        for y, _ in flat(s.ev):
            if y.kind == 'phase':
                if y['name'] in ph:
                    raise Unk('phase called twice')
                ph[y['name'][:6]] = y
        if len(ph) != 4:
            raise Unk('phases')
        for i in (2, 3, 4):
            if ph['phase%d' % i]['vals'][0] != ph['phase%d' % (i - 1)]['vals'][1]:
                a = ph['phase%d' % i]['vals'][0]
                if any(a == ph['phase%d' % j]['vals'][1] for j in (1, 2, 3, 4)):
                    raise Bad('phase %d does not get the output of phase %d' % (i, i - 1), ph['phase%d' % i].l)
                raise Unk('input of phase %d' % i)
        if e['k'] != P['k']:
            if isinstance(e['k'], int) or e['k'] in P.values():
                raise Bad('k is %s' % show(e['k']), e.l)
            raise Unk('k')
        for i in (1, 2, 3, 4):
            y = ph['phase%d' % i]
            fs = [f for f in x.p.fns('phase%d::compute' % i) if f.get('b') and len(f['p']) == len(y['vals'])]
            if len(fs) != 1:
                raise Unk('phase%d::compute' % i)
            for j, q in enumerate(fs[0]['p']):
                r.count('arguments')
                v = y['vals'][j] if j < len(y['vals']) else None
                if isinstance(v, tuple) and v and v[0] == 'ptr':
                    v2 = v[1][1][1] if v[1][1][0] == 'o' and not v[1][2] else None
                    v = v2 if v2 is not None else v
                n = q['n']
                want = {'num_threads': 'num_threads', 'log_num_buckets': 'log_num_buckets' if i == 1 else 'log_num_buckets_3', 'tmp_dir': 'tmp_dir', 'tmp_dir_2': 'tmp_dir_2', 'plot_dir': 'plot_dir'}.get(n)
                if want:
                    w = P.get(want)
                    vv = v
                    if isinstance(vv, tuple) and vv and vv[0] == 'rd' and vv[1][1][0] == 'o':
                        vv = vv[1][1][1]
                    if vv != w:
                        if vv in P.values():
                            raise Bad('phase %d gets %s as %s' % (i, show(vv), n), y.l)
                        raise Unk('argument %s of phase %d' % (n, i))
                if n == 'plot_name':
                    if v != e['pname'] and not (isinstance(v, tuple) and v == e['pname']):
                        if isinstance(v, tuple) and v and v[0] in ('cat', 'str') and isinstance(e['pname'], tuple) and e['pname'] and e['pname'][0] in ('cat', 'str'):
                            raise Bad('phase %d uses the name %s, the plot is called %s' % (i, show(v)[:80], show(e['pname'])[:80]), y.l)
                        raise Unk('plot name of phase %d' % i)


# ---------------------------------------------------------------- text to bytes
PRE = PRE12.split('#include <chia/phase3.hpp>')[0] + """
#include <chia/util.hpp>
#include <libbech32.h>
static const uint8_t* vf_dp; static uint32_t vf_n; static int vf_enc;
namespace bech32 { DecodedResult decode(const std::string&) { DecodedResult r; r.encoding = vf_enc == 2 ? Bech32m : vf_enc == 1 ? Bech32 : Invalid; r.dp.assign(vf_dp, vf_dp + vf_n); return r; } }
#define main vf_main
#include "chia_plot.cpp"
"""
FUN = {
    'addr': 'uint32_t addr(const uint8_t* dp, uint32_t n, int enc, uint8_t* out) { vf_dp = dp; vf_n = n; vf_enc = enc; const auto h = bech32_address_decode(std::string("xch1")); '
            'for(uint32_t i = 0; i < h.size() && i < 64; ++i) { out[i] = h[i]; } return h.size(); }',
    'hexb': 'uint32_t hexb(const char* s, uint32_t n, uint8_t* out) { const auto h = hex_to_bytes(std::string(s, s + n)); for(uint32_t i = 0; i < h.size() && i < 128; ++i) { out[i] = h[i]; } return h.size(); }',
}


class Text(Log):
    def __init__(self):
        Log.__init__(self)
        self.models['strtol'] = self.models['strtoul'] = self.models['strtoll'] = self.models['__isoc23_strtol'] = self.strtol

        app = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm'
        self.models[app] = lambda I, st, a, rt: [(st, 'ret', a[0])]            # texts of messages do not matter
        self.models['strlen'] = self.strlen
        for n in ('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7reserveEm', '_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
                  '_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
                  '_ZNSt11logic_errorC1EPKc', '_ZNSt13runtime_errorC1EPKc', '_ZNSt16invalid_argumentC1EPKc', '__cxa_free_exception'):
            self.models[n] = lambda I, st, a, rt: [(st, 'ret', None)]
        self.models['__cxa_allocate_exception'] = lambda I, st, a, rt: [(st, 'ret', I.alloc(st, 64, 'exc'))]

    def strlen(self, I, st, a, rt):
        for n in range(1000):
            b = B.cval(getmem(I, st, ('p', a[0][1], a[0][2] + n), 1))
            if b is None:
                raise GiveUp('strlen')
            if b == 0:
                return [(st, 'ret', B.const(n, 64))]
        raise GiveUp('strlen')

    def strtol(self, I, st, a, rt):
        if B.cval(a[2]) != 16:
            raise GiveUp('base of strtol')
        cs = []
        while len(cs) < 8:
            b = getmem(I, st, ('p', a[0][1], a[0][2] + len(cs)), 1)
            if B.cval(b) == 0:
                break
            cs.append(b)
        return [(st, 'ret', B.zext(B.wop('hex', tuple(cs), 8, 0, 255), rt[1]) if len(cs) == 2 else B.wop('hex', tuple(cs), rt[1]))]


def text_rule(r, W, W2):
    c = lambda v: B.const(v, 32)
    where = 'bech32_address_decode'
    try:
        for n, enc in ((52, 2), (52, 1), (52, 0), (51, 2), (53, 2), (0, 2), (32, 2), (60, 2)):
            lg = Text()
            I, st = W.interp('addr', models=lg.models), State()
            I.max_steps = 10**6
            d, o = I.alloc(st, max(n, 1), 'dp'), I.alloc(st, 64, 'out')
            v = [B.zext(B.inp('dp%d' % i, 5), 8) for i in range(n)]
            for i, w in enumerate(v):
                setmem(st, ('p', d[1], d[2] + i), w)
            setmem(st, o, B.const(0, 512))
            outs = I.run('addr', st, [d, c(n), c(enc), o])
            r.count('addresses')
            for s, kind, x in outs:
                if kind == 'giveup':
                    raise GiveUp(str(x)[:150])
                if (n, enc) != (52, 2):
                    if kind != 'throw' and B.sat(s.assume):
                        r.violation(where, 'an address of %d groups%s is accepted' % (n, '' if enc == 2 else ' in an encoding other than Bech32m'), key=where + ' accepts')
                        return
                    continue
                if kind != 'ret':
                    if B.sat(s.assume):
                        r.violation(where, 'a valid address is refused (%s)' % kind, key=where + ' refuses')
                        return
                    raise GiveUp(kind)
                if B.cval(x) != 32:
                    if B.cval(x) is None:
                        raise GiveUp('length')
                    r.violation(where, 'the puzzle hash has %d bytes' % B.cval(x), key=where + ' length')
                    return
                bits = []
                for i, w in enumerate(v):
                    bits += [w[j] for j in ((4, 3, 2, 1, 0) if i < 51 else (4,))]
                if not cmp_bytes(r, where, 'puzzle hash', chunks(getmem(I, s, o, 32)), packbits(bits, 32), s.assume.items()):
                    return
        r.ok(where + ': 51 groups of 5 bits and one bit; everything else refused')
        r.saw(where)
    except Fault as e:
        r.violation(where, str(e), key=where + ' fault')
    except GiveUp as e:
        r.undecided('%s: %s' % (where, str(e)[:150]))
    where = 'hex_to_bytes'
    try:
        for n in (0, 2, 64, 96):
            lg = Text()
            I, st = started(W2, 'hexb', lg)
            d, o = I.alloc(st, max(n, 1), 'str'), I.alloc(st, 128, 'out')
            v = [B.inp('c%d' % i, 8) for i in range(n)]
            for i, w in enumerate(v):
                setmem(st, ('p', d[1], d[2] + i), w)
            setmem(st, o, B.const(0, 1024))
            for s, kind, x in I.run('hexb', st, [d, c(n), o]):
                if kind != 'ret' or B.cval(x) is None:
                    raise GiveUp('%s %s' % (kind, str(x)[:100]))
                if B.cval(x) != n // 2:
                    r.violation(where, '%d digits give %d bytes' % (n, B.cval(x)), key=where + ' length')
                    return
                exp = [B.wop('hex', (v[2*i], v[2*i+1]), 8, 0, 255) for i in range(n // 2)]
                if n and not cmp_bytes(r, where, 'bytes of %d digits' % n, chunks(getmem(I, s, o, n // 2)), exp, s.assume.items()):
                    return
            r.count('texts')
        r.ok(where + ': byte i is digits 2i and 2i+1')
        r.saw(where)
    except Fault as e:
        r.violation(where, str(e), key=where + ' fault')
    except GiveUp as e:
        r.undecided('%s: %s' % (where, str(e)[:150]))


OPTS = {'k': 'size', 'port': 'port', 'make_unique': 'unique', 'num_threads': 'threads', 'pool_key_bytes': 'poolkey', 'puzzle_hash_bytes': 'contract', 'farmer_key_bytes': 'farmerkey', 'plot_id': 'id'}


def option_rule(p, r, x):
    """every plot is made with the values given on the command line"""
    f, o = options(p)
    g = [q for q in p.fns('create_plot') if q.get('b')]
    if len(g) != 1:
        raise Unk('create_plot')
    nm = names(g[0])
    pos = {q['n']: i for i, q in enumerate(g[0]['p'])}
    und = None
    allopts = set(o.values())
    for n, on in OPTS.items():
        if on not in o:
            und = und or 'option %s' % on
            continue
        S = o[on]
        c, sts, e = paths(p, f, {S, o['port']} if n == 'make_unique' and 'port' in o else {S})
        if e.stats['truncated']:
            und = und or 'paths'
            continue
        for s, _ in sts:
            for y, _ in plots(s):
                r.count('plot_calls')
                i = pos[nm[n]]
                if i >= len(y['vals']):
                    und = und or 'argument %s' % n
                    continue
                v = y['vals'][i]
                if isinstance(v, tuple) and v[0] == 'ref':
                    if isinstance(v[2], int) and v[2] == 0 and n in ('plot_id', 'pool_key_bytes', 'puzzle_hash_bytes'):
                        continue                       # whether it may be missing is C17
                    v = v[1]
                v = cast_free(v)
                want = S
                if n in ('pool_key_bytes', 'farmer_key_bytes', 'plot_id'):
                    want = ('call', 'hex', (S,))
                elif n == 'puzzle_hash_bytes':
                    want = ('call', 'bech32', (S,))
                if n == 'make_unique' and 'port' in o:
                    mmx = y.facts.decide(T.eq(o['port'], 11337))
                    if v == 1 and mmx is not False:
                        if mmx is None:
                            und = und or 'unique option'
                        continue
                    if v == S and mmx is not False:
                        if not x.forced and (mmx or not any(T.contains(t, o['port']) for t in y.facts.items)):
                            raise Bad('a plot for port 11337 is not made unique', y.l)
                        und = und or 'unique option'
                        continue
                if v == want:
                    continue
                other = [k for k, t in o.items() if len(k) > 1 and t != S and isinstance(v, tuple) and v in (t, ('call', 'hex', (t,)), ('call', 'bech32', (t,)))]
                if other or isinstance(v, int):
                    raise Bad('a plot is created with %s as %s instead of the option %s' % ('the option ' + other[0] if other else v, n, on), y.l)
                und = und or 'value of %s' % n
    if und:
        raise Unk(und)


def check(r, tier):
    r.rule = RULE
    for tag in ('K32', 'K34') if tier != 'quick' else ('K32',):
        p = load(tag)
        try:
            x = R(p)
        except Unk as e:
            r.undecided('%s: %s' % (tag, e))
            continue
        r.saw('create_plot')
        r.count('paths', len(x.sts))
        go = lambda what, fn: rule(r, '%s, %s' % (what, tag), 'src/chia_plot.cpp: create_plot', what, fn)
        go('memo', lambda: memo_rule(x, r))
        go('plot id', lambda: id_rule(x, r))
        go('parameters of the phases', lambda: phase_rule(x, r))
        rule(r, 'arguments of create_plot, %s' % tag, 'src/chia_plot.cpp: main', 'the options', lambda: option_rule(p, r, x))
    text_rule(r, Witnesses(PRE, {'addr': FUN['addr']}, 'c19a', extra=['-I' + REPO + '/src', '-DGIT_COMMIT_HASH="x"']), Witnesses(PRE.split('#define main')[0], {'hexb': FUN['hexb']}, 'c19h'))
