"""C09: disk sort returns every record exactly once, in key order, with its rank."""
import re
from sa.disk import *
from sa.pipe import flat
from sa.prog import walk
from sa.engine import is_prefix, fld

TECHNIQUE = 'path-sensitive dataflow over the generic DiskSort instance (uninterpreted record and key): record positions, fill levels, counts and ranks compared as terms on every path and loop'
RULE = ('add(): the record is serialised exactly once, at fill level * record size of the buffer selected by the key shifted right, which is range-checked; the level is advanced; '
        'a full buffer is first written whole to the bucket of the same number and emptied. Writing a bucket advances its record count by what was written. flush(), finish() and '
        'cache destruction write and empty every non-empty buffer, finish() before closing the buckets. read(): all buckets in order with the running sum of record counts; a bucket is read '
        'completely in chunks no larger than the buffer, each record goes to exactly one block by the shifted key, blocks are emitted in ascending order with the running rank; every block is '
        'sorted as a whole with the key as the only criterion and passed on once, with its rank')
H = 'include/chia/DiskSort.hpp: '


class Walk:
    """follows a buffer along a path: puts and file writes"""

    def __init__(self, facts, store, what):
        self.facts, self.store, self.what = facts, store, what


def fwrites(evs):
    return [e for e in evs if e.kind == 'call' and e['name'] in ('fwrite', 'fwrite_unlocked')]


def buf_of(pv, l):
    """element (buffer) a data pointer belongs to"""
    root, i = ptr(pv)
    if not (isinstance(root, tuple) and root[0] == 'rd'):
        raise Unk('buffer %s' % show(root)[:100])
    el = element(root[1])
    if el is None:
        raise Unk('buffer is not an element of a vector: %s' % show(root)[:100])
    return root, i, el


def level_field(store, elem, skip=()):
    """scalar members of the buffer changed on the path"""
    return [k for k in store if isinstance(k, tuple) and k and k[0] == 'L' and is_prefix(elem, k) and len(k[2]) == len(elem[2]) + 1]


def entry_value(facts, store0, loc, ep):
    return ('rd', loc, ep)


def check_write(e, root, ix, level, facts, store, ne):
    """one fwrite of a buffer: whole content, right bucket, count advanced -> None"""
    data, size, n, file = e['args'][:4]
    r2, i2 = ptr(data)
    if r2 != root:
        raise Unk('written data is not the buffer: %s' % show(data)[:80])
    want(i2, 0, 'the buffer is not written from its start', e.l, facts)
    want(T.mul(size, n), T.mul(DISK, level), 'the buffer is not written completely', e.l, facts)
    if not (isinstance(file, tuple) and file[0] == 'rd'):
        raise Unk('file %s' % show(file)[:80])
    el = element(file[1])
    if el is None:
        raise Unk('file is not a bucket member: %s' % show(file)[:80])
    want(el[1], ix, 'the buffer is written to a different bucket', e.l, facts)
    if not any(k[1] == file[1][1] or k[1][0] == 'g' for k in e.locks):
        raise Bad('a bucket is written without holding a lock of the sorter, so that caches used by different threads can interfere', e.l)
    if ne:
        loc = loc_ext(el[2], *ne)
        v = store.get(loc)
        if v is None:
            # not changed at all, unless its record lives elsewhere
            raise Bad('the record count of the bucket is not advanced', e.l)
        atoms = [a for a in T.atoms(v) if is_rd(a) and a[1] == loc]
        if len(atoms) != 1:
            raise Unk('record count %s' % show(v)[:100])
        want(T.sub(v, atoms[0]), level, 'the record count of the bucket is not advanced by what was written', e.l, facts)


def nofile(facts, ix):
    """the path knows that the bucket has no open file: the sorter is not accepting data"""
    return any(f[0] == 'eq' and is_rd(f[1]) and (element(f[1][1]) or (0, 0))[1] == ix for f in facts.items)


def add_rule(p, ne):
    fs = p.fns('DiskSort::WriteCache::add')
    if not fs:
        raise Unk('WriteCache::add not found')
    paths = normal(Engine(p, DiskCfg()), fs[0])
    if not paths:
        raise Unk('no normal path')
    flush_after = False
    info = {}
    pend = []
    for s, v in paths:
        puts = [(e, lo) for e, lo in flat(s.ev) if e.kind == 'put']
        if any(lo for e, lo in puts):
            raise Unk('record stored in a loop')
        if len(puts) != 1:
            raise Bad('on a path that returns normally the record is stored %d times' % len(puts), fs[0]['l'])
        put = puts[0][0]
        root, pos, (vec, ix, elem, _) = buf_of(put['dst'], put.l)
        rec = put['rec']
        key = ('call', 'key', (rec,))
        # which buffer
        if isinstance(ix, tuple) and ix[0] == 'op' and ix[1] == '>>' and ix[2] == key:
            info['shift'] = ix[3]
        elif not T.contains(ix, key):
            raise Bad('the buffer does not depend on the key of the record', put.l)
        elif isinstance(ix, tuple) and ix[0] == 'op' and ix[1] in ('&', '%'):
            raise Bad('a key that is too large is stored under a wrong bucket instead of being rejected', put.l)
        else:
            raise Unk('bucket index %s' % show(ix)[:100])
        n = size_of(vec)
        lt = proves_lt(s.facts, ix, n)
        if lt is not True:
            if lt is False or not any(fc[0] in ('le', 'eq', 'ne') and (ix,) in T.parts(fc[1])[1] or fc[0] not in ('le', 'eq', 'ne') and T.contains(fc, ix) and not is_rd(fc[1])
                                 for fc in s.facts.items):
                raise Bad('a key that does not fit is not rejected', put.l)
            dn = [x for f in s.facts.items for x in T.subterms(f) if is_rd(x) and x[1][2][-1:] == (('f', '#n'),)]
            if not any(proves_lt(s.facts, ix, x) for x in dn):
                raise Unk('range check of the bucket index not understood')
        # fill level
        ch = level_field(s.store, elem)
        if len(ch) != 1:
            if not ch:
                raise Bad('the fill level of the buffer is not advanced', put.l)
            raise Unk('several members of the buffer change')
        X = ch[0]
        level = ('rd', X, 0)
        wrote = 0
        for e, lo in flat(s.ev):
            if e.kind == 'put':
                if eqv(pos, T.mul(DISK, level), s.facts) is False and eqv(pos, 0) and not wrote:
                    # buffer restarted without writing it
                    if nofile(s.facts, ix) or eqv(level, 0, s.facts):
                        level = 0      # no open file: the sorter is not accepting data
                    else:
                        raise Bad('the content of the buffer is discarded', e.l)
                want(pos, T.mul(DISK, level), 'the record is not stored behind the previous one', e.l, s.facts)
                if level != 0:
                    pend.append((s.facts, level, elem, X, e.l))
                level = T.add(level, 1)
            elif e in fwrites([e]):
                if lo:
                    raise Unk('buffer written in a loop')
                check_write(e, root, ix, level, s.facts, s.store, ne)
                if level != ('rd', X, 0):
                    flush_after = True
                level = 0
                wrote += 1
        if level != 0 and not wrote and eqv(s.store[X], 0) is True and nofile(s.facts, ix):
            level = 0
        want(s.store[X], level, 'the fill level does not match the content of the buffer', put.l, s.facts)
    for facts, level, elem, X, l in pend:
        best = None
        for f in facts.items:
            for x in T.subterms(f):
                if is_rd(x) and is_prefix(elem, x[1]) and x[1] != X and len(x[1][2]) == len(elem[2]) + 1:
                    q = proves_lt(facts, level, x)
                    best = q if best is None or q else best
        if best is None and not flush_after:
            for f in facts.items:
                if f[0] == 'le' and T.contains(f, level):
                    best = 'x'
            if best is None:
                raise Bad('a full buffer is not written before the next record is stored', l)
        elif best is False:
            raise Bad('a record is stored behind the end of the full buffer', l)
    return info


def flush_body(lp, ev, ne, l):
    """every iteration of a flush loop writes and empties the buffer it looks at; -> vector"""
    vec = None
    for p in lp['paths']:
        if p.out and p.out[0] == 'throw':
            continue
        if p.out:
            raise Bad('flushing stops before all buffers were looked at', lp.l)
        ws = fwrites(p.ev)
        if len(ws) > 1:
            raise Unk('several writes')
        if ws:
            root, i, (v, ix, elem, _) = buf_of(ws[0]['args'][0], lp.l)
            n = ws[0]['args'][2]
            X = [x for x in T.atoms(n) if is_rd(x) and is_prefix(elem, x[1])]
            if len(X) != 1:
                raise Unk('number of records %s' % show(n)[:80])
            check_write(ws[0], root, ix, X[0], p.facts, p.store, ne)
            it = ('it', lp['id'])
            want(ix, it, 'not every buffer is written', ws[0].l, p.facts)
            want_count(lp, size_of(v), 'not every buffer is written')
            end = p.store.get(X[0][1])
            if end is None:
                raise Bad('the buffer is not emptied after it was written: its records are written again', ws[0].l)
            want(end, 0, 'the buffer is not emptied after it was written', ws[0].l, p.facts)
            if vec not in (None, (v, X[0][1][2][-1])):
                raise Unk('different buffers')
            vec = (v, X[0][1][2][-1])
    if vec is None:
        return None
    for p in lp['paths']:
        if p.out or fwrites(p.ev):
            continue
        # nothing written: must be empty (or no open file)
        elem = loc_ext(vec[0], ('f', '#b'), ('e', ('it', lp['id'])))
        X = loc_ext(elem, vec[1])
        ok = False
        for f in p.facts.items:
            for x in T.subterms(f):
                if is_rd(x) and x[1] == X and p.facts.range(x)[1] <= 0:
                    ok = True
        if not ok:
            nofile = any(f[0] == 'eq' and is_rd(f[1]) and element(f[1][1]) and element(f[1][1])[0] != vec[0] for f in p.facts.items)
            if not nofile:
                raise Bad('a buffer that is not empty is not written', lp.l)
    return vec


def flush_rule(p, name, ne):
    fs = p.fns(name)
    if not fs or fs[0].get('b') is None or fs[0].get('implicit') or fs[0].get('defaulted'):
        raise Bad('%s does not write what is left in the buffers' % name, '')
    for s, v in normal(Engine(p, DiskCfg()), fs[0]):
        found = None
        for e in s.ev:
            if e.kind == 'loop' and any(fwrites(q.ev) for q in e['paths']):
                found = flush_body(e, s.ev, ne, fs[0]['l'])
        if found is None:
            if any(f_ for e, lo in flat(s.ev) for f_ in fwrites([e])):
                raise Unk('buffers are written in a way that is not understood')
            if s.facts.items:
                raise Unk('a path writes nothing under a condition: %s' % [show(x)[:60] for x in s.facts.items][:2])
            raise Bad('%s does not write what is left in the buffers' % name, fs[0]['l'])
    return found


def finish_rule(p, ne):
    fs = p.fns('DiskSort::finish')
    if not fs:
        raise Unk('finish not found')
    for s, v in normal(Engine(p, DiskCfg()), fs[0]):
        fl = cl = None
        for i, e in enumerate(s.ev):
            if e.kind != 'loop':
                continue
            if any(fwrites(q.ev) for q in e['paths']):
                flush_body(e, s.ev, ne, fs[0]['l'])
                fl = i
            if any(x.kind == 'call' and x['name'] == 'fclose' for q in e['paths'] for x in q.ev):
                cl = i if cl is None else cl
                for q in e['paths']:
                    if q.out and q.out[0] != 'throw':
                        raise Bad('not every bucket is closed', e.l)
                a = [x['args'][0] for q in e['paths'] for x in q.ev if x.kind == 'call' and x['name'] == 'fclose']
                el = element(a[0][1]) if isinstance(a[0], tuple) and a[0][0] == 'rd' else None
                if el and e.get('raw_bound') is not None:
                    want(el[1], ('it', e['id']), 'not every bucket is closed', e.l)
                    want_count(e, size_of(el[0]), 'not every bucket is closed')
        if fl is None:
            raise Bad('the records left in the write cache are not written', fs[0]['l'])
        if cl is None:
            raise Bad('the bucket files are not closed before they are read', fs[0]['l'])
        if cl < fl:
            raise Bad('the bucket files are closed before the write cache is flushed', fs[0]['l'])


def buffer_rule(p):
    """the memory of a buffer holds as many records as it claims"""
    fs = [f for f in p.fns('byte_buffer_t::byte_buffer_t') if f.get('b') is not None and len(f['p']) == 1 and '&' not in f['p'][0]['t']]
    if not fs:
        raise Unk('buffer type')
    for s, v in normal(Engine(p, DiskCfg()), fs[0]):
        this = ('o', ('sym', 'this'))
        mem = {k: x for k, x in s.store.items() if isinstance(k, tuple) and k and k[0] == 'L' and k[1] == this and len(k[2]) == 1}
        news = [e for e in s.ev if e.kind == 'new' and any(x == ('ptr', e['loc']) for x in mem.values())]
        arg = ('sym', 'p:' + fs[0]['p'][0]['n'])
        caps = [x for x in mem.values() if T.numericish(x) and T.contains(x, arg)]
        if len(news) != 1 or len(caps) != 1 or not T.numericish(news[0]['n']):
            raise Unk('members of the buffer')
        d = T.sub(news[0]['n'], T.mul(DISK, caps[0]))
        if d == 0 or s.facts.range(d)[0] >= 0:
            continue
        if vague(d):
            raise Unk('buffer size')
        raise Bad('the memory of a buffer is smaller than its capacity in records (%s bytes for %s records of %d bytes)' % (show(news[0]['n'])[:60], show(caps[0])[:60], DISK), news[0].l)


def stage_fn(p, e):
    """(function, keyword arguments for Engine.run, index of the first item parameter) of a stage"""
    fn = e['fn']
    if isinstance(fn, tuple) and fn[0] == 'lam':
        return p.functions.get(fn[1]), {'caps': fn}
    if isinstance(fn, tuple) and fn[0] == 'bind' and isinstance(fn[1], tuple) and fn[1][0] == 'fn':
        g = p.functions.get(fn[1][1])
        if fn[2] and fn[2][1:] == tuple(('ph', i + 1) for i in range(len(fn[2]) - 1)):
            return g, {}
    raise Unk('stage function %s' % show(fn)[:80])


def pair_of(v):
    if isinstance(v, tuple) and v[0] == 'mk' and len(v[2]) == 2:
        return v[2]
    if isinstance(v, tuple) and v[0] == 'obj':
        return fld(v, (('f', 'first'),)), fld(v, (('f', 'second'),))
    if isinstance(v, tuple) and v[0] in ('rd', 'fld'):
        return fld(v, (('f', 'first'),)), fld(v, (('f', 'second'),))
    raise Unk('pair %s' % show(v)[:80])


def running_sum(lp, v, init, what, l):
    """v is the value of a variable that starts at init and grows by a per-iteration amount after its use -> amount on each continuing path"""
    if not (isinstance(v, tuple) and v[0] == 'phi' and v[1] == lp['id']):
        it = ('it', lp['id'])
        if T.numericish(v) and T.contains(v, it):
            # closed form: constant step
            base = T.subst(v, {it: 0})
            want(base, init, what + ' does not start at the right value', l)
            return [T.sub(T.subst(v, {it: T.add(it, 1)}), v)]
        if eqv(v, init) is True:
            return [0]
        raise Unk('%s: %s' % (what, show(v)[:100]))
    loc = v[2]
    i0 = lp['mods'].get(loc, (None, None))[0]
    want(i0, init, what + ' does not start at the right value', l)
    out = []
    for q in lp['paths']:
        if q.out:
            continue
        a, b = q.ends.get(loc, (None, None))
        if b is None:
            raise Unk(what)
        out.append(T.sub(b, v))
    return out


def read_rule(p, res):
    fs = p.fns('DiskSort::read')
    if not fs:
        raise Unk('DiskSort::read not found')
    f = fs[0]
    outp = None
    for q in f['p']:
        if 'Processor<' in q['t']:
            outp = ('rd', L(('o', ('sym', 'p:' + q['n']))), 0) if q['t'].endswith('&') else ('sym', 'p:' + q['n'])
    paths = normal(Engine(p, DiskCfg()), f)
    if not paths:
        raise Unk('no normal path')
    for s, v in paths:
        st = {}
        for e, lo in flat(s.ev):
            if e.kind == 'stage':
                if lo:
                    raise Unk('stage built in a loop')
                st[show(e['loc'])] = e
        takes = [(e, lo) for e, lo in flat(s.ev) if e.kind == 'take']
        if not takes:
            if s.facts.items and any('#n' in show(x) for x in s.facts.items):
                continue
            raise Bad('no bucket is read', f['l'])
        heads = {show(e['to'])[1:] for e, lo in takes}
        if len(heads) != 1:
            raise Unk('several stages are fed')
        head = heads.pop()
        if head not in st:
            raise Unk('stage %s not found' % head)
        # buckets in order, each once
        if len(takes) != 1 or len(takes[0][1]) != 1:
            raise Unk('hand-over of buckets not understood')
        tk, (lp,) = takes[0]
        for q in lp['paths']:
            if q.out and q.out[0] != 'throw':
                raise Bad('reading stops before the last bucket', lp.l)
            if not q.out and not any(x.kind == 'take' for x in q.ev):
                # skipping is fine only for empty buckets
                emp = [x for fct in q.facts.items for x in T.subterms(fct) if is_rd(x) and element(x[1]) and q.facts.range(x)[1] <= 0]
                if not emp:
                    raise Bad('a bucket that may hold records is skipped', lp.l)
        a, b = pair_of(tk['val'])
        want(a, ('it', lp['id']), 'buckets are not read one after the other from the first', tk.l)
        # the running rank
        steps = running_sum(lp, b, 0, 'the rank of the first record', tk.l)
        ne = None
        for d in steps:
            if isinstance(d, tuple) and d[0] == 'rd' and element(d[1]):
                vec, ix, elem, rest = element(d[1])
                want(ix, ('it', lp['id']), 'the rank does not grow by the number of records of the same bucket', lp.l)
                want_count(lp, size_of(vec), 'not all buckets are read')
                ne = rest
            elif d == 0 or isinstance(d, int):
                raise Bad('the rank does not grow by the number of records of the bucket', lp.l)
            else:
                raise Unk('rank step %s' % show(d)[:80])
        if ne is None:
            raise Unk('rank')
        res['ne'] = ne
        res['vec'] = vec
        # the stages: reader -> ... -> output, every stage passes on what it gets
        rd = st[head]
        res['reader'] = rd
        chain, cur, guard = [], rd, 0
        while True:
            guard += 1
            o = cur.get('out')
            if cur['cls'] == 'Thread' or o in (0, None):
                g, kw = stage_fn(p, cur)
                nxt = forward_rule(p, g, kw)
                chain.append((cur, 'forward'))
            else:
                nxt = o
                chain.append((cur, 'pool'))
            k = show(nxt)[1:] if isinstance(nxt, tuple) and nxt[0] == 'ptr' else None
            if k in st and guard < 8:
                cur = st[k]
                continue
            res['end'] = nxt
            if nxt == 0 or nxt is None:
                raise Bad('the last stage has no output', f['l'])
            if outp is not None and nxt != outp and show(nxt) not in (show(outp), '&' + show(outp)) and not vague(nxt):
                if 'output' not in show(nxt) and 'p:' not in show(nxt):
                    raise Unk('end of the pipeline: %s' % show(nxt)[:60])
            break
        res['chain'] = chain


def forward_rule(p, g, kw):
    """a stage without result hands on every element of its input, in order, exactly once -> where to"""
    dst = None
    item = ('o', ('sym', 'p:' + g['p'][0]['n']))
    for s, v in normal(Engine(p, DiskCfg()), g, **kw):
        tk = [(e, lo) for e, lo in flat(s.ev) if e.kind == 'take']
        if not tk:
            raise Bad('a path of the stage passes nothing on', g['l'])
        if len(tk) != 1:
            raise Unk('stage hands over at several places')
        e, lo = tk[0]
        if len(lo) != 1:
            raise Unk('stage does not loop over its input')
        lp = lo[0]
        for q in lp['paths']:
            if q.out and q.out[0] != 'throw':
                raise Bad('the stage stops before the last block', lp.l)
            if not q.out and not any(x.kind == 'take' for x in q.ev):
                emp = [x for fct in q.facts.items for x in T.subterms(fct) if is_rdf(x) and '#n' in show(x) and q.facts.range(x)[1] <= 0]
                if not emp:
                    raise Bad('the stage drops a block', lp.l)
        rf = e['ref']
        el = element(rf[1]) if isinstance(rf, tuple) and rf[0] == 'ptr' else None
        if el is None and isinstance(e['val'], tuple) and e['val'][0] == 'rd':
            el = element(e['val'][1])
        if el is None or el[0][1] != item:
            raise Unk('what the stage hands over: %s' % show(e['val'])[:80])
        want(el[1], ('it', lp['id']), 'blocks are not passed on in order from the first', e.l)
        b = lp['bound']
        if not (isinstance(b, tuple) and b[0] == 'rd' and b[1] == loc_ext(el[0], ('f', '#n'))):
            want_count(lp, size_of(el[0]), 'not every block is passed on')
        dst = e['to']
    return dst


def sort_rule(p, res):
    """the stage between reader and output sorts each block as a whole and keeps its rank"""
    n = 0
    for e, kind in res['chain'][1:]:
        if kind != 'pool':
            continue
        g, kw = stage_fn(p, e)
        if len(g['p']) < 2:
            raise Unk('stage parameters')
        pin, pout = ('o', ('sym', 'p:' + g['p'][0]['n'])), L(('o', ('sym', 'p:' + g['p'][1]['n'])))
        first = L(pin, ('f', 'first'))
        for s, v in normal(Engine(p, DiskCfg()), g, **kw):
            so = [x for x, lo in flat(s.ev) if x.kind == 'sort']
            small = any(is_rd(x) and x[1] == loc_ext(first, ('f', '#n')) and s.facts.range(x)[1] <= 1
                        for fct in s.facts.items for x in T.subterms(fct))
            if not so:
                if small:
                    continue
                raise Bad('a block is passed on without being sorted', g['l'])
            ok = False
            for x in so:
                a, b = x['first'], x['last']
                if not (isinstance(a, tuple) and a[0] == 'ptr' and isinstance(b, tuple) and b[0] == 'ptr'):
                    raise Unk('sorted range')
                ea, eb = element(a[1]), element(b[1])
                if ea is None or eb is None or ea[0] != first:
                    raise Unk('sorted range is not the block: %s' % show(a)[:60])
                want(ea[1], 0, 'the block is not sorted from its first record', x.l)
                want(eb[1], size_of(first), 'the block is not sorted to its last record', x.l)
                compare_rule(p, x, g)
                ok = True
            # handed on: records and rank
            o = s.store.get(pout)
            if o is None:
                of = s.store.get(loc_ext(pout, ('f', 'first')))
                os_ = s.store.get(loc_ext(pout, ('f', 'second')))
            else:
                of, os_ = pair_of(o)
                of = s.store.get(loc_ext(pout, ('f', 'first')), of)
                os_ = s.store.get(loc_ext(pout, ('f', 'second')), os_)
            if of is None:
                raise Bad('the sorted block is not passed on', g['l'])
            if os_ is None:
                raise Bad('the rank of the block is not passed on', g['l'])
            want(os_, ('rd', L(pin, ('f', 'second')), 0), 'the rank of the block is changed', g['l'])
            n += 1
    if not n:
        raise Unk('no sorting stage found')


def compare_rule(p, x, g):
    """strict comparison of the keys, ascending"""
    c = x['cmp']
    if isinstance(c, tuple) and c[0] == 'ptr':
        raise Unk('comparison')
    if not (isinstance(c, tuple) and c[0] == 'lam'):
        raise Unk('comparison %s' % show(c)[:60])
    f = p.functions.get(c[1])
    a, b = [('call', 'key', (('rd', L(('o', ('sym', 'p:' + q['n']))), 0),)) for q in f['p'][:2]]
    res = Engine(p, DiskCfg()).run(f, caps=c)
    for s, v in res:
        if s.out and s.out[0] == 'throw':
            continue
        if v is None and s.out:
            v = s.out[1]
        if v == T.lt(a, b):
            continue
        if isinstance(v, int):
            # decided on the path
            r = s.facts.decide(T.lt(a, b))
            if r == v:
                continue
            raise Unk('comparison result')
        if v in (T.lt(b, a), T.le(b, a)):
            raise Bad('records are sorted in descending order', f['l'])
        if v == T.le(a, b):
            raise Bad('the comparison is not a strict order', f['l'])
        raise Unk('comparison %s' % show(v)[:80])


def type_of(f, loc):
    """declared type of the local variable a location is rooted in"""
    if loc[1][0] != 'v':
        return None
    for n in walk(f['b']):
        if n['k'] == 'Decl':
            for d in n.get('d', []):
                if d.get('id') == loc[1][1]:
                    return d.get('t')
    return None


def bucket_rule(p, res):
    """the reader reads a whole bucket and emits its blocks in order"""
    g, kw = stage_fn(p, res['reader'])
    if len(g['p']) != 3:
        raise Unk('parameters of the reader')
    pin = ('o', ('sym', 'p:' + g['p'][0]['n']))
    pout = L(('o', ('sym', 'p:' + g['p'][1]['n'])))
    pbuf = ('o', ('sym', 'p:' + g['p'][2]['n']))
    num = ('rd', loc_ext(res['vec'], ('f', '#b'), ('e', ('rd', L(pin, ('f', 'first')), 0)), *res['ne']), 0)
    eng = Engine(p, DiskCfg())
    paths = normal(eng, g, **kw)
    if not paths:
        raise Unk('no normal path')
    for s, v in paths:
        opens = [e for e in s.ev if e.kind == 'call' and e['name'] == 'fopen']
        if len(opens) != 1:
            raise Unk('%d files opened' % len(opens))
        op = opens[0]
        if not (isinstance(op['args'][1], tuple) and op['args'][1][0] == 'str' and op['args'][1][1].startswith('r')):
            if isinstance(op['args'][1], tuple) and op['args'][1][0] == 'str':
                raise Bad('the bucket is opened with mode "%s"' % op['args'][1][1], op.l)
            raise Unk('file mode')
        fname = op['args'][0]
        el = element(fname[1]) if isinstance(fname, tuple) and fname[0] == 'rd' else None
        if el:
            want(el[1], ('rd', L(pin, ('f', 'first')), 0), 'a different bucket is opened', op.l)
        # the reading loop
        lps = [e for e in s.ev if e.kind == 'loop' and any(x.kind == 'call' and x['name'] == 'fread' for x, lo in flat(tuple(y for q in e['paths'] for y in q.ev)))]
        if len(lps) != 1:
            if not lps and null_fact(s.facts, num):
                continue
            if any(e.kind == 'call' and e['name'] == 'fread' for e in s.ev):
                raise Unk('bucket read at once')
            raise Unk('%d reading loops' % len(lps))
        lp = lps[0]
        pushed = None
        for q in lp['paths']:
            if q.out and q.out[0] == 'throw':
                continue
            if q.out:
                raise Bad('reading the bucket stops early', lp.l)
            fr = [x for x in q.ev if x.kind == 'call' and x['name'] == 'fread']
            if len(fr) != 1:
                raise Unk('%d reads per iteration' % len(fr))
            d, sz, m, fil = fr[0]['args'][:4]
            if sz == 1:
                m = T.div(m, DISK)
            else:
                want(sz, DISK, 'record size', fr[0].l)
            droot, di = ptr(d)
            # cursor: a variable that starts at 0 and grows by m
            cur = None
            for loc, (i0, cl) in lp['mods'].items():
                if cl is not None:
                    continue
                a, b = q.ends.get(loc, (None, None))
                if b is None or not T.numericish(b):
                    continue
                ph = ('phi', lp['id'], loc)
                if T.contains(m, ph) or any(T.contains(fct, ph) and T.contains(fct, num) for fct in q.facts.items):
                    cur = (ph, i0, T.sub(b, ph))
                    break
            if cur is None:
                raise Unk('position within the bucket')
            ph, i0, step = cur
            if eqv(i0, 0) is True:
                left = T.sub(num, ph)
                want(step, m, 'the position advances by a different number of records than were read', lp.l, q.facts)
                end = (ph, num)
            elif eqv(i0, num) is True:
                left = ph
                want(step, T.scale(m, -1), 'the remaining count decreases by a different number of records than were read', lp.l, q.facts)
                end = (0, ph)
            else:
                want(i0, 0, 'reading does not start at the first record', lp.l)
                raise Unk('cursor')
            # chunk no larger than what is left and than the buffer; never an endless or partial loop
            if isinstance(m, tuple) and m[0] == 'call' and m[1] in ('min', 'std::min') or (isinstance(m, tuple) and m[0] == 'min'):
                ar = m[2] if m[0] == 'call' else m[1:]
                if left not in ar and not any(eqv(x, left, q.facts) for x in ar):
                    raise Bad('a chunk is not limited to the records left in the bucket', fr[0].l)
                cap = [x for x in ar if x != left]
                if cap and isinstance(cap[0], tuple) and cap[0][0] == 'rd' and cap[0][1][1] != pbuf and not vague(cap[0]):
                    raise Unk('buffer size %s' % show(cap[0])[:60])
            else:
                lo_, hi_ = q.facts.range(T.sub(m, left))
                if hi_ > 0:
                    raise Unk('chunk size %s' % show(m)[:80])
            # exit only when everything was read: the loop goes on exactly while position < count
            ex = [fct for fct in q.facts.items if T.contains(fct, ph) and T.contains(fct, num)]
            lt = T.lt(*end)
            if ex:
                for fct in ex:
                    if fct[0] == 'le' and fct != lt:
                        dd = T.sub(fct[1], lt[1]) if lt[0] == 'le' else None
                        if isinstance(dd, int) and dd > 0:
                            raise Bad('the loop ends while records of the bucket are left', lp.l)
            # every record of the chunk
            ins = [x for x in q.ev if x.kind == 'loop' and any(y.kind == 'get' for z in x['paths'] for y in z.ev)]
            if len(ins) != 1:
                if not any(y.kind == 'get' for y, lo in flat(q.ev)):
                    raise Bad('what was read is dropped', lp.l)
                raise Unk('records are not parsed in one loop')
            il = ins[0]
            want_count(il, m, 'not every record read is parsed', q.facts)
            for z in il['paths']:
                if z.out and z.out[0] == 'throw':
                    continue
                if z.out:
                    raise Bad('parsing stops before the last record read', il.l)
                gets = [x for x in z.ev if x.kind == 'get']
                if len(gets) != 1:
                    if not gets:
                        raise Bad('a record read is skipped', il.l)
                    raise Unk('several records per iteration')
                gr, gi = ptr(gets[0]['src'])
                if gr != droot and gr != d:
                    raise Unk('records are parsed from %s' % show(gr)[:60])
                want(T.sub(gi, di), T.mul(DISK, ('it', il['id'])), 'records are parsed from a wrong position', gets[0].l, z.facts)
                ps = [x for x, lo in flat(z.ev) if x.kind == 'vec' and x['op'] == 'push' and T.contains(x['val'], gets[0]['rec'])]
                mp = [x for x, lo in flat(z.ev) if x.kind == 'map' and x['op'] == 'put' and T.contains(x['val'], gets[0]['rec'])]
                if mp:
                    raise Unk('records are put into a map one by one')
                if len(ps) != 1:
                    raise Bad('a record read is added to %d blocks' % len(ps), il.l)
                if ps[0]['val'] != gets[0]['rec']:
                    raise Unk('what is added: %s' % show(ps[0]['val'])[:60])
                vl = ps[0]['vec']
                kk = [x for x in vl[2] if x[0] == 'k']
                if len(kk) != 1:
                    if not kk:
                        raise Unk('records are not grouped by a map')
                    raise Unk('block')
                ke = kk[0][1]
                key = ('call', 'key', (gets[0]['rec'],))
                if isinstance(ke, tuple) and ke[0] == 'op' and ke[1] == '>>' and ke[2] == key or ke == key:
                    pass
                elif not T.contains(ke, key):
                    raise Bad('the block of a record does not depend on its key', ps[0].l)
                elif isinstance(ke, tuple) and ke[0] == 'op' and ke[1] in ('%', '^'):
                    raise Bad('the block of a record does not follow the order of the keys', ps[0].l)
                else:
                    raise Unk('block number %s' % show(ke)[:80])
                pushed = ('L', vl[1], vl[2][:vl[2].index(kk[0])])
        # emission
        after = s.ev[s.ev.index(lp) + 1:]
        em = [e for e in after if e.kind == 'loop' and any(x.kind == 'vec' and x['op'] == 'push' and x['vec'] == pout for q in e['paths'] for x in q.ev)]
        if not em:
            raise Bad('no block is emitted', g['l'])
        if len(em) != 1:
            raise Unk('blocks are emitted in several loops')
        lp2 = em[0]
        src = None
        for q in lp2['paths']:
            if q.out and q.out[0] == 'throw':
                continue
            if q.out:
                raise Bad('emitting blocks stops early', lp2.l)
            ps = [x for x in q.ev if x.kind == 'vec' and x['op'] == 'push' and x['vec'] == pout]
            if len(ps) != 1:
                emp = [x for fct in q.facts.items for x in T.subterms(fct) if is_rdf(x) and '#n' in show(x) and q.facts.range(x)[1] <= 0]
                if not ps and emp:
                    continue
                raise Bad('a block is emitted %d times' % len(ps), lp2.l)
            a, b = pair_of(ps[0]['val'])
            if not (isinstance(a, tuple) and a[0] in ('rd', 'fld')):
                raise Unk('emitted block %s' % show(a)[:60])
            if a[0] == 'rd':
                mk = [x for x in a[1][2] if x[0] == 'k']
                src = ('L', a[1][1], a[1][2][:a[1][2].index(mk[0])]) if mk else None
            else:
                mk = [x for x in a[2] if x[0] == 'k']
                src = a[1][2] if a[1][0] == 'phx' else None
            if not mk or src is None or not (isinstance(mk[0][1], tuple) and mk[0][1][0] == 'mkey'):
                raise Unk('emitted block %s' % show(a)[:80])
            want(mk[0][1][2], ('it', lp2['id']), 'blocks are not emitted in order', ps[0].l)
            steps = running_sum(lp2, b, ('rd', L(pin, ('f', 'second')), 0), 'the rank of a block', ps[0].l)
            sz = fld(a, (('f', '#n'),))
            for d_ in steps:
                want(d_, sz, 'the rank does not grow by the number of records of the block', lp2.l)
        if lp2.get('bound') is None:
            raise Unk('number of blocks emitted')
        ty = type_of(g, src)
        if ty is None:
            raise Unk('type of the block map')
        if 'unordered_map' in ty.split('<')[0]:
            raise Bad('blocks are emitted in the order of a hash table instead of the order of keys', lp2.l)
        if not ty.replace('const ', '').startswith('std::map<'):
            raise Unk('block container %s' % ty[:40])
        if 'std::greater' in ty:
            raise Bad('blocks are emitted in descending order', lp2.l)
        if src != pushed:
            # moved from one map to another
            mv = [e for e in after if e.kind == 'loop' and any(x.kind == 'map' and x['op'] == 'put' and x['map'] == src for q in e['paths'] for x in q.ev)]
            if len(mv) != 1:
                raise Unk('how blocks reach the ordered map')
            l3 = mv[0]
            for q in l3['paths']:
                if q.out and q.out[0] == 'throw':
                    continue
                if q.out:
                    raise Bad('a block is not taken over', l3.l)
                pu = [x for x in q.ev if x.kind == 'map' and x['op'] == 'put' and x['map'] == src]
                if len(pu) != 1:
                    emp = [x for fct in q.facts.items for x in T.subterms(fct) if is_rdf(x) and '#n' in show(x) and q.facts.range(x)[1] <= 0]
                    if not pu and emp:
                        continue
                    raise Bad('a block is taken over %d times' % len(pu), l3.l)
                k_, v_ = pu[0]['key'], pu[0]['val']
                sk, sv = show(k_), show(v_)
                if 'mkey(' not in sk or 'mkey(' not in sv:
                    raise Unk('block taken over: %s' % sk[:60])
                if sk.replace('first', 'second') != sv:
                    if isinstance(k_, tuple) and k_[0] in ('op', 'poly', 'cast'):
                        raise Bad('blocks are taken over under a different number, so that blocks can collide or change order', pu[0].l)
                    raise Unk('block taken over: %s -> %s' % (sk[:60], sv[:60]))
            if l3.get('bound') is None:
                raise Unk('number of blocks taken over')


def ctor_rule(p, info):
    fs = [f for f in p.fns('DiskSort::DiskSort') if f.get('b') is not None]
    if not fs:
        raise Unk('constructor')
    f = fs[0]
    names = [q['n'] for q in f['p']]
    for s, v in normal(Engine(p, DiskCfg()), f):
        this = L(('o', ('sym', 'this')))
        # own write cache and caches made later use the same shift and number of buckets as the sorter
        vals = {show(k): x for k, x in s.store.items() if isinstance(k, tuple) and k and k[0] == 'L' and k[1] == ('o', ('sym', 'this'))}
        sizes = {k: x for k, x in vals.items() if k.endswith('#n')}
        if len(sizes) >= 2:
            vs = list(sizes.values())
            for x in vs[1:]:
                want(x, vs[0], 'sorter and write cache have different numbers of buckets', f['l'])
        for e, lo in flat(s.ev):
            if e.kind == 'call' and e['name'] == 'fopen':
                m = e['args'][1]
                if isinstance(m, tuple) and m[0] == 'str' and not m[1].startswith('w'):
                    raise Bad('bucket files are opened with mode "%s": old content stays in them' % m[1], e.l)
                if lo and not T.contains(e['args'][0], ('it', lo[-1]['id'])):
                    raise Bad('several buckets share one file', e.l)
                if lo and any(isinstance(x, tuple) and len(x) == 4 and x[0] == 'op' and x[1] in ('>>', '/', '%') and T.contains(x, ('it', lo[-1]['id'])) for x in T.subterms(e['args'][0])):
                    raise Bad('several buckets share one file', e.l)


def cache_rule(p, info):
    """add_cache(): same shift and bucket count as the sorter's own cache"""
    fs = p.fns('DiskSort::add_cache')
    cs = [f for f in p.fns('DiskSort::DiskSort') if f.get('b') is not None]
    if not fs or not cs:
        raise Unk('add_cache')
    ctor = normal(Engine(p, DiskCfg()), cs[0])
    if not ctor:
        raise Unk('constructor')
    s0 = ctor[0][0]
    s0.out = None
    s0.ev = ()
    shift = info.get('shift')
    if not (isinstance(shift, tuple) and shift[0] == 'rd' and len(shift[1][2]) == 1):
        raise Unk('shift of the write cache')
    sf = shift[1][2]
    own = [x for k, x in s0.store.items() if isinstance(k, tuple) and k and k[0] == 'L' and k[1] == ('o', ('sym', 'this')) and len(k[2]) == 2 and k[2][-1:] == sf]
    if len(own) != 1:
        raise Unk('own write cache')
    for s, v in Engine(p, DiskCfg()).run(fs[0], st=s0):
        if s.out and s.out[0] == 'throw':
            continue
        if v is None and s.out:
            v = s.out[1]
        root = v[1] if isinstance(v, tuple) and v[0] == 'ptr' else None
        if root is None:
            raise Unk('add_cache result %s' % show(v)[:60])
        sh = s.store.get(('L', root[1], root[2] + sf))
        if sh is None:
            raise Unk('shift of a cache')
        want(sh, own[0], 'an additional write cache uses a different key shift than the sorter', fs[0]['l'])
        ns = [x for k, x in s.store.items() if isinstance(k, tuple) and k and k[0] == 'L' and k[1] == root[1] and k[2][-1:] == (('f', '#n'),)]
        os_ = [x for k, x in s0.store.items() if isinstance(k, tuple) and k and k[0] == 'L' and k[1] == ('o', ('sym', 'this')) and k[2][-1:] == (('f', '#n'),)]
        if ns and os_:
            want(ns[0], os_[0], 'an additional write cache has a different number of buckets than the sorter', fs[0]['l'])


def shift_rule(p, info):
    """every key of the declared size selects an existing bucket, and keys of every bucket are possible"""
    cs = [f for f in p.fns('DiskSort::DiskSort') if f.get('b') is not None]
    s0 = normal(Engine(p, DiskCfg()), cs[0])[0][0]
    shift = info.get('shift')
    if not (isinstance(shift, tuple) and shift[0] == 'rd' and len(shift[1][2]) == 1):
        raise Unk('shift of the write cache')
    sf = shift[1][2]
    own = [x for k, x in s0.store.items() if isinstance(k, tuple) and k and k[0] == 'L' and k[1] == ('o', ('sym', 'this')) and len(k[2]) == 2 and k[2][-1:] == sf]
    ns = [x for k, x in s0.store.items() if isinstance(k, tuple) and k and k[0] == 'L' and k[1] == ('o', ('sym', 'this')) and k[2][-1:] == (('f', '#n'),)]
    if len(own) != 1 or not ns:
        raise Unk('constructor values')
    n = ns[0]
    while isinstance(n, tuple) and n[0] == 'cast':
        n = n[2]
    if not (isinstance(n, tuple) and n[0] == 'op' and n[1] == '<<' and n[2] == 1):
        raise Unk('number of buckets %s' % show(n))
    # key_size = shift + log2(buckets) must be what the caller declares: the first parameter
    tot = T.add(own[0], n[3])
    want(tot, ('sym', 'p:' + cs[0]['p'][0]['n']), 'the number of buckets and the key shift do not add up to the key size', cs[0]['l'])


def check(r, tier):
    r.rule = RULE
    p = witness()
    res, info = {}, {}
    rule(r, 'read() hands over all buckets in order with their rank and passes the blocks on to the output', H + 'DiskSort::read', 'read', lambda: read_rule(p, res))
    ne = res.get('ne')
    rule(r, 'add() stores the record once in the right buffer', H + 'WriteCache::add', 'add', lambda: info.update(add_rule(p, ne)))
    rule(r, 'flush() writes every buffer', H + 'WriteCache::flush', 'flush', lambda: flush_rule(p, 'DiskSort::WriteCache::flush', ne))
    rule(r, 'a destroyed cache writes every buffer', H + 'WriteCache::~WriteCache', 'dtor', lambda: flush_rule(p, 'DiskSort::WriteCache::~WriteCache', ne))
    rule(r, 'finish() writes every buffer, then closes every bucket', H + 'DiskSort::finish', 'finish', lambda: finish_rule(p, ne))
    rule(r, 'construction creates one empty file per bucket', H + 'DiskSort::DiskSort', 'ctor', lambda: ctor_rule(p, info))
    rule(r, 'a buffer has room for its capacity', 'include/chia/buffer.h: byte_buffer_t', 'buffer', lambda: buffer_rule(p))
    if info:
        rule(r, 'all write caches use the same buckets', H + 'DiskSort::add_cache', 'cache', lambda: cache_rule(p, info))
        rule(r, 'key shift and number of buckets cover the key size', H + 'DiskSort::DiskSort', 'shift', lambda: shift_rule(p, info))
    if 'chain' in res:
        rule(r, 'every block is sorted and passed on with its rank', H + 'DiskSort::read', 'sort', lambda: sort_rule(p, res))
    if 'reader' in res:
        rule(r, 'a bucket is read completely and its blocks are emitted in order with their rank', H + 'DiskSort::read_bucket', 'bucket', lambda: bucket_rule(p, res))
    r.saw('DiskSort::DiskSort', 'DiskSort::add', 'DiskSort::WriteCache::add', 'DiskSort::WriteCache::flush', 'DiskSort::finish', 'DiskSort::read', 'DiskSort::read_bucket', 'DiskSort::add_cache')
