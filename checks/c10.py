"""C10: a table file returns exactly the records written to it."""
from sa.disk import *
from sa.pipe import flat
from sa.engine import is_prefix
from checks.c09 import stage_fn, pair_of, fwrites

TECHNIQUE = 'path-sensitive dataflow over the generic DiskTable instance (uninterpreted record): buffer positions, record counts, file offsets and block boundaries compared as terms on every path and loop'
RULE = ('write(): the record is serialised once behind the previous one; a full buffer is first written whole, counted and emptied. flush() and close() (and destruction) write what is buffered, count it '
        'and empty the buffer, before the file is closed. A table opened with a record count does not truncate its file. read(): consecutive blocks starting at record 0 that end exactly at the record '
        'count; each block is read from its own offset, completely, every record parsed once to its place, tagged with the first record index')
H = 'include/chia/DiskTable.h: '
THIS = ('o', ('sym', 'this'))


def members(s, root=THIS):
    return {k: v for k, v in s.store.items() if isinstance(k, tuple) and k and k[0] == 'L' and k[1] == root}


def shape(p):
    """member locations: level, record count, output file, file name"""
    o = {}
    fs = p.fns('DiskTable::get_info')
    if fs:
        for s, v in normal(Engine(p, DiskCfg()), fs[0]):
            if v is None and s.out:
                v = s.out[1]
            if isinstance(v, tuple) and v[0] == 'obj':
                for path, x in v[2]:
                    if path == (('f', 'num_entries'),) and is_rd(x) and x[1][1] == THIS:
                        o['ne'] = x[1]
                    if path == (('f', 'file_name'),) and is_rd(x) and x[1][1] == THIS:
                        o['name'] = x[1]
    fs = p.fns('DiskTable::write')
    if not fs:
        raise Unk('DiskTable::write not found')
    for s, v in normal(Engine(p, DiskCfg()), fs[0]):
        for e, lo in flat(s.ev):
            if e.kind == 'put':
                root, pos = ptr(e['dst'])
                at = [a for a in T.atoms(pos) if is_rd(a) and a[1][1] == THIS]
                if len(at) == 1 and eqv(pos, T.mul(DISK, at[0])) is True:
                    o['level'], o['root'] = at[0][1], root
    return o


def follow(s, o, need_put, l):
    """walk the trace of one path: puts and writes of the buffer; -> (writes, level at the end)"""
    X = o['level']
    level = ('rd', X, 0)
    ne = ('rd', o['ne'], 0) if 'ne' in o else None
    writes, puts, closed = 0, 0, False
    for e, lo in flat(s.ev):
        if e.kind == 'put':
            if lo:
                raise Unk('record stored in a loop')
            puts += 1
            root, pos = ptr(e['dst'])
            if root != o['root']:
                raise Unk('record is stored to %s' % show(root)[:60])
            rec = e['rec']
            want(pos, T.mul(DISK, level), 'the record is not stored behind the previous one', e.l, s.facts)
            if level != 0 and not (level == ('rd', X, 0) and s.facts.range(level)[1] <= 0):
                cap = None
                for f in s.facts.items:
                    for x in T.subterms(f):
                        if is_rd(x) and x[1][1] == THIS and x[1] not in (X, o.get('ne')) and x[1][2][:-1] == X[2][:-1]:
                            q = proves_lt(s.facts, level, x)
                            cap = q if cap is None or q else cap
                if cap is False:
                    raise Bad('a record is stored behind the end of the full buffer', e.l)
                if cap is None:
                    # a path that flushes after the record was stored keeps the level below the capacity
                    o.setdefault('nocap', []).append(e.l)
            level = T.add(level, 1)
        elif fwrites([e]):
            if lo:
                raise Unk('buffer written in a loop')
            data, size, n, file = e['args'][:4]
            r2, i2 = ptr(data)
            if r2 != o['root']:
                raise Unk('written data is not the buffer')
            want(i2, 0, 'the buffer is not written from its start', e.l, s.facts)
            want(T.mul(size, n), T.mul(DISK, level), 'the buffer is not written completely', e.l, s.facts)
            if ne is not None:
                ne = T.add(ne, level)
            if level != ('rd', X, 0):
                o['after'] = True
            level = 0
            writes += 1
            if closed:
                raise Bad('the buffer is written after the file was closed', e.l)
        elif e.kind == 'call' and e['name'] == 'fclose':
            closed = True
    m = members(s)
    end = m.get(X, ('rd', X, 0))
    want(end, level, 'the fill level does not match the content of the buffer', l, s.facts)
    if ne is not None:
        want(m.get(o['ne'], ('rd', o['ne'], 0)), ne, 'the number of records is not advanced by what was written', l, s.facts)
    if need_put and puts != 1:
        raise Bad('on a path that returns normally the record is stored %d times' % puts, l)
    return writes, closed


def need(o, *k):
    for x in k:
        if x not in o:
            raise Unk('member %s not identified' % x)


def write_rule(p, o):
    need(o, 'level')
    f = p.fns('DiskTable::write')[0]
    for s, v in normal(Engine(p, DiskCfg()), f):
        follow(s, o, True, f['l'])
        for e, lo in flat(s.ev):
            if e.kind == 'put' and e['rec'] != ('rd', L(('o', ('sym', 'p:' + f['p'][0]['n']))), 0):
                raise Unk('stored record %s' % show(e['rec'])[:60])
    if o.get('nocap') and not o.get('after'):
        raise Bad('a full buffer is not written before the next record is stored', o['nocap'][0])


def empty(s, o):
    x = ('rd', o['level'], 0)
    return s.facts.range(x)[1] <= 0


def flush_rule(p, o):
    need(o, 'level')
    fs = p.fns('DiskTable::flush')
    if not fs:
        raise Unk('flush not found')
    for s, v in normal(Engine(p, DiskCfg()), fs[0]):
        w, c = follow(s, o, False, fs[0]['l'])
        if not w and not empty(s, o):
            raise Bad('flush() returns although records are left in the buffer', fs[0]['l'])


def close_rule(p, o, name):
    need(o, 'level')
    fs = [f for f in p.fns(name) if f.get('b') is not None and not f.get('implicit') and not f.get('defaulted')]
    if not fs:
        raise Bad('%s does not write what is left in the buffer' % name, '')
    n = 0
    for s, v in normal(Engine(p, DiskCfg()), fs[0]):
        w, c = follow(s, o, False, fs[0]['l'])
        nul = [f for f in s.facts.items if f[0] == 'eq' and is_rd(f[1]) and f[1][1][1] == THIS and f[1][1] != o['level']]
        if nul and not c:
            continue       # no open output file
        if not w and not empty(s, o):
            raise Bad('the table is closed although records are left in the buffer', fs[0]['l'])
        if not c:
            raise Bad('the file is not closed', fs[0]['l'])
        n += 1
    if not n:
        raise Unk('no path closes the file')


def ctor_rule(p, o):
    fs = [f for f in p.fns('DiskTable::DiskTable') if f.get('b') is not None and not f.get('implicit') and f['p'] and 'DiskTable' not in f['p'][0]['t']]
    if not fs:
        raise Unk('constructor')
    for f in fs:
        for s, v in normal(Engine(p, DiskCfg()), f):
            m = members(s)
            op = [e for e, lo in flat(s.ev) if e.kind == 'call' and e['name'] == 'fopen']
            n = m.get(o.get('ne'))
            if 'ne' in o:
                if n is None:
                    raise Bad('the number of records is not initialised', f['l'])
                if n != 0 and not (isinstance(n, tuple) and n[0] in ('sym', 'rd') and ('num' in show(n) or 'p:' in show(n))):
                    raise Unk('initial number of records %s' % show(n)[:60])
            for e in op:
                md = e['args'][1]
                if not (isinstance(md, tuple) and md[0] == 'str'):
                    raise Unk('file mode')
                if md[1].startswith('w'):
                    if n is not None and s.facts.range(n)[1] > 0:
                        raise Bad('an existing table file is truncated', e.l)
                elif md[1].startswith('a'):
                    raise Bad('a new table is appended to an old file', e.l)
                if 'name' in o and m.get(o['name']) is not None:
                    nm = m[o['name']]
                    if e['args'][0] != nm and not vague(nm):
                        raise Bad('the table writes to %s instead of %s' % (show(e['args'][0])[:40], show(nm)[:40]), e.l)
            if not op and n is not None and s.facts.range(n)[0] <= 0 and not any(T.contains(x, n) for x in s.facts.items):
                raise Bad('no file is opened for a new table', f['l'])


def norm(t, num, bs):
    """n % b  ->  n - (n / b) * b"""
    def go(x):
        return T.subst(x, {('op', '%', num, bs): T.sub(num, T.mul(('op', '/', num, bs), bs))})
    return go(t)


def read_rule(p, o, res):
    need(o, 'ne')
    fs = p.fns('DiskTable::read')
    if not fs:
        raise Unk('read not found')
    f = fs[0]
    num = ('rd', o['ne'], 0)
    for s, v in normal(Engine(p, DiskCfg()), f):
        st = [e for e, lo in flat(s.ev) if e.kind == 'stage']
        tk = [(e, lo) for e, lo in flat(s.ev) if e.kind == 'take']
        if len(st) != 1:
            if not st and s.facts.range(num)[1] <= 0:
                continue
            raise Unk('%d stages' % len(st))
        res['stage'] = st[0]
        if st[0]['cls'] == 'ThreadPool' and st[0].get('out') in (0, None):
            raise Bad('blocks are not passed on', st[0].l)
        ops = [e for e, lo in flat(s.ev) if e.kind == 'call' and e['name'] == 'fopen']
        for e in ops:
            md = e['args'][1]
            if isinstance(md, tuple) and md[0] == 'str' and not md[1].startswith('r'):
                raise Bad('reading opens the table with mode "%s"' % md[1], e.l)
            if 'name' in o and e['args'][0] != ('rd', o['name'], 0) and is_rd(e['args'][0]):
                raise Bad('a different file is read', e.l)
        pos, sizes = 0, []
        for e in s.ev:
            if e.kind == 'take':
                a, b = pair_of(e['val'])
                want(a, pos, 'blocks are not consecutive', e.l, s.facts)
                pos = T.add(pos, b)
                sizes.append((b, s.facts))
            elif e.kind == 'loop' and any(x.kind == 'take' for q in e['paths'] for x in q.ev):
                new = None
                for q in e['paths']:
                    if q.out and q.out[0] == 'throw':
                        continue
                    if q.out:
                        raise Unk('loop over blocks is left early')
                    t = [x for x in q.ev if x.kind == 'take']
                    if len(t) != 1:
                        raise Bad('a block is handed out %d times' % len(t), e.l)
                    a, b = pair_of(t[0]['val'])
                    sizes.append((b, q.facts))
                    it = ('it', e['id'])
                    if isinstance(a, tuple) and a[0] == 'phi' and a[1] == e['id']:
                        init = e['mods'].get(a[2], (None,))[0]
                        want(init, pos, 'blocks do not start at the first record', e.l, s.facts)
                        nx = q.ends.get(a[2], (None, None))[1]
                        want(T.sub(nx, a), b, 'the position advances by a different number of records than the block has', e.l, q.facts)
                        lt = [fc for fc in q.facts.items if fc[0] == 'le' and T.contains(fc, a)]
                        if not lt:
                            raise Unk('loop condition')
                        if T.lt(a, num) not in lt and not any(norm(x, num, 0) == T.lt(a, num) for x in lt):
                            d = [T.sub(x[1], T.lt(a, num)[1]) for x in lt]
                            if any(isinstance(y, int) and y > 0 for y in d):
                                raise Bad('the loop ends while records are left', e.l)
                            raise Unk('loop condition %s' % show(lt[0])[:60])
                        if not (isinstance(b, tuple) and T.contains(b, T.sub(num, a)) or q.facts.range(T.sub(b, T.sub(num, a)))[1] <= 0):
                            raise Unk('block size %s' % show(b)[:60])
                        new = num
                    elif T.numericish(a):
                        base_ = T.subst(a, {it: 0})
                        stp = T.sub(T.subst(a, {it: T.add(it, 1)}), a)
                        want(base_, pos, 'blocks are not consecutive', e.l, s.facts)
                        if isinstance(b, tuple) and b[0] in ('call', 'min') and T.contains(b, T.sub(num, a)):
                            # min(step, left): the loop must end exactly when nothing is left
                            raise Unk('block size %s' % show(b)[:60])
                        want(b, stp, 'blocks are not consecutive', e.l, q.facts)
                        if e.get('bound') is None:
                            raw = e.get('raw_bound')
                            if raw is None:
                                raise Unk('number of blocks')
                            bnd = raw
                        else:
                            bnd = e['bound']
                        new = T.add(pos, T.mul(stp, bnd))
                    else:
                        raise Unk('block start %s' % show(a)[:60])
                pos = new
        if not tk:
            if s.facts.range(num)[1] <= 0:
                continue
            raise Bad('no block is read', f['l'])
        # the end
        ok = eqv(pos, num, s.facts)
        if ok is not True:
            divs = {x for fc in list(s.facts.items) + [pos] for x in T.subterms(fc) if isinstance(x, tuple) and len(x) == 4 and x[0] == 'op' and x[1] in ('%', '/') and x[2] == num}
            d = T.sub(pos, num)
            for x in divs:
                d = norm(d, num, x[3])
            if d == 0:
                ok = True
            else:
                for fc in s.facts.items:
                    if fc[0] == 'eq':
                        g = fc[1]
                        for x in divs:
                            g = norm(g, num, x[3])
                        if g in (d, T.scale(d, -1)):
                            ok = True
                    if fc[0] == 'le' and any(d == T.sub(T.mul(('op', '/', num, x[3]), x[3]), num) and fc[1] == T.scale(d, -1) for x in divs):
                        ok = True      # n <= (n / b) * b
            if ok is not True:
                if vague(d):
                    raise Unk('end of the last block: %s' % show(pos)[:80])
                raise Bad('the blocks do not end at the last record (%s of %s)' % (show(pos)[:80], show(num)[:40]), f['l'])
        # read buffers
        for e, lo in flat(s.ev):
            if e.kind == 'new' and T.numericish(e['n']):
                for b, fc in sizes:
                    d = T.sub(e['n'], T.mul(DISK, b))
                    if isinstance(b, tuple) and b[0] == 'op' and b[1] == '%':
                        d = T.sub(e['n'], T.mul(DISK, b[3]))
                    if d == 0 or isinstance(d, int) and d > 0:
                        continue
                    if isinstance(d, int) and d < 0 or (T.numericish(d) and not vague(d) and fc.range(d)[1] < 0):
                        raise Bad('the read buffer is smaller than a block', e.l)
                    c, mono = T.parts(d)
                    if mono and all(k < 0 for k in mono.values()) and c <= 0:
                        raise Bad('the read buffer is smaller than a block (%s bytes for %s records)' % (show(e['n'])[:40], show(b)[:40]), e.l)


def block_rule(p, res):
    if 'stage' not in res:
        raise Unk('no read stage')
    g, kw = stage_fn(p, res['stage'])
    pin = ('o', ('sym', 'p:' + g['p'][0]['n']))
    pout = L(('o', ('sym', 'p:' + g['p'][1]['n'])))
    first, second = ('rd', L(pin, ('f', 'first')), 0), ('rd', L(pin, ('f', 'second')), 0)
    vec = loc_ext(pout, ('f', 'first'))
    for s, v in normal(Engine(p, DiskCfg()), g, **kw):
        sk = [e for e in s.ev if e.kind == 'call' and e['name'] in ('fseek', 'fseeko', 'fseeko64')]
        fr = [e for e in s.ev if e.kind == 'call' and e['name'] == 'fread']
        if len(fr) != 1:
            if not fr and s.facts.range(second)[1] <= 0:
                continue
            if any(e.kind == 'call' and e['name'] == 'fread' for e, lo in flat(s.ev)):
                raise Unk('block read in several parts')
            raise Bad('a block is not read', g['l'])
        before = s.ev[:s.ev.index(fr[0])]
        sk = [e for e in sk if e in before]
        if not sk:
            raise Bad('a block is read without positioning the file', fr[0].l)
        a = sk[-1]['args']
        want(a[2], 0, 'the file position is not absolute', sk[-1].l)
        want(a[1], T.mul(DISK, first), 'the block is read from a wrong position', sk[-1].l, s.facts)
        d, sz, m, fil = fr[0]['args'][:4]
        if a[0] != fil:
            raise Bad('a different file is positioned than read', sk[-1].l)
        want(T.mul(sz, m), T.mul(DISK, second), 'the block is not read completely', fr[0].l, s.facts)
        droot, di = ptr(d)
        lps = [e for e in s.ev if e.kind == 'loop' and any(x.kind == 'get' for q in e['paths'] for x in q.ev)]
        if len(lps) != 1:
            if any(e.kind == 'get' for e, lo in flat(s.ev)):
                raise Unk('records parsed in a way that is not understood')
            if s.facts.range(second)[1] <= 0:
                continue
            raise Bad('what was read is not passed on', g['l'])
        lp = lps[0]
        want_count(lp, second, 'not every record of the block is parsed', s.facts)
        it = ('it', lp['id'])
        pushes = False
        for q in lp['paths']:
            if q.out and q.out[0] == 'throw':
                continue
            if q.out:
                raise Bad('parsing stops before the last record', lp.l)
            gt = [x for x in q.ev if x.kind == 'get']
            if len(gt) != 1:
                raise Bad('a record is parsed %d times' % len(gt), lp.l)
            gr, gi = ptr(gt[0]['src'])
            if gr not in (droot, d):
                raise Unk('parsed from %s' % show(gr)[:60])
            want(T.sub(gi, di), T.mul(DISK, it), 'records are parsed from a wrong position', gt[0].l, q.facts)
            dst = gt[0]['dst']
            el = element(dst[1]) if isinstance(dst, tuple) and dst[0] == 'ptr' else None
            ps = [x for x in q.ev if x.kind == 'vec' and x['op'] == 'push' and T.contains(x['val'], gt[0]['rec'])]
            if el and el[0] == vec:
                want(el[1], it, 'records are not kept in order', gt[0].l, q.facts)
            elif len(ps) == 1 and ps[0]['vec'] == vec and ps[0]['val'] == gt[0]['rec']:
                pushes = True
            else:
                raise Unk('destination of a record')
        n = s.store.get(loc_ext(vec, ('f', '#n')))
        if not pushes:
            if n is None:
                raise Unk('size of the result')
            want(n, second, 'the result has a different number of records than the block', g['l'], s.facts)
        tag = s.store.get(loc_ext(pout, ('f', 'second')))
        if tag is None:
            raise Bad('the block is not tagged with the index of its first record', g['l'])
        want(tag, first, 'the block is not tagged with the index of its first record', g['l'], s.facts)


def check(r, tier):
    r.rule = RULE
    p = witness()
    o, res = {}, {}
    rule(r, 'members of the table are identified', H + 'DiskTable', 'shape', lambda: o.update(shape(p)))
    rule(r, 'write() stores the record once behind the previous one', H + 'write', 'write', lambda: write_rule(p, o))
    rule(r, 'flush() writes, counts and empties the buffer', H + 'flush', 'flush', lambda: flush_rule(p, o))
    rule(r, 'close() writes the buffer before closing', H + 'close', 'close', lambda: close_rule(p, o, 'DiskTable::close'))
    rule(r, 'destruction writes the buffer before closing', H + '~DiskTable', 'dtor', lambda: close_rule(p, o, 'DiskTable::~DiskTable'))
    rule(r, 'construction truncates only new tables', H + 'DiskTable', 'ctor', lambda: ctor_rule(p, o))
    rule(r, 'read() hands out consecutive blocks up to the last record', H + 'read', 'read', lambda: read_rule(p, o, res))
    rule(r, 'a block is read from its place, completely and in order', H + 'read_block', 'block', lambda: block_rule(p, res))
    r.saw('DiskTable::DiskTable', 'DiskTable::write', 'DiskTable::flush', 'DiskTable::close', 'DiskTable::~DiskTable', 'DiskTable::read', 'DiskTable::read_block', 'DiskTable::get_info')
