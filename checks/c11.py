"""C11: temporary files are removed after, and never before, their last use.

DiskSort is analysed on its generic instance (bucket files), the phases on the traces of their compute() functions (tables and sorters)."""
from sa.prog import load
from sa.disk import Bad, Unk, rule, witness, DiskCfg, normal
from sa.engine import Engine, State, L, loc_ext, show, is_prefix
from sa.backprop import BackCfg
from sa.pipe import flat
from sa import terms as T

TECHNIQUE = 'typestate of temporary files over path summaries of DiskSort, DiskTable and the compute functions of the phases (names as terms)'
RULE = ('a sorter that does not keep its files removes each of them at the latest in close(), which its destructor calls, and in the reading stage only after opening and reading it; a sorter that keeps its files removes none and a '
        'read-only one keeps them and never opens one for writing; each table file of phase 1 is removed by phase 2 after the pass reading it, except the first, which is removed by phase 3 like the one of phase 2 after the stage reading it; '
        'no two files in use at the same time have the same name even if all directories are the same')
H = 'include/chia/DiskSort.hpp: '
RM = ('remove', 'std::remove', 'unlink', 'std::filesystem::remove')


def calls(evs, names):
    return [(e, lo) for e, lo in flat(evs) if e.kind == 'call' and e['name'] in names]


def one(p, n, **kw):
    fs = [f for f in p.fns(n) if f.get('b') and kw.get('sel', lambda f: True)(f)]
    if not fs:
        raise Unk('%s not found' % n)
    return fs[0]


def keep_loc(p):
    """member that says whether files are kept: what the public setter writes"""
    f = one(p, 'DiskSort::set_keep_files')
    for s, v in Engine(p, DiskCfg()).run(f):
        ks = [k for k, x in s.store.items() if isinstance(k, tuple) and k[0] == 'L' and k[1][0] == 'o' and len(k[2]) == 1 and isinstance(x, tuple) and T.contains(x, ('sym', 'p:' + f['p'][0]['n']))]
        if len(ks) == 1:
            return ks[0]
    raise Unk('member that keeps the files')


def run(p, f, kl, val, **kw):
    eng = Engine(p, DiskCfg())
    st = State()
    st.store[kl] = val
    out = [(s, v) for s, v in eng.run(f, st=st, **kw)]
    if eng.stats['truncated']:
        raise Unk('paths')
    return out


def name_of(e):
    """bucket element whose file name is removed"""
    a = e['args'][0]
    while isinstance(a, tuple) and a[0] == 'call' and len(a) > 2 and isinstance(a[2], tuple) and len(a[2]) == 1:
        a = a[2][0]
    if isinstance(a, tuple) and a[0] == 'rd':
        return a[1]
    return None


def flags(p, kl):
    """members of a bucket that are set where it is removed while reading, but not by finish()"""
    def members(fn):
        out = set()
        for s, v in run(p, one(p, fn), kl, 0):
            for e, lo in flat(s.ev):
                l = e['loc'] if e.kind == 'wr' else None
                if isinstance(l, tuple) and l[0] == 'L' and l[2] and ('f', '#b') in l[2]:
                    out.add(l[2][-1])
            for k in s.store:
                if isinstance(k, tuple) and k[0] == 'L' and k[2] and ('f', '#b') in k[2]:
                    out.add(k[2][-1])
        return out
    return members('DiskSort::read_bucket') - members('DiskSort::finish')


def close_rule(p, kl, fn):
    f = one(p, fn)
    marks = None
    for s, v in run(p, f, kl, 1):
        for e, lo in calls(s.ev, RM):
            raise Bad('a sorter that keeps its files removes one', e.l)
    for s, v in run(p, f, kl, 0):
        if s.out and s.out[0] != 'ret':
            continue
        rm = calls(s.ev, RM)
        lps = [e for e in s.ev if e.kind == 'loop']
        opaque = [e for e, lo in flat(s.ev) if e.kind == 'call' and e['name'].startswith('DiskSort::')]
        if opaque:
            raise Unk('call of %s' % opaque[0]['name'])
        if not rm:
            if [e for e, lo in flat(s.ev) if e.kind == 'call' and e['name'] not in ('fclose', 'fflush')]:
                raise Unk('no removal found')
            raise Bad('the bucket files are not removed', f['l'])
        good = False
        for lp in lps:
            qs = [q for q in lp['paths'] if not q.out or q.out[0] in ('cont', 'continue')]
            has = [[e for e, lo in calls(q.ev, RM)] for q in qs]
            if not any(has):
                continue
            for q, h in zip(qs, has):
                if not h:
                    kn = {x for x in q.facts.items} if hasattr(q, 'facts') else set()
                    if marks is None:
                        marks = flags(p, kl)
                    for x in kn:
                        if any(isinstance(y, tuple) and y and y[0] == 'rd' and y[1][2] and y[1][2][-1] in marks for y in T.subterms(x)):
                            raise Unk('a member tells whether the file was already removed')
                    raise Bad('a bucket file is not removed on a path through the loop%s' % (' (%s)' % ', '.join(sorted(show(x)[:60] for x in kn - set(s.facts.items)))[:200] if kn else ''), lp.l)
            good = True
        if not good:
            raise Unk('loop over the buckets')


def read_rule(p, kl):
    f = one(p, 'DiskSort::read_bucket')
    for s, v in run(p, f, kl, 1):
        for e, lo in calls(s.ev, RM):
            raise Bad('a sorter that keeps its files removes one while reading', e.l)
    for s, v in run(p, f, kl, 0):
        gone = None
        for e, lo in flat(s.ev):
            if e.kind != 'call':
                continue
            if e['name'] in RM:
                gone = e
            elif e['name'] == 'fopen' and gone is not None and e['args'] and e['args'][0] == gone['args'][0]:
                raise Bad('a bucket file is opened after it was removed', e.l)
            elif e['name'] == 'fread' and gone is not None and not lo:
                pass
        ro = [e for e, lo in calls(s.ev, ('fopen',)) if isinstance(e['args'][1], tuple) and e['args'][1][0] == 'str' and e['args'][1][1][:1] in 'wa']
        if ro:
            raise Bad('a bucket file is opened for writing before it is read', ro[0].l)
        # removed before it has been read completely: the handle is closed by then
        evs = list(s.ev)
        for i, e in enumerate(evs):
            if e.kind == 'call' and e['name'] in RM:
                cl = [x for x in evs[:i] if x.kind == 'call' and x['name'] == 'fclose']
                later = [x for x, lo in calls(evs[i + 1:], ('fread',))]
                if later and cl:
                    raise Bad('a bucket file is removed before it is read', e.l)


def ctor_rule(p, kl):
    f = one(p, 'DiskSort::DiskSort', sel=lambda f: any(q['n'] == 'read_only' for q in f['p']) or len(f['p']) == 4)
    ro = f['p'][3]['n']
    S = ('sym', 'p:' + ro)
    for val in (1, 0):
        st = State()
        eng = Engine(p, DiskCfg())
        args = [('sym', 'p:' + q['n']) for q in f['p'][:2]] + [None, val]
        sts = eng.run(f)
        for s, v in sts:
            if s.out and s.out[0] != 'ret':
                continue
            k = s.store.get(kl)
            if k is None:
                raise Unk('member that keeps the files is not set')
            if k != S and not isinstance(k, int) and T.contains(k, S) is False:
                raise Unk('value of the member')
            if k == 0 and s.facts.decide(T.eq(S, 0)) is not True:
                raise Bad('a read-only sorter does not keep the files it was given', f['l'])
            if k == 1 and s.facts.decide(T.eq(S, 0)) is not False:
                raise Bad('a sorter for new files keeps them', f['l'])
            for e, lo in calls(s.ev, ('fopen',)):
                m = e['args'][1]
                if isinstance(m, tuple) and m[0] == 'str' and m[1][:1] in 'wa':
                    d = e.facts.decide(T.eq(S, 0))
                    if d is False:
                        raise Bad('a read-only sorter opens a file for writing', e.l)
                    if d is None:
                        if not any(T.contains(x, S) for x in e.facts.items):
                            raise Bad('a read-only sorter opens its files for writing', e.l)
                        raise Unk('file opened for writing')
        break


def text(t):
    """name with all directories taken as the same: tuple of parts or None"""
    ps = list(t[1:]) if isinstance(t, tuple) and t and t[0] == 'cat' else [t]
    if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0] and isinstance(ps[0][0], tuple):
        ps = list(ps[0])
    out = []
    for x in ps:
        if isinstance(x, tuple) and x[0] == 'cat':
            y = text(x)
            if y is None:
                return None
            out += list(y)
        elif isinstance(x, tuple) and x[0] == 'str':
            out.append(x[1])
        else:
            s = show(x)
            if s in ('p:tmp_dir', 'p:tmp_dir_2', 'p:plot_dir'):
                s = '<dir>'
            elif s == 'p:plot_name':
                s = '<name>'
            elif isinstance(x, tuple) and x[0] == 'tostr' and isinstance(x[1], int):
                s = str(x[1])
            else:
                return None
            out.append(s)
    j = ''.join(out)
    return j


class Phase:
    def __init__(self, p, fn, opq):
        self.f = one(p, fn)
        ps = normal(Engine(p, BackCfg(opq)), self.f)
        if not ps:
            raise Unk('paths of %s' % fn)
        self.paths = [s for s, v in ps]

    def each(self):
        for s in self.paths:
            if any(lo and (e.kind == 'make' or e.kind == 'call' and (e['name'] in RM or e['name'].startswith(('DiskTable::', 'DiskSort::', 'phase')))) for e, lo in flat(s.ev)):
                raise Unk('loop that is not unrolled')
            yield s, list(s.ev)


def created(evs):
    """[(index, 'sort'/'table', name, location)] of new files"""
    out = []
    for i, e in enumerate(evs):
        if e.kind == 'make' and 'DiskSort' in str(e['ty']):
            vals = e['vals']
            if len(vals) > 3 and vals[3] != 0:
                raise Unk('read-only sorter')
            out.append((i, 'sort', text(vals[2]), e['loc'], e))
        elif e.kind == 'call' and e['name'] == 'DiskSort::DiskSort' and len(e['args']) >= 3:
            out.append((i, 'sort', text(e['args'][2]), e['this'][1], e))
        elif e.kind == 'call' and e['name'] == 'DiskTable::DiskTable' and len(e['args']) == 2:
            out.append((i, 'table', text(e['args'][0]), e['this'][1], e))
    return out


def uses(e, loc):
    """does the call get a pointer to (or into) loc"""
    for a in list(e['args']) + [e['this']]:
        if isinstance(a, tuple) and a and a[0] == 'ptr' and (a[1] == loc or is_prefix(loc, a[1])):
            return True
    return False


def index_of(loc, base):
    """i of an access path <base>.table[i] (or None)"""
    if isinstance(loc, tuple) and loc[0] == 'L' and loc[1] == base[1] and is_prefix(base, loc):
        rest = [x for x in loc[2][len(base[2]):] if x not in (('f', '#a'), ('f', '#b'))]
        if rest and rest[0][0] == 'e' and isinstance(rest[0][1], int):
            return rest[0][1]
        if not rest or rest[0][0] == 'f':
            return 0
    return None


def removed(e):
    a = e['args'][0]
    while isinstance(a, tuple) and a[0] == 'call' and len(a) > 2 and isinstance(a[2], tuple) and len(a[2]) == 1:
        a = a[2][0]
    return a[1] if isinstance(a, tuple) and a[0] == 'rd' else None


def distinct(evs):
    live = []
    for i, kind, n, loc, e in created(evs):
        if n is None:
            raise Unk('name of a temporary file at %s' % e.l)
        for k2, n2, loc2, e2 in live:
            if kind == k2 and n == n2:
                between = evs[evs.index(e2):i]
                if any(x.kind == 'call' and ('~DiskSort' in x['name'] or x['name'] in ('DiskSort::close',) or 'reset' in x['name'] or kind == 'table' and x['name'] in RM) for x in between):
                    raise Unk('name used twice: %s' % n)
                raise Bad('the file name %s is used for two sets of records at the same time' % n, e.l)
        live.append((kind, n, loc, e))
    return {(k, n) for k, n, _, _ in live}


def phase1_rule(p, names):
    ph = Phase(p, 'phase1::compute', ('phase1::compute_f1', 'phase1::compute_table', 'phase1::compute_matches'))
    for s, evs in ph.each():
        names['p1'] = distinct(evs)
        for e in evs:
            if e.kind == 'call' and e['name'] in RM:
                raise Unk('file removed in phase 1')
        for i, kind, n, loc, e in created(evs):
            if kind == 'table' and not any(x.kind == 'call' and x['name'] == 'DiskTable::get_info' and uses(x, loc) for x in evs[i:]):
                if any(x.kind == 'call' and x['name'].startswith('DiskTable::') and x['name'] not in ('DiskTable::DiskTable', 'DiskTable::~DiskTable', 'DiskTable::close', 'DiskTable::flush') and uses(x, loc) for x in evs[i:]):
                    raise Unk('table %s' % n)
                raise Bad('the file %s is not passed on, so nothing removes it' % n, e.l)


def phase2_rule(p, names):
    ph = Phase(p, 'phase2::compute', ('phase2::compute_table',))
    base = ('L', ('o', ('sym', 'p:' + ph.f['p'][0]['n'])), (('f', 'table'),))
    for s, evs in ph.each():
        names['p2'] = distinct(evs)
        rd, rm = {}, {}
        for i, e in enumerate(evs):
            if e.kind != 'call':
                continue
            if e['name'] in RM:
                l = removed(e)
                x = index_of(l, base) if l is not None else None
                if x is None:
                    raise Unk('removed file %s' % show(e['args'][0])[:80])
                rm.setdefault(x, []).append((i, e))
            elif e['name'] == 'phase2::compute_table':
                for a in e['args']:
                    if isinstance(a, tuple) and a and a[0] == 'ptr':
                        x = index_of(a[1], base)
                        if x is not None:
                            rd.setdefault(x, []).append((i, e))
        if set(rd) != {1, 2, 3, 4, 5, 6}:
            raise Unk('passes over the tables')
        if 0 in rm:
            raise Bad('the file of table 1 is removed, phase 3 still has to read it', rm[0][0][1].l)
        for x in rd:
            if x not in rm:
                raise Bad('the file of table %d is never removed' % (x + 1), rd[x][-1][1].l)
            if min(rm[x])[0] < max(rd[x], key=lambda y: y[0])[0]:
                raise Bad('the file of table %d is removed before it is read' % (x + 1), min(rm[x])[1].l)


def phase3_rule(p, names):
    ph = Phase(p, 'phase3::compute', ('phase3::compute_stage1', 'phase3::compute_stage2', 'phase3::WriteHeader'))
    root = ('o', ('sym', 'p:' + ph.f['p'][0]['n']))
    for s, evs in ph.each():
        names['p3'] = distinct(evs)
        tabs = {}
        for i, e in enumerate(evs):
            if e.kind == 'call' and e['name'] == 'DiskTable::DiskTable' and e['args'] and isinstance(e['args'][0], tuple) and e['args'][0][0] == 'ptr' and e['args'][0][1][1] == root:
                tabs[e['args'][0][1]] = (e['this'][1], i)
        if len(tabs) != 2:
            raise Unk('tables read by phase 3')
        rms = [(i, e, removed(e)) for i, e in enumerate(evs) if e.kind == 'call' and e['name'] in RM]
        if any(l is None for _, _, l in rms):
            raise Unk('removed file')
        for t, (loc, i0) in tabs.items():
            last = [i for i, e in enumerate(evs) if e.kind == 'call' and e['name'].startswith('phase3::') and uses(e, loc)]
            if not last:
                raise Unk('stage reading %s' % show(('rd', t, 0)))
            mine = [(i, e) for i, e, l in rms if is_prefix(t, l)]
            if not mine:
                raise Bad('the file of %s is never removed' % t[2][-1][1], evs[last[-1]].l)
            if mine[0][0] < last[-1]:
                raise Bad('the file of %s is removed before it is read' % t[2][-1][1], mine[0][1].l)
        for i, e, l in rms:
            if not any(is_prefix(t, l) for t in tabs):
                raise Unk('removed file %s' % show(e['args'][0])[:80])


def create_rule(p):
    """nothing else removes files around the phases"""
    from checks.c19 import KeyCfg
    f = one(p, 'create_plot')
    for s, v in Engine(p, KeyCfg()).run(f):
        if calls(s.ev, RM):
            raise Unk('create_plot removes files')


def across_rule(names):
    if set(names) != {'p1', 'p2', 'p3'}:
        raise Unk('names of a phase are not known')
    for n in names['p1'] & names['p2']:
        if n[0] == 'table':
            raise Bad('phase 2 overwrites the file %s, which is its input' % n[1], 'include/chia/phase2.hpp')
    for n in names['p2'] & names['p3']:
        raise Bad('phase 3 overwrites the files %s, which are its input' % n[1], 'include/chia/phase3.hpp')
    t1 = {n for n in names['p1'] if n[0] == 'table'}
    for n in t1 & names['p3']:
        raise Bad('phase 3 overwrites the file %s' % n[1], 'include/chia/phase3.hpp')


def check(r, tier):
    r.rule = RULE
    r.assume = ['remove() succeeds', 'nobody else uses the names of the temporary files']
    w = witness()
    try:
        kl = keep_loc(w)
        rule(r, 'DiskSort::close', H + 'close', 'close', lambda: close_rule(w, kl, 'DiskSort::close'))
        rule(r, 'DiskSort destructor', H + '~DiskSort', 'destructor', lambda: close_rule(w, kl, 'DiskSort::~DiskSort'))
        rule(r, 'DiskSort::read_bucket', H + 'read_bucket', 'read', lambda: read_rule(w, kl))
        rule(r, 'DiskSort constructor', H + 'DiskSort', 'constructor', lambda: ctor_rule(w, kl))
        for n in ('DiskSort::close', 'DiskSort::~DiskSort', 'DiskSort::read_bucket', 'DiskSort::DiskSort'):
            r.saw(n)
    except Unk as e:
        r.undecided('DiskSort: %s' % e)
    for tag in ('K32', 'K34') if tier != 'quick' else ('K32',):
        p = load(tag)
        try:
            create_rule(p)
        except Unk as e:
            r.undecided(str(e))
            continue
        names = {}
        for i, fn in ((1, phase1_rule), (2, phase2_rule), (3, phase3_rule)):
            rule(r, 'files of phase %d, %s' % (i, tag), 'include/chia/phase%d.hpp: phase%d::compute' % (i, i), 'phase %d' % i, lambda: fn(p, names))
            r.saw('phase%d::compute' % i)
        rule(r, 'names across phases, %s' % tag, 'include/chia', 'names', lambda: across_rule(names))
        r.count('names', sum(len(x) for x in names.values()))
