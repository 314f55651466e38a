"""Generic instances of DiskSort and DiskTable (witness/sorttable.cpp): records and keys are uninterpreted; 'put'/'get' events show where a
record is serialised to and read from, keys are the term ('call', 'key', (record value,))."""
import os
from .prog import load, VERIF, AnalysisBroken
from .engine import Engine, L, show, set_range, split_index, loc_ext
from .pipe import PipeCfg
from . import terms as T

DISK = 21


class DiskCfg(PipeCfg):
    keep_paths = True      # paths that differ only in what they know are kept apart

    def opaque(self, eng, f):
        return f['base'].startswith(('Thread::', 'ThreadPool::', 'Processor::')) and f['base'] != 'Processor::take_copy'

    def model(self, eng, st, name, node, this, args):
        l = node.get('l', '')
        if name == 'w::Key::operator()':
            v = args[0]
            if isinstance(v, tuple) and v[0] == 'ptr':
                v = eng.read(st, v[1])
            k = ('call', 'key', (v,))
            set_range(k, 'unsigned long')
            return [(st, k)]
        if name == 'w::Rec::write':
            eng.emit(st, 'put', l, rec=eng.read(st, this[1]) if isinstance(this, tuple) and this[0] == 'ptr' else this, dst=args[0])
            return [(st, None)]
        if name == 'w::Rec::read':
            v = ('rec', args[0], st.fresh())
            eng.emit(st, 'get', l, src=args[0], rec=v, dst=this)
            if isinstance(this, tuple) and this[0] == 'ptr':
                eng.write(st, this[1], v, l)
            return [(st, None)]
        if name.startswith(('DiskSort::', 'DiskTable::')):
            return None
        return PipeCfg.model(self, eng, st, name, node, this, args)


def witness():
    return load('K32', os.path.join(VERIF, 'witness', 'sorttable.cpp'))


class Bad(Exception):
    """the rule is definitely violated; args: message, location"""


class Unk(Exception):
    """outside what the rule can read"""


def is_rd(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == 'rd' and isinstance(x[1], tuple) and len(x[1]) == 3


def is_rdf(x):
    return is_rd(x) or isinstance(x, tuple) and len(x) == 3 and x[0] == 'fld'


VAGUE = ('undef', 'phx', 'moved', 'havoc', 'bytes')


def vague(t):
    for x in T.subterms(t):
        if isinstance(x, tuple) and x:
            if x[0] in VAGUE:
                return True
            if x[0] == 'sym' and len(x) > 2:
                return True
    return False


def eqv(a, b, facts=None):
    """True / False / None (cannot tell)"""
    if a == b:
        return True
    if a is None or b is None:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and (a[0] == 'ptr' or b[0] == 'ptr'):
        a, b = ptr(a), ptr(b)
        if a[0] != b[0]:
            return None if vague(a[0]) or vague(b[0]) else False
        a, b = a[1], b[1]
        if a == b:
            return True
    if not (T.numericish(a) and T.numericish(b)):
        return None
    d = T.sub(a, b)
    if isinstance(d, int):
        return d == 0
    if facts is not None:
        lo, hi = facts.range(d)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        # an equality recorded on the path
        for f in facts.items:
            if f[0] == 'eq' and f[1] in (d, T.scale(d, -1)):
                return True
    if vague(d):
        return None
    # the same quantity read at different times is not comparable
    eps = {}
    for x in T.subterms(d):
        if isinstance(x, tuple) and x and x[0] == 'rd':
            eps.setdefault(x[1], set()).add(x[2])
    if any(len(v) > 1 for v in eps.values()):
        return None
    return False


def want(a, b, msg, l, facts=None):
    r = eqv(a, b, facts)
    if r is False:
        raise Bad('%s (%s instead of %s)' % (msg, show(a)[:120], show(b)[:120]), l)
    if r is None:
        raise Unk('%s: cannot compare %s and %s' % (msg, show(a)[:120], show(b)[:120]))


def want_count(lp, n, msg, facts=None):
    """the loop runs exactly n times"""
    b = lp.get('bound')
    if b is not None:
        return want(b, n, msg, lp.l, facts)
    b = lp.get('raw_bound')
    if b is not None and eqv(b, n, facts) is False:
        raise Bad('%s (%s instead of %s)' % (msg, show(b)[:120], show(n)[:120]), lp.l)
    raise Unk('%s: number of iterations not known' % msg)


def proves_lt(facts, a, b):
    """True: a < b on this path; False: only a <= b or nothing relates them; None: cannot tell"""
    lo, hi = facts.range(T.sub(a, b))
    if hi <= -1:
        return True
    if hi == 0:
        return False
    return None


def ptr(v):
    """(object the pointer points into, element index)"""
    if isinstance(v, tuple) and v[0] == 'ptr':
        b, i = split_index(v[1])
        if b[1][0] == 'o' and not b[2]:
            return b[1][1], i
        return ('ptr', b), i
    return v, 0


def element(loc):
    """innermost vector element a location lies in: (vector location, index, element location, rest of the path)"""
    p = loc[2]
    for j in range(len(p) - 1, -1, -1):
        if p[j] == ('f', '#b'):
            if j + 1 < len(p) and p[j + 1][0] == 'e':
                return ('L', loc[1], p[:j]), p[j + 1][1], ('L', loc[1], p[:j + 2]), p[j + 2:]
            return ('L', loc[1], p[:j]), 0, ('L', loc[1], p[:j + 1]), p[j + 1:]
    return None


def size_of(vec, ep=0):
    return ('rd', loc_ext(vec, ('f', '#n')), ep)


def mentions(facts, t):
    return any(T.contains(f, t) for f in facts.items)


def null_fact(facts, v):
    """the path knows that v is null"""
    return any(f[0] == 'eq' and f[1] == v or f == ('not', v) for f in facts.items) or facts.decide(T.eq(v, 0)) == 1


def rule(r, what, where, key, fn):
    """run one rule function: it raises Bad or Unk, or returns"""
    try:
        fn()
        r.ok(what)
    except Bad as e:
        l = e.args[1] if len(e.args) > 1 else ''
        r.violation('%s%s' % (where, ' (%s)' % l if l else ''), '%s fails: %s' % (what, e.args[0]), key=key)
    except Unk as e:
        r.undecided('%s: %s' % (what, str(e)[:300]))
    except AnalysisBroken as e:
        r.undecided('%s: %s' % (what, str(e)[:300]))
    except Exception as e:
        r.undecided('%s: %s: %s' % (what, type(e).__name__, str(e)[:200]))


def normal(eng, f, **kw):
    return [(s, v) for s, v in eng.run(f, **kw) if not s.out or s.out[0] == 'ret']
