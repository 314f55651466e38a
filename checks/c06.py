"""C06: a parallel stage delivers results exactly once and in input order."""
import os
from sa.ir import compile_ir, GiveUp
from sa.machine import Machine, St, Th, Violation
from checks.c05 import race

TECHNIQUE = 'abstract interpretation of ThreadPool over LLVM IR: fixpoint over the product control-flow graph of producer and workers, the inner stage replaced by the behaviour C05 establishes'
RULE = ('for 1, 2 and 3 workers (thorough: 4) and a producer that gives items (two rounds over all workers and one more), waits, reads per-worker state and closes in any order, '
        'in every reachable abstract state: each item enters the function exactly once, no two workers run with the same local state, results reach the output one at a time, '
        'exactly once and in the order the items were given, wait()/close() return only when every given item was delivered, members are never accessed by two threads at once '
        'without a common lock, and no thread waits forever')
SRC = '''
#include <chia/ThreadPool.h>
struct Tok { long v; Tok():v(0){} Tok(Tok&& o):v(o.v){o.v=0;} Tok(const Tok&)=default; Tok& operator=(const Tok&)=default; Tok& operator=(Tok&& o){ long t=o.v; o.v=0; v=t; return *this;} };
struct Res { long v; Res():v(0){} Res(Res&& o):v(o.v){o.v=0;} Res(const Res&)=default; Res& operator=(const Res&)=default; Res& operator=(Res&& o){ long t=o.v; o.v=0; v=t; return *this;} };
struct Loc { long v = 0; };
extern "C" { void ex(Tok*, Res*, Loc*); void ou(Res*); }
struct Out : Processor<Res> { void take(Res& r) override { ou(&r); } };
typedef ThreadPool<Tok, Res, Loc> Pool;
extern "C" {
Pool* mk(int n, int with_out) { return new Pool([](Tok& t, Res& r, Loc& l){ ex(&t, &r, &l); }, with_out ? new Out() : nullptr, n, ""); }
void tk(Pool* p, long v){ Tok t; t.v=v; p->take(t); }
void wt(Pool* p){ p->wait(); }
void cl(Pool* p){ p->close(); }
Loc* gl(Pool* p, long i){ return &p->get_local(i); }
}
'''


class Model:
    def __init__(self, mod, n, items, out=1, limit=300000, split=True, first='@mk'):
        self.m = Machine(mod, cbs=['ex', 'ou'])
        self.m.split = split
        self.m.may_throw = False
        self.n, self.N, self.out, self.limit = n, items, out, limit

    def start(self):
        s = St()
        t = Th('producer')
        s.th.append(t)
        self.m.push(s, t, '@mk', [self.n, self.out])
        t.at = ('start',)
        s.ghost = {'obj': 0, 'given': 0, 'ex': (), 'out': 0, 'outact': 0, 'what': None}
        return s

    def calls(self, s):
        g = s.ghost
        t = s.th[0]
        if not g['obj'] or t.at != ('idle', g['obj']):
            return []
        out = []
        if g['given'] < self.N:
            out.append(('take', g['given'] + 1))
        out.append(('wait', None))
        out.append(('close', None))
        if g['given'] == self.N:
            for i in range(self.n):
                out.append(('get_local', i))
        return out

    def call(self, s, what, v):
        s = s.copy()
        g = s.ghost
        t = s.th[0]
        obj = g['obj']
        fn = {'take': '@tk', 'wait': '@wt', 'close': '@cl', 'get_local': '@gl'}[what]
        self.m.push(s, t, fn, [obj] + ([v] if v is not None else []))
        t.at = ('start',)
        g['what'] = (what, v)
        return s

    def note(self, s, tid):
        g = s.ghost
        t = s.th[tid]
        if t.at and t.at[0] == 'cb':
            if t.at[1] == 'ex':
                v = self.m.load(s, t.at[2], ('i', 64))
                if not isinstance(v, int):
                    raise GiveUp('unknown item')
                if v == 0:
                    raise Violation('the function is called with an empty item')
                ex = dict((a, (b, c)) for a, b, c in g['ex'])
                if v in ex:
                    raise Violation('item %d is processed twice' % v)
                for w, (st, loc) in ex.items():
                    if st == 1 and loc == t.at[4]:
                        raise Violation('two items are processed at the same time with the same per-worker state')
                ex[v] = (1, t.at[4])
                g['ex'] = tuple(sorted((a,) + b for a, b in ex.items()))
                t.note = (t.note, v)
            else:
                v = self.m.load(s, t.at[2], ('i', 64))
                if not isinstance(v, int):
                    raise GiveUp('unknown result')
                if g['outact']:
                    raise Violation('two workers hand over results at the same time')
                if v != g['out'] + 1:
                    if v == 0:
                        raise Violation('an empty result is handed over')
                    if v <= g['out']:
                        raise Violation('the result of item %d is handed over twice' % v)
                    raise Violation('the result of item %d is handed over before that of item %d' % (v, g['out'] + 1))
                g['outact'] = 1
                g['out'] = v
        if t.at == ('done',):
            if tid == 0:
                if t.res[0] != 'ret':
                    raise Violation('%s does not return normally' % (g['what'][0] if g['what'] else 'construction'))
                if not g['obj']:
                    g['obj'] = t.res[1]
                    t.at = ('idle', g['obj'])
                    return
                what, v = g['what']
                if what == 'take':
                    g['given'] = v
                    # the item must be accepted: nothing to check here, its delivery is checked by wait/close
                elif what == 'get_local':
                    if any(b == 1 and c == t.res[1] for a, b, c in g['ex']):
                        raise Violation('get_local() gives out per-worker state that a running worker is using')
                else:
                    done = {a for a, b, c in g['ex'] if b == 2}
                    for i in range(1, g['given'] + 1):
                        if i not in done:
                            raise Violation('%s() returns although item %d was not processed' % (what, i))
                    if self.out and (g['out'] != g['given'] or g['outact']):
                        raise Violation('%s() returns although the result of item %d was not delivered' % (what, g['out'] + (0 if g['outact'] else 1)))
                t.res = None
                t.at = ('stopped',) if what == 'close' else ('idle', g['obj'])
            elif t.res and t.res[0] in ('abort', 'throw'):
                raise Violation('a worker ends abnormally')

    def before(self, s, tid):
        g = s.ghost
        t = s.th[tid]
        if t.at[0] == 'cb':
            if t.at[1] == 'ex':
                i, v = t.note
                t.note = i
                g['ex'] = tuple(sorted((a, 2 if a == v else b, 0 if a == v else c) for a, b, c in g['ex']))
                self.m.store(s, t.at[3], ('i', 64), v)
            else:
                g['outact'] = 0

    def quiet(self, s):
        """nothing is under way: the producer is between calls and every given item was delivered"""
        g = s.ghost
        t = s.th[0]
        if not g['obj'] or t.at != ('idle', g['obj']) or g['outact'] or self.out and g['out'] != g['given'] or len(g['ex']) != g['given']:
            return
        if any(b != 2 for a, b, c in g['ex']) or self.m.moves(s):
            return
        self.rest.setdefault(g['given'], s)

    def later(self):
        """the state after a long history: members that grow by the same amount in every round over the workers, moved ahead to just below a power of two"""
        a, b = self.rest.get(self.n), self.rest.get(2 * self.n)
        if a is None or b is None:
            return []
        grow = {}
        for o, m in a.mem.items():
            for k, (w, v) in m.items():
                x = b.mem.get(o, {}).get(k)
                if o[0] == 'h' and isinstance(v, int) and x and x[0] == w and isinstance(x[1], int) and x[1] != v:
                    grow[o, k] = (w, v, (x[1] - v) & ((1 << 8 * w) - 1))
        out = []
        for bit in (8, 16, 31, 32):
            best = None
            for (o, k), (w, v, d) in grow.items():
                if 0 < d <= 8 and v < 1000 and 8 * w >= bit:
                    best = ((1 << bit) - 1 - v) // d if best is None else best
            if best is None:
                continue
            s = a.copy()
            for (o, k), (w, v, d) in grow.items():
                s.mem[o][k] = (w, (v + best * d) & ((1 << 8 * w) - 1))
            s.trace = (None, ('history', 'about 2^%d items given and delivered' % bit))
            out.append((bit, s))
        return out

    def explore(self, s0=None):
        s0 = s0 or self.start()
        self.rest = {}
        todo = [s0]
        seen = {s0.key()}
        edges = 0
        while todo:
            s = todo.pop()
            mv = self.m.moves(s)
            self.quiet(s)
            succ, logs = [], []
            cur = None
            try:
                for tid, label, spur in mv:
                    cur = (s.th[tid].name, label if label != 'ret' else s.th[tid].at[1] + ' ends')
                    self.m.log = []
                    logs.append((tid, self.m.log))
                    b = s.copy()
                    self.before(b, tid)
                    for x in self.m.apply(b, tid, label):
                        self.note(x, tid)
                        succ.append((cur, x))
                self.m.log = None
                cur = None
                race(s, [(t, [e for e in l if not e[5].startswith(('@_ZN6Thread', '@_ZNSt6vector'))]) for t, l in logs])
                for what, v in self.calls(s):
                    succ.append((('producer', '%s(%s)' % (what, '' if v is None else v)), self.call(s, what, v)))
                if not any(not sp for _, _, sp in mv) and s.th[0].at[0] not in ('idle', 'stopped'):
                    raise Violation('%s() never returns: no thread is left that could proceed' % (s.ghost['what'][0] if s.ghost['what'] else 'construction'))
            except Violation as e:
                out, t = [], s.trace
                while t:
                    out.append(t[1])
                    t = t[0]
                out.reverse()
                raise Violation('%s [%s]' % (e, ', '.join('%s: %s' % (a, b if isinstance(b, str) else b[0]) for a, b in out[-14:] + ([cur] if cur else []))))
            for lab, x in succ:
                edges += 1
                k = x.key()
                if k not in seen:
                    seen.add(k)
                    x.trace = (s.trace, lab)
                    todo.append(x)
            if len(seen) > self.limit:
                raise GiveUp('more than %d abstract states' % self.limit)
        self.seen, self.edges = len(seen), edges


def check(r, tier):
    r.rule = RULE
    where = 'include/chia/ThreadPool.h: ThreadPool<T,S,L>'
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    mod = None
    try:
        mod = compile_ir(SRC, 'c06', first=['-I' + here + '/witness/pool'])
    except GiveUp as e:
        r.undecided('ThreadPool witness: %s' % str(e)[:300])
        return
    runs = [(1, 3, 1), (2, 5, 1), (2, 3, 0), (3, 5, 1)]
    if tier == 'thorough':
        runs += [(3, 7, 1), (4, 6, 1)]
    for n, items, out in runs:
        what = '%d worker%s, %d items%s' % (n, 's' if n > 1 else '', items, '' if out else ', no output')
        M = Model(mod, n, items, out, split=n < 3)
        try:
            M.explore()
            r.ok(what + ': all reachable abstract states satisfy the protocol')
            r.count('abstract states', M.seen)
            r.count('transitions', M.edges)
        except Violation as e:
            r.violation(where, '%s: %s' % (what, e), key='pool ' + str(e).split(' [')[0])
            break
        except GiveUp as e:
            r.undecided('%s: %s' % (what, str(e)[:300]))
            continue
        for bit, s in M.later() if out else ():
            M2 = Model(mod, n, s.ghost['given'] + 2 * n + 1, out, split=n < 3)
            w2 = '%d worker%s after about 2^%d items' % (n, 's' if n > 1 else '', bit)
            try:
                M2.explore(s)
                r.ok(w2 + ': all reachable abstract states satisfy the protocol')
                r.count('abstract states', M2.seen)
                r.count('transitions', M2.edges)
            except Violation as e:
                r.violation(where, '%s: %s' % (w2, e), key='pool ' + str(e).split(' [')[0])
                break
            except GiveUp as e:
                r.undecided('%s: %s' % (w2, str(e)[:300]))
        if M.m.forks:
            r.count('unknown branches', len(M.m.forks))
    r.saw('ThreadPool::ThreadPool', 'ThreadPool::take', 'ThreadPool::wait', 'ThreadPool::close', 'ThreadPool::wrapper', 'ThreadPool::get_local')
