"""C05: a pipeline stage runs every handed-over item exactly once, in order."""
import os
from sa.ir import compile_ir, GiveUp
from sa.machine import Machine, St, Th, Violation, TOP

TECHNIQUE = 'abstract interpretation of the Thread class over LLVM IR: fixpoint over the product control-flow graph of worker and callers with items abstracted to marks'
RULE = ('in every abstract state reachable under any schedule (two callers issuing arbitrary sequences of take() and wait(), then close(); the stage function '
        'may fail at any call; condition waits may wake spuriously): the function is never entered with an empty item, never twice with the same item, never by two '
        'threads at once, never with a later item before an earlier one; wait()/close() return normally only if every item accepted before is finished, and throw if '
        'the function failed before; no accepted item and no caller is left waiting with nobody able to proceed')
SRC = '''
#include <chia/Thread.h>
struct Tok { long v; Tok():v(0){} Tok(Tok&& o):v(o.v){o.v=0;} Tok(const Tok&)=default; Tok& operator=(const Tok&)=default; Tok& operator=(Tok&& o){ long t=o.v; o.v=0; v=t; return *this;} };
extern "C" { void cb(Tok*);
Thread<Tok>* mk() { return new Thread<Tok>([](Tok& t){ cb(&t); }, ""); }
void tk(Thread<Tok>* p, long v){ Tok t; t.v=v; p->take(t); }
void wt(Thread<Tok>*p){p->wait();}
void cl(Thread<Tok>*p){p->close();}
}
'''
OTHER, A, B = 9, 1, 2
NAME = {OTHER: 'another item', A: 'item A', B: 'item B'}


class Model:
    def __init__(self, r, mod, clients=2, limit=400000):
        self.m = Machine(mod, cbs=['cb'])
        self.m.split = self.m.split_atomics = True
        self.nc, self.limit = clients, limit
        self.seen = 0

    def start(self):
        s = St()
        t = Th('main')
        s.th.append(t)
        self.m.push(s, t, '@mk', [])
        t.at = ('start',)
        s.ghost = {'A': 0, 'B': 0, 'gA': 0, 'gB': 0, 'failed': 0, 'active': 0, 'obj': 0}
        return s

    # ---- moves of the environment (callers)
    def calls(self, s):
        g = s.ghost
        if not g['obj'] or g.get('closing'):
            return []
        out = []
        for c in range(self.nc):
            tid = g['c0'] + c
            if s.th[tid].at != ('idle',):
                continue
            out.append((tid, 'take', OTHER))
            out.append((tid, 'wait', None))
            if c == 0:
                if g['gA'] == 0:
                    out.append((tid, 'take', A))
                elif g['gA'] == 2 and g['gB'] == 0:
                    out.append((tid, 'take', B))
                if all(s.th[g['c0'] + q].at == ('idle',) for q in range(self.nc)):
                    out.append((tid, 'close', None))
        return out

    def call(self, s, tid, what, v):
        s = s.copy()
        g = s.ghost
        t = s.th[tid]
        t.res = None
        obj = s.th[0].at[1]
        if what == 'take':
            self.m.push(s, t, '@tk', [obj, v])
            if v == A:
                g['gA'] = 1
            if v == B:
                g['gB'] = 1
        elif what == 'wait':
            self.m.push(s, t, '@wt', [obj])
        else:
            self.m.push(s, t, '@cl', [obj])
            g['closing'] = 1
        # what held when the call began
        g['in%d' % tid] = (what, v, int(g['gA'] == 2), int(g['gB'] == 2), g['failed'])
        t.at = ('start',)
        return s

    def note(self, s, before, tid):
        """ghost updates and checks after thread tid moved"""
        g = s.ghost
        t = s.th[tid]
        if t.at and t.at[0] == 'cb':
            p = t.at[2]
            v = self.m.load(s, p, ('i', 64))
            if v not in (OTHER, A, B):
                if v == 0:
                    raise Violation('the stage function is called with an empty (already taken) item')
                raise GiveUp('unknown item')
            if g['active']:
                raise Violation('the stage function is entered while it is still running for another item')
            g['active'] = 1
            g['cur'] = v
            if v in (A, B):
                n = 'A' if v == A else 'B'
                if g[n]:
                    raise Violation('an item is processed twice')
                if v == B and g['gA'] == 2 and not g['A'] and not g['failed']:
                    raise Violation('an item is processed before one that was accepted earlier')
                g[n] = 1
        if t.at == ('done',):
            if tid == 0 and not g['obj']:
                if t.res[0] != 'ret':
                    raise GiveUp('constructor does not return')
                g['obj'] = 1
                g['c0'] = len(s.th)
                for c in range(self.nc):
                    x = Th('caller%d' % (c + 1))
                    x.at = ('idle',)
                    x.note = t.res[1]
                    s.th.append(x)
                # keep the object reachable in the canonical state
                t.at = ('done', t.res[1])
            elif 'c0' in g and tid >= g['c0']:
                what, v, a, b, failed = g.pop('in%d' % tid)
                kind = t.res[0]
                if kind == 'abort':
                    raise Violation('%s() terminates the program' % what)
                if what == 'take':
                    if v == A:
                        g['gA'] = 2
                    if v == B:
                        g['gB'] = 2
                    if kind == 'throw':
                        g['failed'] = 1 if g['failed'] else 0
                        if not g['failed']:
                            raise Violation('take() throws although nothing failed')
                else:
                    if kind == 'ret':
                        if failed:
                            raise Violation('%s() returns normally although the stage function had failed before' % what)
                        if a and g['A'] != 2 or b and g['B'] != 2:
                            raise Violation('%s() returns although an item accepted before is not finished (%s)' % (
                                what, 'lost or waiting' if (a and not g['A'] or b and not g['B']) else 'still being processed'))
                        if what == 'close':
                            for q, x in enumerate(s.th[:g['c0']]):
                                if q and x.at != ('done',):
                                    raise Violation('close() returns while the worker thread is still running')
                    elif kind == 'throw' and not g['failed']:
                        raise Violation('%s() throws although nothing failed' % what)
                t.at = ('stopped',) if what == 'close' or g.get('closing') else ('idle',)
            elif t.res and t.res[0] == 'abort':
                raise Violation('the worker terminates the program')
            elif t.res and t.res[0] == 'throw':
                raise Violation('an exception leaves the worker thread')

    def before(self, s, tid, label):
        """ghost update when a callback ends"""
        g = s.ghost
        t = s.th[tid]
        if t.at[0] == 'cb':
            g['active'] = 0
            v = g.pop('cur')
            if v in (A, B):
                g['A' if v == A else 'B'] = 2
            if label == 'throw':
                g['failed'] = 1

    def explore(self):
        s0 = self.start()
        todo = [s0]
        seen = {s0.key(): None}
        edges = 0
        while todo:
            s = todo.pop()
            mv = self.m.moves(s)
            succ = []
            cur = None
            try:
                logs = []
                for tid, label, spur in mv:
                    cur = (s.th[tid].name, label)
                    self.m.log = []
                    logs.append((tid, self.m.log))
                    b = s.copy()
                    self.before(b, tid, label)
                    for x in self.m.apply(b, tid, label):
                        self.note(x, s, tid)
                        succ.append((cur, x))
                self.m.log = None
                cur = None
                race(s, logs)
                for tid, what, v in self.calls(s):
                    cur = (s.th[tid].name, '%s(%s)' % (what, NAME.get(v, '')))
                    succ.append((cur, self.call(s, tid, what, v)))
                cur = None
                if not any(not sp for _, _, sp in mv):
                    self.stuck(s)
            except Violation as e:
                raise Violation('%s [%s]' % (e, self.path(s, cur)))
            for lab, x in succ:
                edges += 1
                k = x.key()
                if k not in seen:
                    seen[k] = 1
                    x.trace = (s.trace, lab)
                    todo.append(x)
            if len(seen) > self.limit:
                raise GiveUp('more than %d abstract states' % self.limit)
        self.seen, self.edges = len(seen), edges

    def stuck(self, s):
        g = s.ghost
        if not g['obj']:
            raise GiveUp('constructor blocked')
        for t in s.th[g['c0']:]:
            if t.at not in (('idle',), ('stopped',)):
                raise Violation('%s never returns: nobody is left who could wake it (blocked in %s)' % (t.name, t.at[0]))
        for n in 'AB':
            if g['g' + n] == 2 and not g[n] and not g['failed'] and not g.get('closing'):
                raise Violation('an accepted item is never processed: the worker sleeps')

    def path(self, s, last):
        out = []
        t = s.trace
        while t:
            out.append(t[1])
            t = t[0]
        out.reverse()
        out = out[-14:] + ([last] if last else [])
        return ', '.join('%s: %s' % (a, b if isinstance(b, str) else b[0]) for a, b in out)


def race(s, logs):
    """two threads that can both go next touch the same bytes, one writing, without a common mutex"""
    for x in range(len(logs)):
        ta, la = logs[x]
        la = {e for e in la if e[0] in s.mem and e[0][0] in 'hg'}
        if not la:
            continue
        for y in range(x):
            tb, lb = logs[y]
            if ta == tb:
                continue
            for e in la:
                for f in lb:
                    if e[0] == f[0] and (e[3] or f[3]) and e[1] < f[1] + f[2] and f[1] < e[1] + e[2] and not (e[4] & f[4]):
                        raise Violation('%s and %s access the same member at the same time without a common lock' % (s.th[ta].name, s.th[tb].name))


def check(r, tier):
    r.rule = RULE
    where = 'include/chia/Thread.h: Thread<T>'
    try:
        mod = compile_ir(SRC, 'c05', ['-D_GNU_SOURCE'])
    except GiveUp as e:
        if 'does not compile' in str(e):
            r.undecided('Thread witness: %s' % str(e)[:300])
            return
        raise
    for n in (1, 2):
        what = '%d caller%s' % (n, 's' if n > 1 else '')
        M = Model(r, mod, n)
        try:
            M.explore()
            r.ok(what + ': all reachable abstract states satisfy the protocol')
            r.count('abstract states', M.seen)
            r.count('transitions', M.edges)
        except Violation as e:
            r.violation(where, '%s: %s' % (what, e), key='thread ' + str(e).split(' [')[0])
            break
        except GiveUp as e:
            r.undecided('%s: %s' % (what, str(e)[:300]))
        if M.m.forks:
            r.count('unknown branches', len(M.m.forks))
    r.saw('Thread::Thread', 'Thread::take', 'Thread::wait', 'Thread::close', 'Thread::loop')
