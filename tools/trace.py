#!/usr/bin/env python3
"""development: prints the abstract paths of a function.  trace.py [-p] [-o opaque,prefixes] [-n max] [-i inst] Function::name"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.prog import load
from sa.engine import Engine, Cfg, show
from sa.pipe import PipeCfg
a = sys.argv[1:]
pipe = '-p' in a
op, n, inst, w, tag = (), 6, None, 400, 'K32'
src = None
out = []
i = 0
while i < len(a):
    if a[i] == '-p': pass
    elif a[i] == '-o': op = tuple(a[i + 1].split(',')); i += 1
    elif a[i] == '-n': n = int(a[i + 1]); i += 1
    elif a[i] == '-w': w = int(a[i + 1]); i += 1
    elif a[i] == '-s': src = os.path.abspath(a[i + 1]); i += 1
    elif a[i] == '-i': inst = int(a[i + 1]); i += 1
    else: out.append(a[i])
    i += 1
from sa.disk import DiskCfg
class C(Cfg):
    def opaque(self, eng, f): return f['base'].startswith(op) if op else False
p = load(tag, src) if src else load(tag)
def dump(evs, ind=1):
    for e in evs:
        if e.kind == 'loop':
            print('  ' * ind + 'loop@%s id=%s bound=%s' % (e.l, e.get('id'), show(e.get('bound'))))
            for q in e['paths']:
                print('  ' * ind + ' - body %s' % (q.out[0] if q.out else 'next'))
                dump(q.ev, ind + 2)
        else:
            print(('  ' * ind + repr(e))[:w])
for name in out:
    fs = p.fns(name)
    print(name, len(fs), 'instances', [f.get('q', f['base'])[:90] for f in fs[:4]])
    for f in (fs if inst is None else fs[inst:inst + 1])[:1]:
        eng = Engine(p, DiskCfg() if src else PipeCfg(op) if pipe else C())
        res = eng.run(f)
        print(len(res), 'paths')
        for s, v in sorted(res, key=lambda x: bool(x[0].out))[:n]:
            print('PATH out=%s ret=%s' % (show(s.out)[:200] if s.out else None, show(v)[:100]), 'facts:', str([show(x) for x in s.facts.items])[:300])
            dump(s.ev)
