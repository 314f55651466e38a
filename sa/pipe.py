"""Pipeline view of the phase code: Thread, ThreadPool, DiskSort, DiskTable (and Processor) are abstract components; the engine's traces show
their construction (with the stage function as a closure value), what is handed to them, and when they are waited for, closed or destroyed."""
from .prog import base
from .engine import Cfg, L, show, loc_ext, strip_cv, deref_type

COMP = ('Thread', 'ThreadPool', 'Processor', 'DiskSort', 'DiskTable')


def comp_of(name):
    """component class and method of a base qualified name, or None"""
    for c in COMP:
        if name.startswith(c + '::'):
            return c, name[len(c) + 2:]
    return None


class PipeCfg(Cfg):
    def __init__(self, opaque=()):
        self.extra = tuple(opaque)

    def opaque(self, eng, f):
        b = f['base']
        if b == 'Processor::take_copy':
            return False
        return comp_of(b) is not None or b.startswith(self.extra) if self.extra else comp_of(b) is not None

    def model(self, eng, st, name, node, this, args):
        c = comp_of(name)
        if not c:
            return self.model2(eng, st, name, node, this, args)
        cls, m = c
        l = node.get('l', '')
        if m in ('Thread', 'ThreadPool') and cls == m:
            if len(args) < 2:
                return None
            fv = args[0]
            if isinstance(fv, tuple) and fv[0] == 'ptr':
                fv = eng.read(st, fv[1])
            d = {'loc': this[1] if isinstance(this, tuple) and this[0] == 'ptr' else None, 'cls': cls, 'fn': fv,
                 'ty': node.get('t', '')}
            if cls == 'ThreadPool':
                d['out'] = args[1] if len(args) > 1 else None
                d['n'] = args[2] if len(args) > 2 else None
            else:
                d['n'] = 1
            eng.emit(st, 'stage', l, **d)
            if d['loc'] is not None:
                eng.write(st, d['loc'], ('stage', l), l)
            return [(st, None)]
        if m == 'take' and len(args) == 1:
            v = args[0]
            if isinstance(v, tuple) and v[0] == 'ptr':
                pt = node.get('f', {}).get('pt') or ['']
                v = eng.read(st, v[1], strip_cv(deref_type(pt[0])))
                eng.emit(st, 'take', l, to=this, val=v, ref=args[0])
                eng.moved_from(st, args[0][1], '') if False else eng.havoc(st, args[0][1])
            return [(st, None)]
        return None

    def model2(self, eng, st, name, node, this, args):
        return None


def flat(evs, depth=0):
    """events of a trace including those inside loop bodies, with the loops they are in"""
    def rec(es, loops):
        for e in es:
            yield e, loops
            if e.kind == 'loop':
                for lp in e['paths']:
                    yield from rec(lp.ev, loops + (e,))
    yield from rec(evs, ())
