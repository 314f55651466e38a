"""main() of the plotter: paths with the command line options as symbols.

One run of the engine per topic: states that agree on everything said about the options of the topic are joined after each statement, so the
number of paths stays small although the options are independent."""
from .engine import Cfg, Engine, L, show, loc_ext, is_prefix, State
from .pipe import PipeCfg, flat, comp_of
from .disk import Unk
from . import terms as T

OPQ = ('create_plot', 'hex_to_bytes', 'bech32_address_decode', 'get_wall_time_micros', 'get_date_string_ex', 'final_copy', 'copy_file', 'interrupt_handler')


BLOCK = ('std::this_thread::sleep_for', 'sleep', 'usleep', 'std::this_thread::sleep_until')


def opt(n):
    return ('sym', 'opt:' + n)


class MainCfg(PipeCfg):
    keep_paths = True
    max_paths = 3000
    join_at = 1

    def __init__(self, tracked, events=('create_plot',), extra=()):
        PipeCfg.__init__(self)
        self.tr = set(tracked)
        self.evn = events
        self.vars = {}
        self.names = {}
        self.flags = extra
        self.throws = ()

    def about(self, t):
        return any(isinstance(x, tuple) and x in self.tr for x in T.subterms(t)) if isinstance(t, tuple) else False

    def join_key(self, st):
        def said(v):
            return isinstance(v, tuple) and self.about(v)
        loc = tuple(sorted(((repr(k), repr(v)) for k, v in st.store.items() if said(v)), key=lambda x: x[0]))
        fo = [e for e in st.ev if e.kind == 'call' and e['name'] == 'fopen' and said(e['args'][0])]
        rets = {e['ret'] for e in fo}
        fa = frozenset(x for x in st.facts.items if said(x) or any(y in rets for y in T.subterms(x) if isinstance(y, tuple)))
        evs = tuple((e.kind, e.l) for e in st.ev if e.kind == 'call' and e['name'] in self.evn or e.kind in ('stage', 'take'))
        return (loc, fa, evs, tuple(e.l for e in fo), st.out if not st.out or st.out[0] == 'ret' and isinstance(st.out[1], int) else st.out[0])

    def opaque(self, eng, f):
        return f['base'] in OPQ or PipeCfg.opaque(self, eng, f)

    def may_throw(self, name):
        return name in ('bech32_address_decode', 'final_copy', 'create_plot', 'copy_file')

    def model(self, eng, st, name, node, this, args):
        if self.flags and (comp_of(name) or name in BLOCK):
            for g in self.flags:
                eng.havoc(st, g)
        return PipeCfg.model(self, eng, st, name, node, this, args)

    def model2(self, eng, st, name, node, this, args):
        if name == 'final_copy' and self.throws:
            out = []
            for t in self.throws:
                s2 = st.fork()
                eng.emit(s2, 'call', node.get('l', ''), name=name, this=this, args=tuple(args), ret=('undef',), mut=(), raw=())
                s2.out = ('throw', t, ('exc', name), node.get('l', ''))
                out.append((s2, None))
            r = st.sym(name) if hasattr(st, 'sym') else ('sym', name, st.fresh())
            eng.emit(st, 'call', node.get('l', ''), name=name, this=this, args=tuple(args), ret=r, mut=(), raw=())
            return [(st, r)] + out
        if name == 'cxxopts::value' and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'ptr':
            loc = args[0][1]
            n = loc[1][3] if loc[1][0] == 'v' else str(loc[1][-1])
            if n in self.vars and self.vars[n] != loc:
                n = n + str(len(self.vars))
            self.vars[n] = loc
            eng.erase(st, loc)
            st.store[loc] = opt(n)
            return [(st, ('sym', 'value', n))]
        if name == 'cxxopts::OptionAdder::operator()' and args:
            vs = [eng.read(st, a[1]) if isinstance(a, tuple) and a[0] == 'ptr' else a for a in args]
            for v in vs[1:]:
                if isinstance(v, tuple) and v[:2] == ('sym', 'value') and isinstance(vs[0], tuple) and vs[0][0] == 'str':
                    for x in vs[0][1].split(','):
                        self.names[x.strip()] = v[2]
            return [(st, this)]
        if name in ('hex_to_bytes', 'bech32_address_decode') and len(args) == 1:
            v = args[0]
            if isinstance(v, tuple) and v[0] == 'ptr':
                v = eng.read(st, v[1])
            out = [(st, ('call', 'hex' if name[0] == 'h' else 'bech32', (v,)))]
            if name[0] == 'b':
                s2 = st.fork()
                s2.out = ('throw', 'std::logic_error', ('exc', name), node.get('l', ''))
                out.append((s2, None))
            return out
        if name == 'create_plot':
            vals = []
            for a in args:
                if isinstance(a, tuple) and a[0] == 'ptr':
                    n = eng._read(st, loc_ext(a[1], ('f', '#n')), 'unsigned long')
                    vals.append(('ref', eng._read(st, a[1]), n))
                else:
                    vals.append(a)
            opts = {n: eng._read(st, loc) for n, loc in self.vars.items()}
            eng.emit(st, 'plot', node.get('l', ''), vals=tuple(vals), opts=opts, flags=tuple(eng._read(st, g) for g in self.flags))
            for g in self.flags:
                eng.havoc(st, g)
        return None


def options(p):
    """option name -> symbol of the variable it is stored in"""
    fs = [f for f in p.fns('main') if f.get('b')]
    if not fs:
        raise Unk('no main')
    c = MainCfg(())
    Engine(p, c).run(fs[0])
    return fs[0], {n: opt(v) for n, v in c.names.items()}


def paths(p, f, tracked, **kw):
    c = MainCfg(tracked, **kw)
    e = Engine(p, c)
    return c, [(s, v) for s, v in e.run(f)], e


def plots(s):
    """[(event, loops)] of the calls that create a plot"""
    return [(e, lo) for e, lo in flat(s.ev) if e.kind == 'plot']
