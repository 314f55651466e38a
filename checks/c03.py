"""C03: a name ending in .plot never denotes an unfinished plot."""
from sa.prog import load, walk, base, AnalysisBroken
from sa.engine import Engine, show
from sa import terms as T
from sa.fs import FS, Run, suffix
from sa.report import short
from checks.c01 import IOCfg, io_kind
from checks.c02 import move_paths

TECHNIQUE = 'file-system typestate over every function that opens, renames or moves the plot file'
RULE = ('no stream is opened for writing on a *.plot name; a rename onto a *.plot name happens only after every stream '
        'opened for writing on the source was closed successfully and nothing is written to it afterwards; while moving, the '
        'destination name is only ever created by renaming a complete file')


class Cfg3(IOCfg):
    """inline everything except functions that build pipelines"""
    def __init__(self, opq):
        super().__init__(set(), set())
        self.opq = opq

    def opaque(self, eng, f):
        return f['id'] in self.opq


def spawning(p):
    out = set()
    for f in p.functions.values():
        if not f.get('b'):
            continue
        for n in walk(f['b']):
            if n['k'] == 'Ctor' and isinstance(n.get('f'), dict) and base(n['f'].get('n', '')) in (
                    'Thread::Thread', 'ThreadPool::ThreadPool', 'std::thread::thread'):
                out.add(f['id'])
                break
    return out


def check(r, tier):
    r.rule = RULE
    r.assume = ['rename() is atomic']
    for tag in (('K32',) if tier == 'quick' else ('K32', 'K34')):
        r.build = tag
        p, f, res, src, dst = move_paths(r, tag)
        for st, rv in res:
            if st.facts.decide(T.eq(src, dst)):
                continue
            bad = []

            def step(fs, e):
                if fs.get(dst) == 'partial':
                    bad.append((e, list(fs.trace)))
            Run(st.facts, step).events([FS({src: ('plot',)})], st.ev)
            if bad:
                e, tr = bad[0]
                r.violation('%s in %s' % (short(e.l), f['base']), 'the destination name exists with incomplete contents here', tr,
                            key='partial destination')
            else:
                r.ok('final_copy path: destination never partial')
        opq = spawning(p)
        roots = []
        for g in p.functions.values():
            if g.get('b') and g['base'] not in ('final_copy', 'main') and any(
                    n['k'] == 'Call' and isinstance(n.get('f'), dict) and io_kind(base(n['f']['n']))
                    and base(n['f']['n']).split('::')[-1] in ('fopen', 'rename') for n in walk(g['b'])):
                roots.append(g)
        # functions calling phase computations: whole life of the plot file
        roots += [g for n in ('phase3::compute', 'phase4::compute') for g in p.fns(n) if g not in roots]
        n_ren = 0
        for g in p.one_per_pattern(roots):
            eng = Engine(p, Cfg3(opq - {g['id']}))
            r.saw(g['base'])
            for st, rv in eng.run(g):
                opened = {}      # stream -> path, for write
                closed_ok = set()
                final = {}       # names established
                for e in st.ev:
                    if e.kind == 'io' and e['name'] == 'fopen':
                        mode = e['args'][1][1] if isinstance(e['args'][1], tuple) and e['args'][1][0] == 'str' else None
                        w = mode is None or mode[:1] in 'wa' or '+' in mode
                        sfx = suffix(e['args'][0])
                        if w and mode is not None:
                            r.count('opens_for_writing')
                            if sfx is not None and sfx.endswith('.plot'):
                                r.violation('%s in %s' % (short(e.l), g['base']), 'opens %s for writing: an unfinished file with the final name' % show(e['args'][0]),
                                            key='%s: open .plot for writing' % g['base'])
                            elif e['args'][0] in final:
                                r.violation('%s in %s' % (short(e.l), g['base']), 'reopens the finished plot for writing', key='%s: reopen' % g['base'])
                            else:
                                r.ok('%s: open for writing of %s' % (short(e.l), show(e['args'][0])))
                            opened[e['ret']] = e['args'][0]
                    elif e.kind == 'io' and e['name'] == 'fclose':
                        if st.facts.decide(T.eq(e['ret'], 0)):
                            closed_ok.add(e['args'][0])
                    elif e.kind == 'io' and e['name'] == 'rename':
                        s, d = e['args'][0], e['args'][1]
                        sfx = suffix(d)
                        if sfx is not None and sfx.endswith('.plot'):
                            n_ren += 1
                            left = [k for k, v in opened.items() if v == s and k not in closed_ok]
                            if left:
                                r.violation('%s in %s' % (short(e.l), g['base']), 'gives the plot its final name while its stream is still open or was not closed successfully',
                                            [show(x) for x in st.facts.items], key='%s: rename before close' % g['base'])
                            else:
                                r.ok('%s: rename to %s after a successful close' % (short(e.l), show(d)))
                            final[d] = s
                            final[s] = s
                    elif final and (e.kind == 'io' and e['name'] in ('fwrite', 'fputs', 'fputc') or e.kind in ('call', 'callfn')):
                        for x in e.get('args') or ():
                            if x in opened and opened[x] in final:
                                r.violation('%s in %s' % (short(e.l), g['base']), 'writes to the plot after it got its final name', key='%s: write after rename' % g['base'])
                # the phase that names the plot must have written through it first
        r.count('final_renames', n_ren)
        if not n_ren:
            r.undecided('no rename to a *.plot name found')
