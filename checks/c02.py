"""C02: moving a finished plot never loses or damages it."""
from sa.prog import load, AnalysisBroken
from sa.engine import Engine, show, L
from sa import terms as T
from sa.fs import FS, Run
from sa.report import short
from checks.c01 import IOCfg

TECHNIQUE = 'file-system typestate (abstract interpretation of every path and crash point of the move)'
RULE = ('on every path of final_copy (callees inlined) and after every file operation on it, some file name holds the complete '
        'plot; on normal return the destination does, on an exception the source still does; the copy loop hands on exactly '
        'the bytes it read until end of file')


class InlineCfg(IOCfg):
    rotate = True

    def __init__(self):
        super().__init__(set(), set())

    def opaque(self, eng, f):
        return False


def move_paths(r, tag):
    p = load(tag)
    fs = p.fns('final_copy')
    if not fs:
        raise AnalysisBroken('final_copy not found')
    f = fs[0]
    eng = Engine(p, InlineCfg())
    res = eng.run(f)
    names = [x['n'] for x in f['p']]
    if len(names) < 2:
        raise AnalysisBroken('final_copy: unexpected parameters')
    src = ('rd', L(('o', ('sym', 'p:' + names[0]))), 0)
    dst = ('rd', L(('o', ('sym', 'p:' + names[1]))), 0)
    for i in eng.stats['functions']:
        if i in p.functions:
            r.saw(p.functions[i]['base'])
    return p, f, res, src, dst


def check(r, tier):
    r.rule = RULE
    r.assume = ['rename() within one file system is atomic and leaves both names unchanged when it fails',
                'the source is a regular file nobody else modifies while it is moved']
    for tag in (('K32',) if tier == 'quick' else ('K32', 'K34')):
        r.build = tag
        p, f, res, src, dst = move_paths(r, tag)
        r.count('paths', len(res))
        for st, rv in res:
            if st.out and st.out[0] == 'abort':
                continue
            same = st.facts.decide(T.eq(src, dst))
            lost = []

            def step(fs, e):
                r.count('file_operations_on_paths')
                if not any(v == ('plot',) or v == 'unknown' for v in fs.c.values()):
                    lost.append((e, list(fs.trace)))
            run = Run(st.facts, step)
            outs = run.events([FS({src: ('plot',)})], st.ev)
            if lost:
                e, tr = lost[0]
                r.violation('%s in %s' % (short(e.l), f['base']), 'after this operation no name holds the complete plot', tr,
                            key='no complete copy')
            else:
                r.ok('path ending %s: a complete copy exists after each of %d operations' % (
                    'normally' if not st.out else 'with an exception', len(st.ev)))
            for fs in outs:
                if st.out:
                    if fs.get(src) not in (('plot',), 'unknown'):
                        r.violation('%s in %s' % (short(st.out[3] if len(st.out) > 3 else f['l']), f['base']),
                                    'the move fails here although the source is already gone (%s)' % fs.get(src), fs.trace,
                                    key='failure after removing the source')
                    else:
                        r.ok('failing path leaves the source in place')
                elif same:
                    if fs.get(src) != ('plot',):
                        r.violation('%s' % f['base'], 'source and destination are the same file and it is damaged', fs.trace, key='same file')
                    else:
                        r.ok('same file: left alone')
                else:
                    d = fs.get(dst)
                    if d == ('plot',):
                        r.ok('normal return: destination complete')
                    elif d == 'unknown':
                        r.undecided('destination written by something not modelled')
                    else:
                        r.violation('%s in %s' % (short(f['l']), f['base']),
                                    'returns normally but the destination is %s' % ('not created' if d in ('other', 'absent') else d), fs.trace,
                                    key='normal return without complete destination')
