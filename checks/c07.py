"""C07: data shared by concurrently running parts is locked, atomic or only read."""
import multiprocessing
import signal
import time
from sa.prog import load
from sa.report import short
from sa import stages

TECHNIQUE = 'static race detection: the stage graph and the live ranges of its stages are extracted from every pipeline-building function, and the heap/capture accesses of every stage function (with the locks held) are compared pairwise'
RULE = ('an object that is changed by a stage function running on several workers, by two stages that are live at the same time, or by a stage and the building thread while the stage is live, is accessed under a '
        'common lock or atomically on both sides')
KINDS = ('race', 'early')
ASSUME = ['the captured references and pointers of a stage function denote what they denoted when the stage was constructed',
          'elements of a shared array selected by the item itself (disjoint bucket or block indices) are not judged']


class Slow(Exception):
    pass


P = {}


def job(a):
    tag, key, limit = a
    p = P[tag]
    f = p.functions[key]
    def h(*_):
        raise Slow()
    signal.signal(signal.SIGALRM, h)
    signal.alarm(limit)
    t = time.time()
    try:
        B = stages.Builder(p, f)
        return key, tag, [(x.kind, x.l, x.msg, x.atomic) for x in B.find.values()], sorted(B.undec), B.pairs, B.naccess, sorted(B.nstages), time.time() - t
    except Slow:
        return key, tag, [], ['not finished within %d s' % limit], 0, 0, [], limit
    except Exception as e:
        return key, tag, [], ['analysis stopped: %s %s' % (type(e).__name__, str(e)[:100])], 0, 0, [], time.time() - t
    finally:
        signal.alarm(0)


def work(r, tier):
    jobs, seen = [], set()
    for tag in (['K32', 'K34'] if tier == 'thorough' else ['K32']):
        p = P[tag] = load(tag)
        for f in stages.builders(p):
            if f['base'] == 'main' or tier != 'thorough' and f['l'] in seen:
                continue
            seen.add(f['l'])
            jobs.append((tag, f['u'] if 'u' in f else [k for k, g in p.functions.items() if g is f][0], 200 if tier != 'thorough' else 700))
    slow = ('phase1', 'phase2')
    jobs.sort(key=lambda j: not P[j[0]].functions[j[1]]['base'].startswith(slow))
    with multiprocessing.get_context('fork').Pool(min(8, len(jobs) or 1)) as pool:
        return pool.map(job, jobs, chunksize=1)


def check(r, tier, kinds=None, rule=None):
    kinds = kinds or (lambda k, at: k == 'race' or k == 'early' and not at)
    r.rule = rule or RULE
    r.assume += ASSUME
    for key, tag, find, undec, pairs, nacc, nst, t in work(r, tier):
        f = P[tag].functions[key]
        where = '%s %s [%s]' % (short(f['l']), f['base'], tag)
        r.saw(f['base'])
        bad = [x for x in find if kinds(x[0], x[3])]
        for kind, l, msg, at in bad:
            r.violation(short(l), msg, key='%s | %s' % (f['base'], msg))
        for u in undec:
            r.undecided('%s: %s' % (where, u[:160]))
        if not bad:
            r.ok('%s: %d stages, %d access pairs, %d accesses by the building thread' % (where, len(nst), pairs, nacc))
        r.count('builder_functions')
        r.count('stages', len(nst))
        r.count('access_pairs_compared', pairs)
        r.count('main_thread_accesses_to_stage_data', nacc)
