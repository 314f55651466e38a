"""Runs one property's check, writes its evidence file and sets the exit code.

exit 0  every obligation of the rule is discharged (or listed as a known finding,
        or honestly reported as undecided in the evidence)
exit 1  a construct violates the rule: VIOLATION line + replay file
exit 2  the source does not parse, so that there is no program to analyse
"""
import json
import os
import sys
import time
import traceback
from .prog import AnalysisBroken, SourceBroken, VERIF, REPO

EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obl = []            # (text, status) status: ok / undecided
        self.viol = {}           # key -> dict
        self.cov = {}
        self.assume = []
        self.analysed = set()
        self.rule = ''
        self.build = ''

    # one obligation of the rule at one construct
    def ok(self, what):
        self.obl.append((what, 'ok'))

    def undecided(self, what):
        self.obl.append((what, 'undecided'))

    def violation(self, where, what, detail=None, key=None):
        """where: file:line / function; key: stable identity (no line numbers)"""
        key = key or '%s | %s' % (where, what)
        if key not in self.viol:
            self.viol[key] = {'where': where, 'what': what, 'detail': detail or [], 'build': self.build}

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def saw(self, *names):
        self.analysed.update(names)


def known(prop):
    out = []
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:') and 'property=%s ' % prop in l:
                out.append(l)
    except FileNotFoundError:
        pass
    return out


def short(l):
    if l and l.startswith(REPO + '/'):
        l = l[len(REPO) + 1:]
    return l or '?'


def run(prop, tier, fn, level, technique):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    r = Report(prop, tier)
    rc = 0
    err = None
    try:
        fn(r, tier)
    except SourceBroken as e:
        err = str(e)
        rc = 2
    except AnalysisBroken as e:
        # a construct the rule is anchored on is gone or unreadable for the analysis: nothing is decided, and that is reported
        err = str(e)
        r.undecided('analysis stopped: ' + err[:200])
    except Exception:
        err = traceback.format_exc()
        r.undecided('analysis stopped: ' + err[-200:])
    kf = known(prop)
    viol, lines = [], []
    for k, v in r.viol.items():
        hit = [l for l in kf if '[%s]' % k in l]
        if hit:
            lines.append(hit[0])
            continue
        viol.append(dict(v, key=k))
    replay = os.path.join(EVID, '%s-violation.json' % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    if viol:
        json.dump({'property': prop, 'rule': r.rule, 'violations': viol,
                   'replay': 'cd %s && python3 check.py %s --tier %s' % (VERIF, prop, tier)},
                  open(replay, 'w'), indent=1, default=str)
        rc = 1
    n_ok = sum(1 for _, s in r.obl if s == 'ok')
    und = sorted({w for w, s in r.obl if s != 'ok'})
    cov = {'explanation': r.rule or 'see DESIGN.md', 'functions_analysed': len(r.analysed),
           'functions': sorted(r.analysed)[:400], 'obligations_total': len(r.obl) + len(r.viol),
           'obligations_discharged': n_ok, 'undecided': und[:200], 'sites': sorted({w for w, s in r.obl if s == 'ok'})[:400]}
    cov['violation_list'] = ['%s: %s' % (v['where'], v['what']) for v in viol]
    cov.update(r.cov)
    if err:
        cov['analysis_error'] = err[-3000:]
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': len(viol),
          'assumptions': r.assume}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, default=str)
    for l in lines:
        print(l)
    print('%s %s: %d functions, %d obligations, %d discharged, %d undecided, %d violations, %.1fs' % (
        prop, tier, len(r.analysed), len(r.obl) + len(r.viol), n_ok, len(und), len(viol), time.time() - t0))
    if err:
        print('ANALYSIS ERROR: ' + err[-1500:], file=sys.stderr)
    for v in viol[:20]:
        print('  %s: %s' % (v['where'], v['what']))
        for d in v['detail'][:12]:
            print('      ' + str(d)[:400])
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    return rc
