#!/usr/bin/env python3
"""Development self-test: applies small edits to scratch copies of /repo and runs checks on them.

selftest/run.py [-p C05[,C06]] [-k substring] [-j N] [-r] [-b]
Cases live in selftest/cases_*.py: CASES = [(id, [properties], [(file, old, new), ...])]; an empty property
list means the edit preserves behaviour and every check must stay quiet."""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases():
    out = []
    for f in sorted(glob.glob(os.path.join(V, 'selftest', 'cases_*.py'))):
        sp = importlib.util.spec_from_file_location('c', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.CASES
    return out


def one(case, props):
    cid, want, edits = case
    d = tempfile.mkdtemp(prefix='selftest-', dir='/tmp')
    try:
        for t in ('include', 'src', 'lib'):
            shutil.copytree('/repo/' + t, d + '/repo/' + t)
        for f, a, b in edits:
            p = d + '/repo/' + f
            s = open(p).read()
            if s.count(a) < 1:
                return cid, want, 'EDIT DOES NOT APPLY: ' + a[:60]
            open(p, 'w').write(s.replace(a, b, 1))
        os.makedirs(d + '/build')
        for x in os.listdir(V + '/build'):
            if x.startswith(('astdump', 'irdump')) and not x.endswith(('.lock', '.new')):
                os.symlink(V + '/build/' + x, d + '/build/' + x)
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/build', VERIF_EVID=d + '/ev')
        res = []
        for p in props:
            r = subprocess.run([sys.executable, V + '/check.py', p], env=env, capture_output=True, text=True)
            last = [l for l in r.stdout.splitlines() if l.startswith('  ') and not l.startswith('     ')]
            if r.returncode == 2:
                last = [r.stderr[-300:]]
            res.append((p, r.returncode, (last or [''])[0].strip()[:170]))
        return cid, want, res
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    get = lambda o, d=None: a[a.index(o) + 1] if o in a else d
    props = get('-p')
    kk = get('-k', '')
    allp = sorted(os.path.basename(x)[:-3].upper() for x in glob.glob(V + '/checks/c[0-9]*.py'))
    sel = []
    for c in cases():
        if kk and kk not in c[0]:
            continue
        if '-b' in a and not c[1] or '-r' in a and c[1]:
            continue
        ps = props.split(',') if props else (c[1] or allp)
        if c[1] and props and not set(c[1]) & set(ps):
            continue
        if c[1] and props:
            ps = [p for p in ps if p in c[1]]
        sel.append((c, ps))
    bad = 0
    with ThreadPoolExecutor(int(get('-j', '6'))) as ex:
        for cid, want, res in ex.map(lambda x: one(*x), sel):
            if isinstance(res, str):
                print('!!', cid, res)
                bad += 1
                continue
            for p, rc, msg in res:
                exp = 1 if p in want else 0
                tag = 'ok ' if rc == exp else 'BAD'
                if rc != exp:
                    bad += 1
                if rc != exp or '-v' in a:
                    print(tag, cid, p, 'rc=%d' % rc, msg)
    print('%d cases, %d unexpected' % (len(sel), bad))


if __name__ == "__main__":
    main()
