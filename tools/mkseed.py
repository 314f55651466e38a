#!/usr/bin/env python3
"""mkseed.py ID PROPERTY file old new [file old new ...] -- writes seeded/ID/patch.diff; demo.sh and meta.json are written by hand"""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, edits):
    d = tempfile.mkdtemp(dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
        for f, a, b in edits:
            p = d + '/r/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.check_output(['git', '-C', d + '/r', 'diff'], text=True)
        os.makedirs(V + '/seeded/' + id, exist_ok=True)
        open(V + '/seeded/' + id + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(d)
