"""seed(id, prop, edits, needs, breaks, demo_cpp, link=[...], wrap=[...]) writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk, V

SH = '''#!/bin/bash
# compiles demo.cpp against the repository headers in a scratch directory and runs it there
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++17 %s -w -I"$here" -I"$repo/include" -I"$repo/lib" -I"$repo/lib/FSE/lib" %s "$here/demo.cpp" %s -o "$work/demo" -pthread
cd "$work"
timeout %d ./demo
'''


def seed(id, prop, edits, needs, breaks, demo, link=('src/settings.cpp',), wrap=(), flags='-O1', to=120, sh=None):
    mk(id, edits)
    d = V + '/seeded/' + id + '/'
    w = ' '.join('-Wl,--wrap=' + x for x in wrap)
    l = ' '.join('"$repo/%s"' % x if '*' not in x else '"$repo"/' + x for x in link)
    open(d + 'demo.sh', 'w').write(sh or SH % (flags, w, l, to))
    if demo:
        open(d + 'demo.cpp', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + 'meta.json', 'w'), indent=1)
