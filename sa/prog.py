"""The resolved program: loads the AST dumps of /repo's translation units."""
import fcntl, hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'
CLANGXX = LLVM + '/bin/clang++'


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (missing anchor, parse failure)."""


class SourceBroken(AnalysisBroken):
    """The repository (or the tool) does not compile."""


def strip_tmpl(n):
    """drop balanced template argument lists from a qualified name"""
    out = []
    depth = 0
    i = 0
    while i < len(n):
        if depth == 0 and n.startswith('operator', i) and (i == 0 or not (n[i-1].isalnum() or n[i-1] == '_')):
            m = re.match(r'operator\s*(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\]|[^\w\s<(]+|)', n[i:])
            out.append(m.group(0))
            i += m.end()
            continue
        c = n[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


_strip_cache = {}


def base(n):
    r = _strip_cache.get(n)
    if r is None:
        # function-local classes print their enclosing function's signature
        s = strip_tmpl(n)
        s = re.sub(r'\((?:[^()]|\([^()]*\))*\)(?=::)', '', s)
        _strip_cache[n] = r = s
    return r


class Program:
    def __init__(self, path, tag):
        d = json.load(open(path))
        self.tag = tag
        self.functions = {int(k): v for k, v in d['functions'].items()}
        self.records = {int(k): v for k, v in d['records'].items()}
        self.globals = {int(k): v for k, v in d['globals'].items()}
        self.by_type = {}
        for r in self.records.values():
            r['base'] = base(r['n'])
            self.by_type.setdefault(r['t'], r)
        self.by_base = {}
        for f in self.functions.values():
            f['base'] = base(f['n'])
            self.by_base.setdefault(f['base'], []).append(f)
        self.lambdas_in = {}
        for f in self.functions.values():
            if f.get('lambda') and 'in' in f:
                self.lambdas_in.setdefault(f['in'], []).append(f)

    def fns(self, name):
        """all instantiations of a function given its base qualified name"""
        return self.by_base.get(name, [])

    def one_per_pattern(self, fs):
        seen, out = set(), []
        for f in fs:
            if f['l'] not in seen:
                seen.add(f['l'])
                out.append(f)
        return out

    def source_functions(self, exclude=()):
        for f in self.functions.values():
            if f.get('implicit') or f.get('defaulted'):
                continue
            yield f

    def record_of(self, t):
        t = t.replace('const ', '').strip()
        while t.endswith('&') or t.endswith('*'):
            t = t[:-1].strip()
        return self.by_type.get(t)


def walk(n):
    """pre-order over AST nodes (dicts with 'k')"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            stack.extend(v for v in reversed(list(x.values())) if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(v for v in reversed(x) if isinstance(v, (dict, list)))


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_tool(name):
    """compile tool/<name>.cpp when missing or older than its source"""
    src = os.path.join(VERIF, 'tool', name + '.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, '%s-%s' % (name, h))
    with Lock(name):
        if not os.path.exists(out):
            r = _run([CLANGXX, '-std=c++17', '-O1', '-fno-rtti', '-w', '-I' + LLVM + '/include', src,
                      '-o', out + '.new', LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so'])
            if r.returncode:
                raise SourceBroken('cannot build %s: %s' % (name, r.stdout[-2000:]))
            os.rename(out + '.new', out)
    return out


def repo_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for top in ('include', 'src', 'lib'):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.h', '.hpp', '.c', '.cpp', '.cc', '.inc')):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    for f in sorted(os.listdir(os.path.join(VERIF, 'stubs'))):
        h.update(open(os.path.join(VERIF, 'stubs', f), 'rb').read())
    return h.hexdigest()[:20]


FLAGS = ['-std=c++17', '-w', '-DGIT_COMMIT_HASH="static-analysis"', '-D_GNU_SOURCE=1',
         '-I' + REPO + '/include', '-I' + REPO + '/lib', '-I' + VERIF + '/stubs',
         '-resource-dir', LLVM + '/lib/clang/18']

_loaded = {}


def load(tag, src='src/chia_plot.cpp'):
    """tag: 'K32' or 'K34'"""
    if (tag, src) in _loaded:
        return _loaded[(tag, src)]
    tool = build_tool('astdump')
    h = repo_hash(tag + src + os.path.basename(tool) + (open(src).read() if os.path.isabs(src) else ''))
    out = os.path.join(BUILD, 'ast-%s-%s-%s.json' % (tag, os.path.basename(src), h))
    with Lock('ast-' + tag):
        if not os.path.exists(out):
            fl = FLAGS + (['-DCHIA_K34=1'] if tag == 'K34' else [])
            r = _run([tool, REPO + '/', out + '.new', os.path.join(REPO, src),
                      'cxxopts.hpp,lib/FSE', '--'] + fl)
            if r.returncode or not os.path.exists(out + '.new'):
                raise (AnalysisBroken if os.path.isabs(src) else SourceBroken)('cannot parse %s (%s): %s' % (src, tag, r.stdout[-3000:]))
            # keep the cache small
            for o in os.listdir(BUILD):
                if o.startswith('ast-%s-%s-' % (tag, os.path.basename(src))) and o.endswith('.json'):
                    os.unlink(os.path.join(BUILD, o))
            os.rename(out + '.new', out)
    p = Program(out, tag)
    _loaded[(tag, src)] = p
    return p
