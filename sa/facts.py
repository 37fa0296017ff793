"""Front end driver: runs the LibTooling extractor over translation units of the
tree under analysis and loads the resulting facts (type-checked, resolved)."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.environ.get('SA_BUILD', os.path.join(VERIF, 'build'))
KNOWN_ERRORS = (
    # accepted by gcc (deduced return type of a later member template); clang's recovery is local
    "with deduced return type cannot be used before it is defined",
    # EntityType/EntitySubtype constants of generated messages in switch labels, std::hash of a pair
    "case value is not a constant expression",
)


class AnalysisError(Exception):
    """the analysis could not be carried out (missing anchor, unparsable file, undecided)"""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()


def _file(p):
    with open(p, 'rb') as f:
        return f.read()


def tool():
    src = os.path.join(VERIF, 'frontend', 'ssfacts.cpp')
    want = sha(_file(src))
    pre = os.path.join(VERIF, 'frontend', 'ssfacts.bin')
    stamp = os.path.join(VERIF, 'frontend', 'ssfacts.bin.source-sha256')
    if os.path.exists(pre) and os.path.exists(stamp) and open(stamp).read().strip() == want and os.access(pre, os.X_OK):
        return pre
    out = os.path.join(BUILD, 'ssfacts-' + want[:16])
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        subprocess.run([os.path.join(VERIF, 'tools', 'build_frontend.sh'), out], check=True)
    return out


_gen = None


def generated():
    """generated message and protobuf headers for the tree's current .msg/.srv/.proto files"""
    global _gen
    if _gen:
        return _gen
    inputs = sorted(glob.glob(REPO + '/**/*.msg', recursive=True) + glob.glob(REPO + '/**/*.srv', recursive=True)
                    + glob.glob(REPO + '/**/*.proto', recursive=True))
    inputs = [p for p in inputs if '/_build/' not in p]
    key = sha(_file(VERIF + '/stubs/msgs.txt'), _file(VERIF + '/tools/genmsgs.py'), *[x for p in inputs for x in (p, _file(p))])
    out = os.path.join(BUILD, 'gen-' + key[:16])
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='gen-', dir=BUILD)
        subprocess.run([sys.executable, VERIF + '/tools/genmsgs.py', REPO, VERIF + '/stubs/msgs.txt', tmp], check=True, stdout=subprocess.DEVNULL)
        pb = os.path.join(tmp, 'pb', 'simulation_interface')
        os.makedirs(pb, exist_ok=True)
        protos = [p for p in inputs if p.endswith('.proto')]
        if protos:
            d = os.path.dirname(protos[0])
            subprocess.run(['protoc', '--cpp_out=' + pb, '-I' + d] + protos, check=True, cwd=d)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    _gen = out
    return out


_flags = None


def flags():
    global _flags
    if _flags is None:
        incs = []
        for r, d, f in os.walk(REPO):
            d[:] = sorted(x for x in d if x not in ('_build', '.git', 'rviz_plugins', 'test', 'docs'))
            if os.path.basename(r) == 'include':
                incs.append('-I' + r)
        g = generated()
        _flags = (['-std=c++17', '-x', 'c++', '-DBOOST_ALLOW_DEPRECATED_HEADERS', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
                   '-I' + VERIF + '/stubs/include', '-I' + g, '-I' + g + '/pb', '-I' + g + '/pb/simulation_interface',
                   '-I/usr/include/eigen3', '-w', '-ferror-limit=0', '-include', 'cstdint', '-include', 'iomanip', '-include', 'string',
                   '-include', 'openscenario_interpreter/expression.hpp'] + incs)
    return _flags


def _stubs_sha():
    out = []
    for r, d, f in os.walk(VERIF + '/stubs'):
        d.sort()
        for x in sorted(f):
            out += [x, _file(os.path.join(r, x))]
    return sha(*out)


_stub_key = None


def dump(tu):
    """facts for one translation unit (cached by content of everything in the tree it includes)"""
    global _stub_key
    path = tu if os.path.isabs(tu) else os.path.join(REPO, tu)
    if not os.path.exists(path):
        raise AnalysisError('anchor file vanished: ' + tu)
    t = tool()
    if _stub_key is None:
        _stub_key = _stubs_sha()
    base = sha(path, _file(VERIF + '/frontend/ssfacts.cpp'), ' '.join(flags()), _stub_key)
    cdir = os.path.join(BUILD, 'cache')
    os.makedirs(cdir, exist_ok=True)
    index = os.path.join(cdir, base[:24] + '.deps')
    if os.path.exists(index):
        try:
            deps, want, name = json.load(open(index))
            if sha(*[x for d in deps for x in (d, _file(d))]) == want and os.path.exists(name):
                return name
        except (OSError, ValueError):
            pass
    out = os.path.join(cdir, base[:24] + '-%d.json' % os.getpid())
    p = subprocess.run([t, out, '--root', REPO, '--also', VERIF + '/probes', '--'] + flags() + [path], capture_output=True, text=True, cwd=REPO)
    if not os.path.exists(out):
        raise AnalysisError('front end failed on %s: %s' % (tu, p.stderr[-500:]))
    j = json.load(open(out))
    deps = sorted(set([d for d in j['deps'] if os.path.exists(d)] + [path]))
    want = sha(*[x for d in deps for x in (d, _file(d))])
    final = os.path.join(cdir, base[:24] + '.json')
    os.rename(out, final)
    tmp = index + '.%d' % os.getpid()
    json.dump([deps, want, final], open(tmp, 'w'))
    os.rename(tmp, index)
    return final


def expand(node, S):
    if isinstance(node, str):
        if node[:1] == '@':
            if node[1:2] == '@':
                return node[1:]
            return S[int(node[1:])]
        return node
    if isinstance(node, dict):
        return {k: (expand(v, S) if not isinstance(v, (int, bool)) else v) for k, v in node.items()}
    if isinstance(node, list):
        return [expand(v, S) for v in node]
    return node


class Func:
    __slots__ = ('prog', 'tu', 'key', 'raw', '_x', 'name', 'file', 'line')

    def __init__(self, prog, tu, key, raw):
        self.prog, self.tu, self.key, self.raw, self._x = prog, tu, key, raw, None
        S = prog.strings[tu]
        self.name = expand(raw['n'], S)
        self.file = expand(raw['file'], S)
        self.line = raw['l']

    @property
    def x(self):
        if self._x is None:
            self._x = expand(self.raw, self.prog.strings[self.tu])
        return self._x

    @property
    def where(self):
        f = self.file
        return '%s:%d (%s)' % (f[len(REPO) + 1:] if f.startswith(REPO + '/') else f, self.line, self.name)

    def __repr__(self):
        return '<Func %s>' % self.where


class Program:
    def __init__(self):
        self.strings = []
        self.funcs = {}      # key -> Func (first TU wins)
        self.tufuncs = []    # per TU: key -> Func
        self.records = {}
        self.enums = {}
        self.vars = {}
        self.errors = []
        self.by_name = {}
        self.tus = []

    def add(self, path, tu):
        j = json.load(open(path))
        S = j['strings']
        self.strings.append(S)
        i = len(self.strings) - 1
        self.tus.append(tu)
        mine = {}
        for k, raw in j['functions'].items():
            f = Func(self, i, k, raw)
            mine[k] = f
            if k not in self.funcs:
                self.funcs[k] = f
                self.by_name.setdefault(f.name, []).append(f)
        self.tufuncs.append(mine)
        for k, r in j['records'].items():
            if k not in self.records or (not self.records[k].get('repo') and r.get('repo')):
                r = expand(r, S)
                r['tu'] = i
                self.records[k] = r
        for k, r in j['enums'].items():
            if k not in self.enums:
                self.enums[k] = expand(r, S)
        for k, r in j['vars'].items():
            if k not in self.vars or (self.vars[k].get('i') is None and r.get('i') is not None):
                r = expand(r, S)
                r['tu'] = i
                self.vars[k] = r
        for e in j['errors']:
            if not any(t in e for t in KNOWN_ERRORS):
                self.errors.append(e)

    def func(self, key, tu=None):
        if tu is not None:
            f = self.tufuncs[tu].get(key)
            if f:
                return f
        return self.funcs.get(key)

    def named(self, qname, file=None):
        return [f for f in self.by_name.get(qname, []) if file is None or file in f.file]

    def one(self, qname, file=None, pred=None):
        l = [f for f in self.named(qname, file) if pred is None or pred(f)]
        if not l:
            raise AnalysisError('anchor vanished: no definition of %s' % qname)
        return l[0]

    def methods(self, cls):
        r = self.records.get(cls)
        return r['m'] if r and 'm' in r else []

    def bases(self, cls, seen=None):
        """all (transitive) base class names of cls"""
        out = []
        r = self.records.get(cls)
        for b in (r or {}).get('b', []):
            if b not in out:
                out.append(b)
                for c in self.bases(b):
                    if c not in out:
                        out.append(c)
        return out


def load(tus, probes=()):
    """parse the given translation units (paths relative to the tree) and probe files of /verif/probes"""
    files = list(dict.fromkeys(tus)) + [os.path.join(VERIF, 'probes', p) for p in probes]
    tool(), flags()
    with ThreadPoolExecutor(int(os.environ.get('SA_JOBS', '8'))) as ex:
        outs = list(ex.map(dump, files))
    prog = Program()
    for f, o in zip(files, outs):
        prog.add(o, f)
    return prog


def sources(*patterns):
    """tree-relative paths of source files matching the globs"""
    out = []
    for p in patterns:
        out += sorted(glob.glob(os.path.join(REPO, p), recursive=True))
    return [o[len(REPO) + 1:] for o in out if '/_build/' not in o]


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def func_nodes(f):
    x = f.x
    yield from walk(x.get('inits'))
    yield from walk(x.get('body'))
