"""Interprocedural abstract interpreter over the resolved syntax trees.

Domain: finite disjunctions of abstract states.  A state maps abstract locations
to abstract values (constants, value-numbered terms for unknown quantities,
records, pointers, closures), plus a set of facts about unknown atoms (a truth
value, a constant binding, excluded constants or an order relation between two
terms) and a ghost component updated by the events a rule subscribes to.
Branches on unknown atoms partition the state; joins are set unions with
duplicate elimination; loops run to a fixpoint with widening.  Calls to
functions whose definition is in the tree are analysed context-sensitively;
library calls go through the models below; unknown callees havoc what they can
reach.  Nothing is executed and no solver is involved.
"""
import math
import re
from .facts import AnalysisError

TRUE, FALSE, NIL, VOID = ('b', True), ('b', False), ('nil',), ('void',)
NONE = ('none',)


class Undecided(AnalysisError):
    pass


def I(n):
    return ('i', int(n))


def Sx(s):
    return ('s', s)


def is_const(v):
    return v[0] in ('b', 'i', 'f', 's', 'nil', 'ty', 'none')


def is_num(v):
    return v[0] in ('b', 'i', 'f')


def counted(t):
    """a truth value that a sum of such consists of"""
    if t[0] == 'op' and len(t) == 4 and t[1] in ('+', '-', '*'):
        for y in t[2:]:
            x = y if y[0] == 'b2i' else counted(y)
            if x is not None:
                return x
    return None


class Obj(tuple):
    """('obj', type, base, ((field, value), ...)) with fields sorted by name"""
    __slots__ = ()


_objcache = {}


def mkobj(t, base=None, fields=()):
    if isinstance(fields, dict):
        fields = tuple(sorted(fields.items(), key=lambda kv: repr(kv[0])))
    return ('obj', t, base, fields)


def of_get(o, f):
    for k, v in o[3]:
        if k == f:
            return v
    return None


def of_set(o, f, val):
    d = dict(o[3])
    d[f] = val
    return mkobj(o[1], o[2], d)


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and mentions(y, x):
                return True
    return False


class State:
    __slots__ = ('mem', 'facts', 'ghost', '_h', '_k')

    def __init__(self, mem=None, facts=None, ghost=None):
        self.mem, self.facts, self.ghost = mem or {}, facts or {}, ghost or {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.ghost.items()))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def put(self, root, val):
        m = dict(self.mem)
        m[root] = val
        return State(m, self.facts, self.ghost)

    def drop(self, pred):
        m = {k: v for k, v in self.mem.items() if not pred(k)}
        return State(m, self.facts, self.ghost) if len(m) != len(self.mem) else self

    def fact(self, t, v):
        f = dict(self.facts)
        f[t] = v
        return State(self.mem, f, self.ghost)

    def forget(self, x):
        f = {k: v for k, v in self.facts.items() if not mentions(k, x)}
        return State(self.mem, f, self.ghost) if len(f) != len(self.facts) else self

    def g(self, k, d=None):
        return self.ghost.get(k, d)

    def gset(self, **kw):
        g = dict(self.ghost)
        g.update(kw)
        return State(self.mem, self.facts, g)

    def event(self, *ev):
        """append to the ghost trace"""
        return self.gset(trace=self.g('trace', ()) + (ev,))


def dedupe(l):
    seen, out = set(), []
    for x in l:
        k = x if isinstance(x, State) else (x[0], x[1:],) if not isinstance(x[0], State) else (x[0], x[1])
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


REL = {'<': frozenset('<'), '>': frozenset('>'), '==': frozenset('='), '<=': frozenset('<='), '>=': frozenset('>='), '!=': frozenset('<>')}
ALLREL = frozenset('<=>')
FLIP = {'<': '>', '>': '<', '=': '='}

STD_EXC = {
    'std::exception': [], 'std::logic_error': ['std::exception'], 'std::runtime_error': ['std::exception'],
    'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception'],
    'std::bad_cast': ['std::exception'], 'std::system_error': ['std::runtime_error', 'std::exception'],
    'std::bad_alloc': ['std::exception'], 'std::length_error': ['std::logic_error', 'std::exception'],
    'std::domain_error': ['std::logic_error', 'std::exception'], 'std::range_error': ['std::runtime_error', 'std::exception'],
    'boost::bad_lexical_cast': ['std::bad_cast', 'std::exception'], 'std::bad_optional_access': ['std::exception'],
    'std::bad_any_cast': ['std::bad_cast', 'std::exception'], 'std::future_error': ['std::logic_error', 'std::exception'],
}


def strip_type(t):
    t = t.strip()
    while True:
        n = re.sub(r'^(const|volatile) ', '', t)
        n = re.sub(r'\s*(&&|&|const)$', '', n).strip()
        if n == t:
            return t
        t = n


def mutable_ref(t):
    return t.endswith('&') and not t.endswith('&&') and not t.startswith('const ')


INT = {}
for _n, _b in (('char', 8), ('short', 16), ('int', 32), ('long', 64), ('long long', 64)):
    INT[_n] = INT['signed ' + _n] = (_b, True)
    INT['unsigned ' + _n] = (_b, False)
for _b in (8, 16, 32, 64):
    for _p in ('', 'std::'):
        INT['%sint%d_t' % (_p, _b)] = (_b, True)
        INT['%suint%d_t' % (_p, _b)] = (_b, False)


def wrap(v, t):
    """an integer converted to an integral type"""
    b = INT.get(t.replace('const ', '').strip())
    if b is None:
        return v
    n = v[1] & ((1 << b[0]) - 1)
    return I(n - (1 << b[0]) if b[1] and n >> (b[0] - 1) else n)


FOLD = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'sqrt': math.sqrt, 'hypot': math.hypot, 'fabs': math.fabs, 'abs': abs, 'fmin': min, 'fmax': max,
        'copysign': math.copysign, 'cos': math.cos, 'sin': math.sin, 'tan': math.tan, 'acos': math.acos, 'asin': math.asin, 'atan': math.atan, 'atan2': math.atan2}


def folded(name, xs):
    """a function of the C library on constants"""
    n = name[5:] if name.startswith('std::') else name
    if n not in FOLD:
        return None
    try:
        return ('f', float(FOLD[n](*(float(x) for x in xs))))
    except (ValueError, TypeError, OverflowError):
        return None


def apart(text, cat):
    """whether a text differs from a concatenation by what is known of its beginning or its end"""
    head, tail = cat, cat
    while head[0] == 'cat':
        head = head[1]
    while tail[0] == 'cat':
        tail = tail[-1]
    return head[0] == 's' and not text.startswith(head[1]) or tail[0] == 's' and not text.endswith(tail[1])


class Interp:
    MAXSTATES = 6000
    MAXDEPTH = 40
    MAXREC = 1

    inherited = False       # whether constructors of a base class that a class inherits are followed

    def __init__(self, prog, hooks=(), opaque=(), inline=None, max_steps=400000):
        self.prog = prog
        self.hooks = [(re.compile(p) if isinstance(p, str) else p, h) for p, h in hooks]
        self.opaque = [re.compile(p) for p in opaque]
        self.inline_pred = inline
        self.throws = [[]]
        self.frames = {}
        self.frame_info = {0: (None, None, None)}
        self.steps = 0
        self.max_steps = max_steps
        self.cur = 0            # current frame
        self.stack = []         # (func)
        self.analysed = set()
        self.unmodelled = {}
        self.dtor_types = []    # (regex on type, handler(interp, st, loc, type) -> [State])
        self.run_dtors = True
        self._gl = {}
        self._glheap = {}
        self._ovr = {}

    # ---------------------------------------------------------------- memory
    def default(self, root):
        if root[0] == 't':
            if root[1][0] == 'made':
                return root[1][2]
            return root[1]
        return self._glheap.get(root) or ('init', root)

    def norm(self, st, root, path):
        """follow aliases along the path; returns (root, path) and value"""
        for _ in range(50):
            v = st.mem.get(root)
            if v is None:
                if root[0] == 'g':
                    v = self.global_value(root)
                else:
                    v = self.default(root)
            i = 0
            again = False
            while True:
                if v[0] == 'alias':
                    root, path = v[1], v[2] + path[i:]
                    again = True
                    break
                if i == len(path):
                    break
                v = self.field(v, path[i])
                i += 1
            if not again:
                return root, path, v
        raise Undecided('alias cycle')

    def field(self, v, f):
        if v[0] == 'obj':
            r = of_get(v, f)
            if r is not None:
                return r
            if v[2] is not None and v[2] != ('new', v[1]):
                return ('field', v[2], f)
            if isinstance(f, str) and ('::msg::' in v[1] or '::srv::' in v[1]):
                d = self.message_default(v[1], f)
                if d is not None:
                    return d
            return ('field', ('new', v[1]), f)
        if v[0] == 'list' and isinstance(f, tuple) and f[0] == 'ix':
            if f[1] < len(v[1]):
                return v[1][f[1]]
            return ('field', v, f)
        if v[0] == 'some' and f == '*':
            return v[1]
        if v[0] == 'submatch' and isinstance(f, str) and f.endswith('::matched'):
            return v[2]
        return ('field', v, f)

    def message_default(self, t, f):
        """sequences and strings of a new message are empty"""
        for x in self.prog.records.get(t, {}).get('f', ()):
            if x['q'] == f:
                if x['t'].startswith('std::vector<'):
                    return ('list', ())
                if x['t'] in ('std::string', 'std::basic_string<char>', 'std::__cxx11::basic_string<char>'):
                    return ('s', '')

    def setpath(self, v, path, val):
        if not path:
            return val
        f = path[0]
        if v[0] == 'list' and isinstance(f, tuple) and f[0] == 'ix' and f[1] < len(v[1]):
            l = list(v[1])
            l[f[1]] = self.setpath(l[f[1]], path[1:], val)
            return ('list', tuple(l))
        if v[0] == 'some' and f == '*':
            return ('some', self.setpath(v[1], path[1:], val))
        cur = self.field(v, f)
        if v[0] != 'obj':
            v = mkobj('?', v, ())
        return of_set(v, f, self.setpath(cur, path[1:], val))

    def loadraw(self, st, loc):
        r, p, v = self.norm(st, loc[0], loc[1])
        return self.resolve(st, v)

    def load(self, st, v):
        """rvalue of an alias (or the value itself)"""
        if v[0] == 'alias':
            return self.loadraw(st, (v[1], v[2]))
        return self.resolve(st, v)

    def store(self, st, loc, val):
        root, path, _ = self.norm(st, loc[0], loc[1])
        if not path:
            return st.put(root, val)
        cur = st.mem.get(root)
        if cur is None:
            cur = self.default(root) if root[0] != 'g' else self.global_value(root)
        return st.put(root, self.setpath(cur, path, val))

    def rebind(self, st, root, alias):
        return st.put(root, alias)

    def resolve(self, st, v):
        if v[0] in ('obj', 'list', 'alias', 'ptr', 'lam', 'some') or is_const(v):
            return v
        r = st.facts.get(v)
        if r is not None and isinstance(r, tuple) and r and r[0] in ('b', 'i', 'f', 's', 'nil', 'ty', 'none'):
            return r
        return v

    def temp(self, st, val, site):
        root = ('tmp', self.cur, id(site) if not isinstance(site, (int, tuple)) else site)
        return st.put(root, val), ('alias', root, ())

    def deref(self, st, v):
        """location a pointer-like value points to"""
        v = self.load(st, v)
        if v[0] == 'ptr':
            return ('alias', v[1], v[2])
        if v[0] == 'alias':
            return v
        if v[0] == 'nil':
            return ('alias', ('t', ('deref', NIL)), ())
        if v[0] == 'iter':
            return self.iter_elem(st, v)
        return ('alias', ('t', ('deref', v)), ())

    def fresh(self, st, site, tag=''):
        t = ('unk', self.cur, tag, id(site) if isinstance(site, (dict, list)) else site)
        return st.forget(t), t

    # ---------------------------------------------------------------- globals
    def global_value(self, root):
        name = root[1]
        if name in self._gl:
            return self._gl[name]
        self._gl[name] = ('global', name)
        for k in (name,) + tuple(x for x in self.prog.vars if x.startswith(name + '@')):
            v = self.prog.vars.get(k)
            if v is not None and v.get('i') is not None and (v.get('const') or v['t'].startswith('const ') or self.never_written(name)):
                save, self.throws = self.throws, [[]]
                cur, self.cur = self.cur, ('global', name)
                self.frame_info[self.cur] = (None, v.get('tu'), None)
                try:
                    rs = self.ev(v['i'], State())
                finally:
                    self.throws, self.cur = save, cur
                if len(rs) == 1 and rs[0][1][0] in ('obj', 'list', 'b', 'i', 'f', 's', 'lam', 'alias', 'nil', 'fn', 'ptr'):
                    val = self.load(rs[0][0], rs[0][1])
                    if val[0] != 'alias':
                        self._gl[name] = val
                        if val[0] == 'ptr' and val[1][0] == 'h':
                            own = ('h', 'global', name)
                            self._gl[name] = ('ptr', own, val[2])
                            self._glheap.update((own if r == val[1] else r, x) for r, x in rs[0][0].mem.items() if r[0] == 'h')
                break
        return self._gl[name]

    def never_written(self, name):
        return False

    # ---------------------------------------------------------------- branching
    def truth(self, st, v, site=None):
        """[(state, bool)] partition of st by the truth of v"""
        v = self.load(st, v)
        k = v[0]
        if k in ('b', 'i', 'f'):
            return [(st, bool(v[1]))]
        if k in ('nil', 'none'):
            return [(st, False)]
        if k in ('ptr', 'lam', 'fn', 'some', 's', 'alias', 'obj', 'excptr'):
            return [(st, True)]
        if k == 'not':
            return [(s, not b) for s, b in self.truth(st, v[1], site)]
        if k == 'b2i':
            return self.truth(st, v[1], site)
        if k == 'op':
            op, a, b = v[1], v[2], v[3]
            if op in REL:
                return self.compare(st, op, a, b)
            if op == '|' or op == '||':
                out = []
                for s, x in self.truth(st, a):
                    out += [(s2, x or y) for s2, y in self.truth(s, b)]
                return out
            if op == '&&' or (op == '&' and a[0] == 'b2i' and b[0] == 'b2i'):
                out = []
                for s, x in self.truth(st, a):
                    out += [(s2, x and y) for s2, y in self.truth(s, b)]
                return out
        f = st.facts.get(v)
        if f is not None and f in (TRUE, FALSE):
            return [(st, f[1])]
        return [(st.fact(v, TRUE), True), (st.fact(v, FALSE), False)]

    def key2(self, a, b):
        if repr(b) < repr(a):
            return b, a, True
        return a, b, False

    def rel(self, st, a, b):
        x, y, sw = self.key2(a, b)
        r = st.facts.get(('rel', x, y), ALLREL)
        if sw:
            r = frozenset(FLIP[c] for c in r)
        return r

    def setrel(self, st, a, b, r):
        x, y, sw = self.key2(a, b)
        if sw:
            r = frozenset(FLIP[c] for c in r)
        st = st.fact(('rel', x, y), r)
        if r == frozenset('='):
            for t, c in ((a, b), (b, a)):
                if is_const(c) and not is_const(t) and c[0] != 'f':
                    st = st.fact(t, c)
        return st

    def consistent(self, st, t, c, r):
        """order facts of t against other numeric constants"""
        if not is_num(c):
            return True
        lo, hi, los, his, excl = self.interval(st, t)
        cv = c[1]
        ok = False
        for ch in r:
            if ch == '=':
                if (lo is None or cv > lo or (cv == lo and not los)) and (hi is None or cv < hi or (cv == hi and not his)) and cv not in excl:
                    ok = True
            elif ch == '<':
                if lo is None or lo < cv:
                    ok = True
            else:
                if hi is None or hi > cv:
                    ok = True
        return ok

    def interval(self, st, t):
        lo = hi = None
        los = his = False
        excl = set()
        if t[0] == 'call' and (t[1].endswith('::size') or t[1].endswith('::length') or t[1] in ('std::distance',)) or t[0] == 'count':
            lo = 0
        for k, r in st.facts.items():
            if k[0] != 'rel':
                continue
            if k[1] == t and is_num(k[2]):
                c, rr = k[2][1], r
            elif k[2] == t and is_num(k[1]):
                c, rr = k[1][1], frozenset(FLIP[x] for x in r)
            else:
                continue
            if '>' not in rr:
                if hi is None or c < hi or (c == hi and '=' not in rr):
                    hi, his = c, '=' not in rr
            if '<' not in rr:
                if lo is None or c > lo or (c == lo and '=' not in rr):
                    lo, los = c, '=' not in rr
            if '=' not in rr:
                excl.add(c)
        return lo, hi, los, his, excl

    def settled(self, st, t, x, v):
        """a term of which a part has a known value"""
        if t == x:
            return v
        if t[0] == 'op' and len(t) == 4:
            return self.arith(st, t[1], self.settled(st, t[2], x, v), self.settled(st, t[3], x, v))
        return t

    def compare(self, st, op, a, b):
        a, b = self.load(st, a), self.load(st, b)
        for t in (a, b):
            x = counted(t)
            if x is not None:
                out = []
                for s, y in self.truth(st, x[1]):
                    out += self.compare(s, op, *[self.settled(s, z, x, ('i', int(y))) for z in (a, b)])
                return out
        v = self.arith(st, op, a, b)
        if v[0] == 'b':
            return [(st, v[1])]
        if v[0] == 'not':
            return [(s, not x) for s, x in self.compare(st, v[1][1], v[1][2], v[1][3])]
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if x[0] == 's' and y[0] == 'cat' and apart(x[1], y):
                    return [(st, op == '!=')]
                if x[0] in ('iter',) or y[0] in ('iter',):
                    break
            if is_const(a) or is_const(b):
                t, c = (b, a) if is_const(a) else (a, b)
                if not is_num(c):
                    k = ('is', t, c)
                    f = st.facts.get(k)
                    if f is not None:
                        return [(st, (f == TRUE) == (op == '=='))]
                    return [(st.fact(k, TRUE).fact(t, c), op == '=='), (st.fact(k, FALSE), op == '!=')]
        r = self.rel(st, a, b)
        out = []
        for want, val in ((REL[op], True), (ALLREL - REL[op], False)):
            rr = r & want
            if not rr:
                continue
            if is_num(b) and not self.consistent(st, a, b, rr):
                continue
            if is_num(a) and not self.consistent(st, b, a, frozenset(FLIP[c] for c in rr)):
                continue
            out.append((self.setrel(st, a, b, rr), val))
        return out

    # ---------------------------------------------------------------- arithmetic
    def arith(self, st, op, a, b, ty=''):
        if op in REL:
            if is_const(a) and is_const(b):
                if a[0] == b[0] or (is_num(a) and is_num(b)):
                    x, y = (a[1:] or (0,))[0], (b[1:] or (0,))[0]
                    try:
                        return ('b', {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op])
                    except TypeError:
                        pass
                elif op in ('==', '!='):
                    return ('b', op == '!=')
            if op in ('==', '!='):
                if a == b and a[0] != 'f':
                    return ('b', op == '==')
                ka, kb = a[0], b[0]
                if {ka, kb} <= {'ptr', 'nil', 'lam', 'fn'} and a != b:
                    return ('b', op == '!=')
                if {ka, kb} <= {'some', 'none'}:
                    if ka != kb:
                        return ('b', op == '!=')
                    return self.arith(st, op, a[1], b[1]) if ka == 'some' else ('b', op == '==')
                if ka == 'some' and is_const(b):
                    return self.arith(st, op, a[1], b)
                if ka == 'rev' and kb == 'rev':
                    return self.arith(st, op, a[1], b[1])
                if ka == 'iter' and kb == 'iter':
                    r = self.iter_eq(st, a, b)
                    if r is not None:
                        return ('b', r == (op == '=='))
                if op == '!=':
                    return ('not', ('op', '==') + self.key2(a, b)[:2])
                return ('op', '==') + self.key2(a, b)[:2]
            if op == '>':
                return ('op', '<', b, a)
            if op == '>=':
                return ('op', '<=', b, a)
            return ('op', op, a, b)
        if is_num(a) and is_num(b):
            x, y = a[1], b[1]
            fl = isinstance(x, float) or isinstance(y, float)
            try:
                if op == '+':
                    r = x + y
                elif op == '-':
                    r = x - y
                elif op == '*':
                    r = x * y
                elif op == '/':
                    r = x / y if fl else int(x / y)
                elif op == '%':
                    r = int(x) % int(y)
                elif op == '|':
                    r = int(x) | int(y)
                elif op == '&':
                    r = int(x) & int(y)
                elif op == '^':
                    r = int(x) ^ int(y)
                elif op == '<<':
                    r = int(x) << int(y)
                elif op == '>>':
                    r = int(x) >> int(y)
                else:
                    return ('op', op, a, b)
                return ('f', r) if isinstance(r, float) else ('i', int(r))
            except (ZeroDivisionError, OverflowError, ValueError):
                return ('op', op, a, b)
        if op == '+' and a[0] == 's' and b[0] == 's':
            return Sx(a[1] + b[1])
        if op in ('+', '*', '&', '|') and a[0] not in ('s',) and b[0] not in ('s', 'cat') and a[0] != 'cat':
            a, b = self.key2(a, b)[:2]
        return ('op', op, a, b)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st):
        """[(state, value)]; value may be an ('alias', root, path) for glvalues"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided('analysis budget exceeded')
        if e is None:
            return [(st, VOID)]
        return getattr(self, 'e_' + e['k'], self.e_unknown)(e, st)

    def rv(self, e, st):
        return [(s, self.load(s, v)) for s, v in self.ev(e, st)]

    def lv(self, e, st):
        out = []
        for s, v in self.ev(e, st):
            if v[0] != 'alias':
                s, v = self.temp(s, v, e)
            out.append((s, v))
        return out

    def e_unknown(self, e, st):
        st, t = self.fresh(st, e, e['k'])
        return [(st, t)]

    e_recovery = e_unk = e_fld = e_unknown

    def e_int(self, e, st):
        return [(st, I(e['v']))]

    def e_bool(self, e, st):
        return [(st, ('b', bool(e['v'])))]

    def e_flt(self, e, st):
        return [(st, ('f', float(e['v'])))]

    def e_str(self, e, st):
        return [(st, Sx(e['v']))]

    def e_null(self, e, st):
        return [(st, NIL)]

    def e_enum(self, e, st):
        return [(st, I(e['v']))]

    def e_const(self, e, st):
        if 'cv' in e:
            return [(st, self.cv(e))]
        return self.e_unknown(e, st)

    def cv(self, e):
        if e.get('t') == 'bool':
            return ('b', e['cv'] != '0')
        return I(e['cv'])

    def e_zero(self, e, st):
        return [(st, self.zero(e.get('t', '')))]

    def zero(self, t):
        t = strip_type(t)
        if t == 'bool':
            return FALSE
        if t in ('double', 'float', 'long double'):
            return ('f', 0.0)
        if re.match(r'(unsigned |signed )?(int|long|short|char|long long)( int)?$', t) or t in self.prog.enums:
            return I(0)
        if t.endswith('*'):
            return NIL
        if re.match(r'std::(__cxx11::)?(vector|list|deque|map|unordered_map|set|unordered_set|multimap|multiset)<', t):
            return ('list', ())
        if re.match(r'std::(__cxx11::)?basic_string<', t):
            return Sx('')
        if re.match(r'std::(shared_ptr|unique_ptr|weak_ptr|function)<', t):
            return NIL
        if re.match(r'(std|boost)::optional<', t):
            return NONE
        return ('new', t)

    def e_typeid(self, e, st):
        if 'v' in e:
            return [(st, ('ty', strip_type(e['v'])))]
        out = []
        for s, v in self.ev(e['e'], st):
            v = self.load(s, v)
            out.append((s, ('ty', 'std::nullptr_t') if v == NIL else ('typeid', v)))
        return out

    def e_this(self, e, st):
        v = st.mem.get(('this', self.cur))
        return [(st, v if v is not None else ('ptr', ('t', ('this',)), ()))]

    def e_var(self, e, st):
        if 'g' in e and not e.get('sl'):
            if 'cv' in e:
                return [(st, self.cv(e))]
            return [(st, ('alias', ('g', e['g']), ()))]
        root = self.varroot(st, e['d'])
        if e.get('sl') and root not in st.mem:
            return [(st, ('alias', ('g', e['g']), ()))]
        if root not in st.mem and 'cv' in e:
            return [(st, self.cv(e))]
        if root not in st.mem and 'fv' in e:
            return [(st, ('f', float(e['fv'])))]
        v = st.mem.get(root)
        if v is not None and v[0] == 'alias':
            return [(st, v)]
        return [(st, ('alias', root, ()))]

    def varroot(self, st, d):
        return ('v', self.cur, d)

    def e_bind(self, e, st):
        root = ('v', self.cur, e['d'])
        v = st.mem.get(root)
        if v is not None and v[0] == 'alias':
            return [(st, v)]
        return [(st, ('alias', root, ()))]

    def e_fn(self, e, st):
        return [(st, ('fn', e['f']['k'], e['f']['n']))]

    def e_mem(self, e, st):
        out = []
        fld = e['f']
        if fld.startswith('std::pair<'):
            fld = 'std::pair::' + fld.rsplit('::', 1)[1]
        for s, v in self.ev(e['b'], st):
            if e.get('arrow'):
                v = self.deref(s, v)
            elif v[0] != 'alias':
                out.append((s, self.resolve(s, self.field(self.load(s, v), fld))))
                continue
            a = ('alias', v[1], v[2] + (fld,))
            r, p, val = self.norm(s, a[1], a[2])
            out.append((s, ('alias', r, p)))
        return out

    def e_memfn(self, e, st):
        return [(s, ('bound', e['f']['k'], v)) for s, v in self.ev(e['b'], st)]

    def e_icast(self, e, st):
        out = []
        for s, v in self.rv(e['e'], st):
            ck = e['ck']
            if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                if is_num(v):
                    v = ('b', bool(v[1]))
                elif v[0] != 'b2i':
                    v = self.arith(s, '!=', v, I(0))
                else:
                    v = v[1]
            elif ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
                if v[0] in ('ptr', 'fn', 'lam', 's'):
                    v = TRUE
                elif v[0] == 'nil':
                    v = FALSE
                else:
                    v = v if v[0] == 'b' else ('nonnull', v)
            elif ck == 'FloatingToIntegral':
                v = I(v[1]) if is_num(v) else ('trunc', v)
            elif ck == 'IntegralToFloating':
                v = ('f', float(v[1])) if is_num(v) else v
            elif v[0] == 'b':
                v = I(v[1])
            elif self.boolish(v):
                v = ('b2i', v)
            elif ck == 'IntegralCast' and v[0] == 'i':
                v = wrap(v, e['t'])
            out.append((s, v))
        return out

    def boolish(self, v):
        return v[0] in ('not', 'nonnull') or (v[0] == 'op' and (v[1] in REL or v[1] in ('&&', '||')))

    def e_cast(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            if e.get('ck') == 'ToVoid':
                v = VOID
            out.append((s, v))
        return out

    def e_dyncast(self, e, st):
        out = []
        t = strip_type(e['t'])
        isptr = t.endswith('*')
        cls = strip_type(t[:-1]) if isptr else t
        for s, v in self.ev(e['e'], st):
            p = self.load(s, v) if isptr else v
            dyn = self.dyntype(s, p)
            if dyn:
                ok = dyn == cls or cls in self.prog.bases(dyn)
                if ok:
                    out.append((s, p))
                elif isptr:
                    out.append((s, NIL))
                else:
                    self.throw(s, mkobj('std::bad_cast'))
            else:
                k = ('isa', p, cls)
                for s2, b in self.truth(s, k):
                    if b:
                        out.append((s2, p))
                    elif isptr:
                        out.append((s2, NIL))
                    else:
                        self.throw(s2, mkobj('std::bad_cast'))
        return out

    def dyntype(self, st, p):
        if p[0] in ('ptr', 'alias'):
            r, path, v = self.norm(st, p[1], p[2])
            if v[0] == 'obj' and v[1] in self.prog.records:
                return v[1]
        elif p[0] == 'obj':
            return p[1]
        return None

    def e_un(self, e, st):
        op = e['op']
        if op == '*':
            return [(s, self.deref(s, v)) for s, v in self.rv(e['e'], st)]
        if op == '&':
            out = []
            for s, v in self.ev(e['e'], st):
                out.append((s, ('ptr', v[1], v[2]) if v[0] == 'alias' else v))
            return out
        if op == '!':
            out = []
            for s, v in self.rv(e['e'], st):
                if v[0] in ('b', 'i', 'f'):
                    out.append((s, ('b', not v[1])))
                elif v[0] == 'not':
                    out.append((s, v[1]))
                else:
                    out.append((s, ('not', v)))
            return out
        if op in ('++', '--'):
            out = []
            for s, v in self.lv(e['e'], st):
                old = self.load(s, v)
                if old[0] == 'iter':
                    s, new = self.iter_step(s, old, 1 if op == '++' else -1, e)
                else:
                    new = self.arith(s, '+' if op == '++' else '-', old, I(1))
                s = self.write(s, v, new, e)
                out.append((s, old if e.get('post') else v))
            return out
        out = []
        for s, v in self.rv(e['e'], st):
            if is_num(v):
                if op == '-':
                    v = (v[0] if v[0] != 'b' else 'i', -v[1])
                elif op == '~':
                    v = I(~int(v[1]))
            elif op != '+':
                v = ('un', op, v)
            out.append((s, v))
        return out

    def e_bin(self, e, st):
        op = e['op']
        if 'cv' in e and op not in ('=',) and not op.endswith('='):
            return [(st, self.cv(e))]
        if op in ('&&', '||'):
            out = []
            for s, v in self.rv(e['a'], st):
                for s2, b in self.truth(s, v):
                    if b == (op == '||'):
                        out.append((s2, ('b', b)))
                    else:
                        for s3, w in self.rv(e['b'], s2):
                            out += [(s4, ('b', c)) for s4, c in self.truth(s3, w)]
            return dedupe(out)
        if op == ',':
            return [r for s, _ in self.ev(e['a'], st) for r in self.ev(e['b'], s)]
        if op == '=':
            out = []
            for s, w in self.rv(e['b'], st):
                for s2, v in self.lv(e['a'], s):
                    out.append((self.write(s2, v, w, e), v))
            return out
        if op.endswith('=') and op not in REL:
            out = []
            for s, w in self.rv(e['b'], st):
                for s2, v in self.lv(e['a'], s):
                    old = self.load(s2, v)
                    isbool = e['a'].get('t') == 'bool'
                    if isbool and op in ('|=', '&='):
                        for s3, x in self.truth(s2, old):
                            for s4, y in self.truth(s3, w):
                                nv = ('b', (x or y) if op == '|=' else (x and y))
                                out.append((self.write(s4, v, nv, e), v))
                    else:
                        if old[0] == 'iter':
                            s2, new = self.iter_step(s2, old, w[1] if w[0] == 'i' else None, e)
                        else:
                            new = self.arith(s2, op[:-1], old, w)
                        out.append((self.write(s2, v, new, e), v))
            return out
        out = []
        for s, a in self.rv(e['a'], st):
            for s2, b in self.rv(e['b'], s):
                v = self.arith(s2, op, self.load(s2, a), b)
                out.append((s2, wrap(v, e.get('t', '')) if v[0] == 'i' and op in '+-*' else v))
        return out

    def write(self, st, loc, val, e):
        root, path, _ = self.norm(st, loc[1], loc[2])
        st = self.assigned(st, ('alias', root, path), val, e)
        st, val = self.canon(st, ('alias', root, path), val)
        return self.store(st, (root, path), val)

    def canon(self, st, loc, val):
        """a rule may abstract the value stored in a location it watches"""
        return st, val

    def assigned(self, st, loc, val, e):
        """observation point for rules (assignment to a location)"""
        return st

    def e_cond(self, e, st):
        out = []
        for s, v in self.rv(e['c'], st):
            for s2, b in self.truth(s, v):
                out += self.ev(e['a' if b else 'b'], s2)
        return dedupe(out)

    def e_idx(self, e, st):
        out = []
        for s, a in self.ev(e['a'], st):
            for s2, b in self.rv(e['b'], s):
                if a[0] == 'alias':
                    av = self.load(s2, a)
                    if av[0] in ('ptr',):
                        a = ('alias', av[1], av[2])
                    out.append((s2, ('alias', a[1], a[2] + (('ix', b[1]) if b[0] == 'i' else ('ix?', b),))))
                else:
                    out.append((s2, self.field(a, ('ix', b[1]) if b[0] == 'i' else ('ix?', b))))
        return out

    def e_list(self, e, st):
        t = strip_type(e.get('t', ''))
        r = self.prog.records.get(t)
        res = [(st, ())]
        for a in e['a']:
            res = [(s2, vs + (v,)) for s, vs in res for s2, v in self.rv(a, s)]
        if self.wraps_pointer(t) and len(e['a']) <= 1:
            return [(s, vs[0] if vs else NIL) for s, vs in res]
        if r is not None and (r.get('f') or r.get('b')) and not t.startswith('std::'):
            names = [f['q'] for f in r['f']]
            nb = len(r.get('b', []))
            out = []
            for s, vs in res:
                o = {}
                basev = vs[:nb]
                for bv in basev:
                    if bv[0] == 'obj':
                        o.update(dict(bv[3]))
                for n, v in zip(names, vs[nb:]):
                    o[n] = v
                out.append((s, mkobj(t, None, o)))
            return out
        if len(e['a']) == 1 and not t.startswith('std::') and '[' not in t and 'initializer_list' not in t:
            return [(s, vs[0]) for s, vs in res]
        if not e['a'] and '[' not in t and not t.startswith('std::'):
            return [(s, self.zero(t)) for s, vs in res]
        return [(s, ('list', vs)) for s, vs in res]

    def e_lambda(self, e, st):
        caps = []
        res = [(st, ())]
        for c in e['caps']:
            nres = []
            for s, cs in res:
                if c.get('this'):
                    th = s.mem.get(('this', self.cur), ('ptr', ('t', ('this',)), ()))
                    nres.append((s, cs + (('this', th),)))
                elif 'init' in c:
                    for s2, v in (self.lv if c.get('ref') else self.rv)(c['init'], s):
                        nres.append((s2, cs + ((c['d'], v),)))
                else:
                    root = ('v', self.cur, c['d'])
                    if root in s.mem:
                        v = s.mem[root]
                        if c.get('ref'):
                            if v[0] != 'alias':
                                v = ('alias', root, ())
                        else:
                            v = self.load(s, v)
                    else:
                        nres.append((s, cs))                # a constant, which the body names itself
                        continue
                    nres.append((s, cs + ((c['d'], v),)))
            res = nres
        tu = self.frame_info[self.cur][1]
        return [(s, ('lam', tuple(e['fs']), cs, tu)) for s, cs in res]

    def throw(self, st, val):
        self.throws[-1].append((st, val))

    def e_throw(self, e, st):
        if 'e' not in e:
            cur = st.mem.get(('exc',), ('rethrown',))
            self.throw(st, cur)
            return []
        for s, v in self.rv(e['e'], st):
            if v[0] not in ('obj',):
                v = mkobj(strip_type(e.get('tt', '?')), v)
            elif strip_type(e['tt']) not in ('?', v[1]) and v[1] == '?':
                v = mkobj(strip_type(e['tt']), v[2], v[3])
            self.throw(s.put(('throwsite',), I(e['l'])), v)
        return []

    def e_new(self, e, st):
        out = []
        c = e.get('e')
        if c and c.get('k') == 'ctor' and not (c.get('cm') and len(c['a']) == 1):
            fn = self.prog.func(c['f']['k'], self.tu())
            t = strip_type(c.get('t', '?'))
            if fn is not None and self.may_inline(fn) and not any(p.search(c["f"]["n"]) for p, _ in self.hooks):
                # built in place: the constructor may hand out its own address
                for s, vals in self.args(c['a'], c['f'], st):
                    root = self.heap(s, e)
                    s = s.put(root, mkobj(t))
                    for s2, _ in self.call_ctor(fn, s, ('alias', root, ()), vals, c):
                        out.append((s2, ('ptr', root, ())))
                return out
        for s, v in (self.rv(e['e'], st) if e.get('e') else [(st, self.defval(e['at']))]):
            root = self.heap(s, e)
            s = s.put(root, v)
            out.append((s, ('ptr', root, ())))
        return out

    def heap(self, s, e):
        """abstract location of an allocation: its site, numbered by allocation where a rule drives a bounded history"""
        root = ('h', self.cur, id(e))
        if s.g('epoch') is not None:
            n = 0
            while root + (n,) in s.mem:
                n += 1
            root += (n,)
        return root

    def defval(self, t):
        return self.zero(t)

    def e_delete(self, e, st):
        return [(s, VOID) for s, _ in self.ev(e['e'], st)]

    # ---------------------------------------------------------------- construction
    def e_ctor(self, e, st):
        t = strip_type(e.get('t', '?'))
        f = e['f']
        args = e['a']
        if e.get('cm') and len(args) == 1:
            fn = self.prog.func(f['k'], self.tu())
            if fn is None or fn.raw.get('defaulted') or not fn.raw.get('inits') is None and not self.user_copy(fn):
                return self.rv(args[0], st)
        r = self.hook(f['n'], e, st, None, args, f)
        if r is not None:
            return r
        fn = self.prog.func(f['k'], self.tu())
        if self.wraps_pointer(t) and len(args) <= 1 and (fn is None or fn.raw.get('defaulted') or re.search(r'::(shared|unique)_ptr$', f['n'])):
            return self.rv(args[0], st) if args else [(st, NIL)]
        if fn is not None and self.may_inline(fn):
            out = []
            for s, vals in self.args(args, f, st):
                s, a = self.temp(s, mkobj(t), e)
                for s2, v in self.call_ctor(fn, s, a, vals, e):
                    out.append((s2, self.load(s2, a)))
            return out
        return self.std_ctor(t, f, args, e, st)

    def wraps_pointer(self, t):
        """a class that adds no state to the smart pointer it derives from"""
        r = self.prog.records.get(t)
        return bool(r) and not r.get('f') and any(re.match(r'std::(shared_ptr|unique_ptr)<', b) for b in r.get('b', ()))

    def user_copy(self, fn):
        return not fn.raw.get('defaulted')

    def string_of(self, s, vs, strlit=False):
        """the string constructed from these values, None where it is not known"""
        if not vs:
            return Sx('')
        if len(vs) == 2 and vs[0][0] == vs[1][0] == 'iter' and vs[0][1] == vs[1][1]:
            c = self.loadraw(s, vs[0][1])
            p = [0 if v[2] == 'begin' else len(c[1]) if v[2] == 'end' and c[0] == 's' else v[2] for v in vs]
            if c[0] == 's' and all(isinstance(x, int) for x in p):
                return Sx(c[1][p[0]:p[1]])
            if p[0] == 0 and vs[1][2] == 'end':
                return c
        if len(vs) == 2 and vs[0][0] == vs[1][0] == 'i':
            return Sx(chr(vs[1][1]) * vs[0][1])
        if len(vs) >= 2 and vs[0][0] == 's' and all(v[0] == 'i' for v in vs[1:]):
            a = [v[1] for v in vs[1:]]
            return Sx(vs[0][1][:a[0]] if strlit else vs[0][1][a[0]:] if len(a) == 1 else vs[0][1][a[0]:a[0] + a[1]])
        return vs[0] if len(vs) == 1 else None

    def std_ctor(self, t, f, args, e, st):
        out = []
        base = re.sub(r'<.*', '', t)
        for s, vals in self.args(args, f, st):
            vs = [self.load(s, v) for v in vals]
            vs = [v for v, a in zip(vs, args) if not (a or {}).get('dflt')]
            if base == 'std::basic_string':
                v = self.string_of(s, vs, 'char *' in (f.get('pt') or [''])[0])
                if v is not None:
                    out.append((s, v))
                    continue
            elif base in ('std::vector', 'std::list', 'std::set', 'std::map', 'std::unordered_map', 'std::unordered_set', 'std::deque', 'std::array', 'std::multimap', 'std::queue', 'std::stack'):
                if not vs:
                    out.append((s, ('list', ())))
                    continue
                from .models import make_sequence
                v = make_sequence(self, s, base, t, vs)
                if v == ('dead',):
                    continue
                if v is not None:
                    out.append((s, v))
                    continue
            elif re.match(r'std::(__cxx11::)?regex_(token_)?iterator$', base):
                from .models import regex_iterator
                v = vs[0] if len(vs) == 1 else regex_iterator(self, s, base, vs)
                if v is not None:
                    out.append((s, v))
                    continue
            elif base in ('std::pair',):
                if len(vs) == 2:
                    out.append((s, mkobj(t, None, {'std::pair::first': vs[0], 'std::pair::second': vs[1]})))
                    continue
                if len(vs) == 1:
                    out.append((s, vs[0]))
                    continue
            elif base == 'std::tuple' and len(vs) == 1 and len(args) == 1 and strip_type(args[0].get('t', '')).startswith('std::tuple<') and self.load(s, vs[0])[0] == 'list':
                # one tuple made from another: what it refers to is copied
                out.append((s, ('list', tuple(self.load(s, x) if x[0] == 'alias' and '&' not in t else x for x in self.load(s, vs[0])[1]))))
                continue
            elif base == 'std::tuple':
                out.append((s, ('list', tuple(vs))))
                continue
            elif base in ('std::function', 'std::initializer_list', 'std::basic_string_view', 'std::type_index', 'std::reference_wrapper', 'std::move_iterator', 'std::_List_iterator', 'std::_List_const_iterator', '__gnu_cxx::__normal_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator', 'std::chrono::duration', 'std::atomic', 'std::basic_regex', 'std::filesystem::path', 'std::filesystem::__cxx11::path', 'std::variant') and len(vs) >= 1:
                out.append((s, vs[0]))
                continue
            elif base == 'std::initializer_list' and not vs:
                out.append((s, ('list', ())))
                continue
            elif base == 'std::function' and not vs:
                out.append((s, NIL))
                continue
            elif base in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr'):
                out.append((s, vs[0] if vs else NIL))
                continue
            elif base == 'std::__exception_ptr::exception_ptr':
                out.append((s, vs[0] if vs else NIL))
                continue
            elif base in ('std::optional', 'boost::optional'):
                if not vs or vs[0] == NONE or vs[0][0] == 'none' or (args and 'nullopt' in str(args[0].get('t', ''))):
                    out.append((s, NONE))
                elif vs[0][0] in ('some',):
                    out.append((s, vs[0]))
                elif args and 'optional<' in args[0].get('t', ''):
                    out.append((s, vs[0]))
                else:
                    out.append((s, ('some', vs[0])))
                continue
            elif t in STD_EXC or base in STD_EXC:
                out.append((s, mkobj(base, None, {'what': vs[0]} if vs else {})))
                continue
            if t in self.prog.records and self.prog.records[t].get('repo') or e['f']['k'] in ('',):
                o = {}
                fn_rec = self.prog.records.get(t)
                if not vs:
                    s, ob = self.default_object(s, t)
                    out.append((s, ob))
                    continue
            if not vs:
                r = self.prog.records.get(t)
                if r is not None and not t.startswith('std::'):
                    s, ob = self.default_object(s, t)
                    out.append((s, ob))
                    continue
            out.append((s, mkobj(t, ('new', t) + tuple(vs), ())))
        return out

    def default_object(self, st, t):
        """object of a record type with default member initialisers applied"""
        o = {}
        todo = [t]
        save = self.cur
        while todo:
            c = todo.pop()
            r = self.prog.records.get(c)
            if not r:
                continue
            todo += r.get('b', [])
            for f in r.get('f', []):
                if f.get('i') is not None:
                    rs = self.rv(f['i'], st)
                    if len(rs) == 1:
                        st, v = rs[0]
                        o[f['q']] = v
        return st, mkobj(t, ('new', t), o)

    def call_ctor(self, fn, st, self_alias, vals, e):
        """runs constructor fn on the object at self_alias"""
        return self.invoke(fn, st, ('ptr', self_alias[1], self_alias[2]), vals, e)

    def ctor_inits(self, fn, st):
        x = fn.x
        states = [st]
        th = st.mem[('this', self.cur)]
        cls = x.get('clsn')
        for i in x.get('inits', []):
            nxt = []
            for s in states:
                th = s.mem[('this', self.cur)]
                if 'f' in i:
                    fld = self.field_record(x['cls'], i['f'])
                    isref = fld is not None and fld['t'].endswith('&')
                    for s2, v in (self.lv if isref else self.rv)(i['e'], s):
                        loc = (th[1], th[2] + (i['f'],))
                        if not isref:
                            s2 = self.assigned(s2, ('alias',) + loc, v, i)
                        root, path, _ = self.norm(s2, th[1], th[2])
                        cur = s2.mem.get(root, self.default(root))
                        s2 = s2.put(root, self.setpath(cur, path + (i['f'],), v))
                        nxt.append(s2)
                else:
                    ex = i['e']
                    if ex is not None and ex['k'] == 'ctor' and '(lambda at' in ex.get('t', '') and len(ex['a']) == 1:
                        for s2, v in self.rv(ex['a'][0], s):
                            nxt.append(self.store_base(s2, th, i, v))
                    elif ex is not None and ex['k'] == 'ctor':
                        bf = self.prog.func(ex['f']['k'], self.tu())
                        if ex.get('inh') and self.inherited and bf is not None and self.may_inline(bf):
                            # a constructor that is inherited from the base class hands on what it was given
                            vals = [s.mem.get(('v', self.cur, p['d'])) for p in x['p']]
                            nxt += [s2 for s2, v in self.invoke(bf, s, th, vals, ex, ctor_of_base=True)]
                        elif ex.get('inh') or bf is None or not self.may_inline(bf):
                            h = self.hook(ex['f']['n'], ex, s, ('alias', th[1], th[2]), ex['a'], ex['f'])
                            if h is not None:
                                nxt += [s2 for s2, v in h]
                                continue
                            nxt += self.opaque_base(s, th, i, ex)
                        else:
                            for s2, vals in self.args(ex['a'], ex['f'], s):
                                h = self.hook(ex['f']['n'], ex, s2, ('alias', th[1], th[2]), ex['a'], ex['f'])
                                if h is not None:
                                    nxt += [s3 for s3, v in h]
                                    continue
                                for s3, v in self.invoke(bf, s2, th, vals, ex, ctor_of_base=True):
                                    nxt.append(s3)
                    elif ex is not None:
                        for s2, v in self.rv(ex, s):
                            if v[0] == 'obj':
                                cur = self.loadraw(s2, (th[1], th[2]))
                                if cur[0] == 'obj':
                                    d = dict(cur[3])
                                    d.update(dict(v[3]))
                                    s2 = self.store(s2, (th[1], th[2]), mkobj(cur[1], cur[2] or v[2], d))
                            else:
                                s2 = self.store_base(s2, th, i, v)
                            nxt.append(s2)
                    else:
                        nxt.append(s)
            states = nxt
        return states

    def opaque_base(self, st, th, init, ex):
        out = []
        for s, v in self.std_ctor(strip_type(ex.get('t', '?')), ex['f'], ex['a'], ex, st):
            out.append(self.store_base(s, th, init, v))
        return out

    def store_base(self, st, th, init, v):
        b = init.get('b', '')
        if re.match(r'std::(?:__cxx11::)?(list|vector|deque|map|unordered_map|set|unordered_set|multimap|forward_list)<', b):
            return self.store(st, (th[1], th[2] + ('<c>',)), v)
        return self.store(st, (th[1], th[2] + (('base', b),)), v)

    def field_record(self, cls, q):
        r = self.prog.records.get(cls)
        for f in (r or {}).get('f', []):
            if f['q'] == q:
                return f
        return None

    # ---------------------------------------------------------------- calls
    def tu(self):
        return self.frame_info[self.cur][1]

    def may_inline(self, fn):
        if fn.raw.get('body') is None:
            return False
        for p in self.opaque:
            if p.search(fn.name):
                return False
        if len(self.stack) >= self.MAXDEPTH or self.stack.count(fn.key) > self.MAXREC:
            return False
        if self.inline_pred is not None:
            return self.inline_pred(fn)
        return True

    def hook(self, name, e, st, obj, args, f):
        for p, h in self.hooks:
            if p.search(name):
                r = h(self, st, e, obj, args, f)
                if r is not None:
                    return r
        return None

    def args(self, args, f, st):
        """[(state, [value or alias per parameter passing mode])]"""
        pt = f.get('pt', []) if f else []
        res = [(st, [])]
        for i, a in enumerate(args):
            byref = i < len(pt) and pt[i].endswith('&')
            nres = []
            for s, vs in res:
                for s2, v in self.ev(a, s):
                    if byref:
                        if v[0] != 'alias':
                            s2, v = self.temp(s2, v, a)
                    else:
                        v = self.load(s2, v)
                    nres.append((s2, vs + [v]))
            res = nres
        return res

    def dispatch(self, f, st, obj, e):
        """definition reached by a (possibly virtual) call"""
        key = f['k']
        if f.get('v') and not e.get('nv') and obj is not None:
            dyn = self.dyntype(st, obj)
            if dyn:
                m = self.override(dyn, key)
                if m is not None:
                    return self.prog.func(m, self.tu()), dyn
        return self.prog.func(key, self.tu()), None

    def override(self, cls, key):
        ck = (cls, key)
        if ck in self._ovr:
            return self._ovr[ck]
        res = None
        order = [cls] + self.prog.bases(cls)
        for c in order:
            for m in self.prog.methods(c):
                if m['k'] == key or self.overrides(m, key):
                    res = m['k']
                    break
            if res:
                break
        self._ovr[ck] = res
        return res

    def overrides(self, m, key, depth=0):
        for o in m.get('ov', []):
            if o == key:
                return True
            if depth < 6:
                for r in self.prog.records.values():
                    for mm in r.get('m', []):
                        if mm['k'] == o and self.overrides(mm, key, depth + 1):
                            return True
        return False

    def e_call(self, e, st):
        f = e.get('f')
        if f is None:
            return self.call_value(e, st)
        # object expression
        if 'o' in e:
            objs = []
            for s, v in self.ev(e['o'], st):
                if e.get('arrow'):
                    v = self.deref(s, v)
                elif v[0] != 'alias':
                    s, v = self.temp(s, v, e['o'])
                objs.append((s, v))
        else:
            objs = [(st, None)]
        out = []
        for s, o in objs:
            out += self.call_on(e, f, s, o)
        return dedupe(out) if len(out) > 1 else out

    def call_on(self, e, f, s, o):
        if o is not None and f.get('lam') or (o is not None and e.get('op') == '()'):
            lam = self.load(s, o)
            if lam[0] in ('lam', 'fn', 'bound'):
                out = []
                for s2, vals in self.args(e['a'], f, s):
                    out += self.call_closure(lam, s2, vals, e, f['k'])
                return out
        h = self.hook(f['n'], e, s, o, e['a'], f)
        if h is not None:
            return h
        fn, dyn = self.dispatch(f, s, o, e)
        if e.get('op') == '=' and o is not None and len(e['a']) == 1 and (fn is None or fn.raw.get('defaulted')):
            own = f['n'][:f['n'].rfind('::operator')]
            if f.get('pt') and strip_type(f['pt'][0]) == strip_type(e['o'].get('t', '?')) and not own.startswith('std::'):
                out = []
                for s2, w in self.rv(e['a'][0], s):
                    out.append((self.write(s2, o, w, e), o))
                return out
        if fn is not None and f.get('v') and not e.get('nv') and dyn is None and o is not None and not self.static_dispatch_ok(f, fn):
            fn = None
        if fn is not None and self.may_inline(fn):
            out = []
            for s2, vals in self.args(e['a'], f, s):
                out += self.invoke(fn, s2, ('ptr', o[1], o[2]) if o is not None else None, vals, e)
            return out
        return self.model(e, f, s, o)

    def static_dispatch_ok(self, f, fn):
        """virtual call on an object of unknown dynamic type: only resolved when nothing overrides it"""
        for r in self.prog.records.values():
            for m in r.get('m', []):
                if f['k'] in m.get('ov', []):
                    return False
        return True

    def call_value(self, e, st):
        out = []
        for s, fv in self.rv(e['fe'], st) if e.get('fe') else [(st, ('unk',))]:
            for s2, vals in self.args(e['a'], None, s):
                out += self.call_closure(fv, s2, vals, e, None)
        return out

    def call_closure(self, c, st, vals, e, key=None):
        if c[0] == 'lam':
            cands = [self.prog.func(k, c[3]) for k in c[1]]
            cands = [x for x in cands if x is not None]
            if key is not None and len(cands) > 1:
                pick = [x for x in cands if x.key == key]
                cands = pick or cands
            if len(cands) > 1:
                n = len(vals)
                cands = [x for x in cands if len(x.raw['p']) == n] or cands
            if cands:
                return self.invoke(cands[0], st, None, vals, e, closure=c)
        elif c[0] == 'fn':
            h = self.hook(c[2], e, st, None, e.get('a', []), {'k': c[1], 'n': c[2]})
            if h is not None:
                return h
            fn = self.prog.func(c[1], self.tu())
            if fn is not None and self.may_inline(fn):
                return self.invoke(fn, st, None, vals, e)
        elif c[0] == 'bound':
            fn = self.prog.func(c[1], self.tu())
            o = c[2]
            if fn is not None and self.may_inline(fn) and o[0] in ('alias', 'ptr'):
                return self.invoke(fn, st, ('ptr', o[1], o[2]), vals, e)
        elif c[0] == 'nil':
            self.throw(st, mkobj('std::bad_function_call'))
            return []
        elif c[0] == 'obj' and isinstance(c[1], str):
            r = self.functor(c, st, vals, e)
            if r is not None:
                return r
        h = self.hook('<closure>', e, st, c, vals, None)
        if h is not None:
            return h
        for v in vals:
            if v[0] == 'alias':
                pass
        st, t = self.fresh(st, e, 'closure')
        return [(st, ('apply', c) + tuple(self.load(st, v) for v in vals) if False else t)]

    FUNCTORS = {'equal_to': '==', 'not_equal_to': '!=', 'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'plus': '+', 'minus': '-', 'multiplies': '*'}

    def functor(self, c, st, vals, e):
        """call of a function object of a class"""
        m = re.match(r'std::(\w+)<', c[1])
        if m:
            op = self.FUNCTORS.get(m.group(1))
            if op and len(vals) == 2:
                return [(st, self.arith(st, op, self.load(st, vals[0]), self.load(st, vals[1])))]
            if m.group(1) == 'logical_not' and len(vals) == 1:
                return [(s, ('b', not b)) for s, b in self.truth(st, self.load(st, vals[0]))]
            return None
        r = self.prog.records.get(c[1])
        fns = [self.prog.func(x['k'], self.tu()) for x in (r or {}).get('m', [])]
        fns = [fn for fn in fns if fn is not None and fn.name.endswith('::operator()') and len(fn.raw['p']) == len(vals) and self.may_inline(fn)]
        if len(fns) != 1:
            return None
        h = self.hook(fns[0].name, e, st, None, vals, {'k': fns[0].key, 'n': fns[0].name})
        if h is not None:
            return h
        st, a = self.temp(st, c, (id(e), 'functor'))
        return self.invoke(fns[0], st, ('ptr', a[1], a[2]), vals, e)

    def invoke(self, fn, st, this, vals, e, closure=None, ctor_of_base=False):
        """analyse a call to fn; [(state, value)]"""
        fid = (self.cur, id(e), fn.key)
        frame = self.frames.setdefault(fid, len(self.frames) + 1)
        self.frame_info[frame] = (fn, fn.tu, self.cur)
        self.analysed.add(fn.key)
        x = fn.x
        if closure is not None:
            for d, v in closure[2]:
                if d == 'this':
                    st = st.put(('this', frame), v)
                else:
                    st = st.put(('v', frame, d), v)
        if this is not None:
            st = st.put(('this', frame), this)
        ps = x['p']
        saved = self.cur
        for p, v in zip(ps, vals):
            byref = p.get('r')
            if byref:
                if v[0] != 'alias':
                    root = ('tmp', frame, ('arg', p['d']))
                    st = st.put(root, v)
                    v = ('alias', root, ())
            else:
                v = self.load(st, v)
            st = st.put(('v', frame, p['d']), v)
        for p in ps[len(vals):]:
            st = st.put(('v', frame, p['d']), ('unk', frame, 'param', p['d']))
        self.stack.append(fn.key)
        self.cur = frame
        try:
            self.throws.append([])
            try:
                states = [st]
                if x.get('ctor'):
                    states = self.ctor_inits(fn, st)
                res = []
                for s in states:
                    res += self.exec(x['body'], s) if x.get('body') else [('n', s, VOID)]
            finally:
                thrown = self.throws.pop()
        finally:
            self.cur = saved
            self.stack.pop()
        byrefret = x['rt'].endswith('&')
        out = []

        def clean(s, keep=None):
            return s.drop(lambda r: r[0] in ('v', 'tmp', 'this') and len(r) > 1 and r[1] == frame)
        for k, s, v in res:
            if k not in ('n', 'ret'):
                raise Undecided('unstructured control flow in %s' % fn.where)
            if v[0] == 'alias':
                r, p, val = self.norm(s, v[1], v[2])
                if byrefret and not (r[0] in ('v', 'tmp') and r[1] == frame):
                    v = ('alias', r, p)
                else:
                    v = self.resolve(s, val)
            elif v[0] == 'ptr' and v[1][0] in ('v', 'tmp') and v[1][1] == frame:
                v = ('dangling',)
            if v[0] in ('lam', 'obj', 'list', 'some') and self.refers(v, frame):
                out.append((s, v))
            else:
                out.append((clean(s), v))
        for s, v in thrown:
            self.throw(clean(s), v)
        return dedupe(out)

    def refers(self, v, frame):
        if isinstance(v, tuple):
            if len(v) >= 2 and v[0] in ('v', 'tmp', 'this') and v[1] == frame:
                return True
            return any(self.refers(x, frame) for x in v if isinstance(x, tuple))
        return False

    # ---------------------------------------------------------------- unknown / library callees
    def havoc(self, st, loc, site):
        st, t = self.fresh(st, site, ('havoc', loc[0], loc[1]))
        root, path, v = self.norm(st, loc[0], loc[1])
        if v[0] == 'obj':
            t = mkobj(v[1], t, ())
        return self.store(st, (root, path), t)

    IMPURE = re.compile(r'::(now|rand|random|getline|get_future|read|recv|fork|waitpid|count_subscribers|pop|next|ok|time|clock|wait_for|wait_until)$|^(rand|waitpid|fork|read|pipe|popen|time|kill|select|poll)$')

    def model(self, e, f, st, o):
        from . import models
        r = models.call(self, e, f, st, o)
        if r is not None:
            return r
        out = []
        for s, vals in self.args(e['a'], f, st):
            out += self.unknown(e, f, s, o, vals)
        return out

    def unknown(self, e, f, s, o, vals):
        name = f['n']
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        pt = f.get('pt', [])
        vs = tuple(self.load(s, v) for v in vals)
        ov = (self.load(s, o),) if o is not None else ()
        impure = bool(self.IMPURE.search(name)) or (o is None and not vals and e.get('op') is None)
        mut = (o is not None and not f.get('const') and not f.get('st'))
        for i, v in enumerate(vals):
            if v[0] == 'alias' and i < len(pt) and mutable_ref(pt[i]):
                s = self.havoc(s, (v[1], v[2]), (id(e), 'arg', i))
            elif v[0] == 'ptr' and i < len(pt) and pt[i].endswith('*') and not pt[i].startswith('const '):
                s = self.havoc(s, (v[1], v[2]), (id(e), 'arg', i))
        if re.match(r'(std|boost)::', name):
            # an unmodelled library function may call the closures it is given any number of times
            for i, v in enumerate(vs):
                if v[0] == 'lam':
                    for j, (d, c) in enumerate(v[2]):
                        if c[0] == 'alias' and c[1][0] in ('v', 'tmp', 'this', 't', 'h'):
                            s = self.havoc(s, (c[1], c[2]), (id(e), 'cap', i, j))
        if impure:
            s, t = self.fresh(s, e, name)
        else:
            t = ('call', name) + ov + vs
            if o is None and vs and all(is_num(x) for x in vs):
                t = folded(name, [x[1] for x in vs]) or t
        rt = f.get('rt', '')
        if mut and o is not None and not rt.endswith('&'):
            s = self.havoc(s, (o[1], o[2]), (id(e), 'obj'))
        if rt == 'void':
            t = VOID
        elif rt.endswith('&') and o is not None and name.split('::')[-1] in ('operator=', 'operator+=', 'operator<<', 'append', 'assign'):
            if name.endswith('operator=') and vals:
                s = self.store(s, (o[1], o[2]), vs[0])
            else:
                s = self.havoc(s, (o[1], o[2]), (id(e), 'obj'))
            return [(s, o)]
        elif rt.endswith('&'):
            return [(s, ('alias', ('t', t), ()))]
        return [(s, t)]

    # ---------------------------------------------------------------- iterators / containers
    def container(self, st, loc):
        return self.loadraw(st, loc)

    def cloc(self, st, loc):
        """location of the container proper: classes derived from a standard container keep it in field '<c>'"""
        r, p, v = self.norm(st, loc[0], loc[1])
        if v[0] == 'obj' and (of_get(v, '<c>') is not None or self.derived_container(v[1])):
            return r, p + ('<c>',)
        return r, p

    def derived_container(self, t):
        k = ('dc', t)
        if k not in self._ovr:
            self._ovr[k] = any(re.match(r'std::(?:__cxx11::)?(list|vector|deque|map|unordered_map|set|unordered_set|multimap|forward_list)<', b) for b in self.prog.bases(t)) \
                if t in self.prog.records else False
        return self._ovr[k]

    def iter_elem(self, st, it):
        loc, pos = it[1], it[2]
        c = self.loadraw(st, loc)
        if c[0] == 'list' and pos == 'begin':
            pos = 0
        if isinstance(pos, int):
            return ('alias', loc[0], loc[1] + (('ix', pos),))
        return ('alias', loc[0], loc[1] + (('at', pos),))

    def iter_eq(self, st, a, b):
        if a == b:
            return True
        if a[1] != b[1]:
            return None
        c = self.loadraw(st, a[1])
        if c[0] in ('list', 's'):
            n = len(c[1])
            pa, pb = [0 if p == 'begin' else n if p == 'end' else p for p in (a[2], b[2])]
            if isinstance(pa, int) and isinstance(pb, int):
                return pa == pb
        return None

    def iter_step(self, st, it, d, site):
        loc, pos = it[1], it[2]
        c = self.loadraw(st, loc)
        if c[0] in ('list', 's') and d is not None:
            n = len(c[1])
            p = 0 if pos == 'begin' else n if pos == 'end' else pos
            if isinstance(p, int):
                return st, ('iter', loc, p + d)
        st, t = self.fresh(st, site, 'iter')
        return st, ('iter', loc, t)

    def each(self, st, loc, site, step, early=None):
        """abstract iteration over the container at loc.  step(state, elem_alias, acc-free) returns
        [(kind, state, value)]: 'n' continue, anything else leaves the loop with that outcome.
        Returns list of outcomes; normal completion is ('n', state, None)."""
        lo, hi = 0, None
        if len(loc) == 4:
            lo, hi = loc[2], loc[3]
            loc = loc[:2]
        loc = self.cloc(st, loc)
        c = self.loadraw(st, loc)
        if c[0] == 'list' and len(c[1]) <= 64:
            cur, outs = [st], []
            for i in range(lo, len(c[1]) if hi is None else hi):
                nxt = []
                for s in cur:
                    for k, s2, v in step(s, ('alias', loc[0], loc[1] + (('ix', i),))):
                        if k == 'n':
                            nxt.append(s2)
                        else:
                            outs.append((k, s2, v))
                cur = dedupe(nxt)
            return outs + [('n', s, None) for s in cur]
        tag = ('elem', self.cur, id(site) if isinstance(site, dict) else site)
        elem = ('alias', loc[0], loc[1] + (tag,))

        if lo != 0 or hi is not None:
            st = st.gset(partial=True)

        def one(s):
            s = s.forget(tag)
            root, path, _ = self.norm(s, loc[0], loc[1])
            base = self.strip_elem(self.loadraw(s, (root, path)), tag)
            s = self.store(s, (root, path), base)
            return step(s, elem)
        outs = []
        for k, s, v in self.fixpoint([st], lambda s: [('n', s, True), ('n', s, False)], one, site, nondet=True):
            s = s.forget(tag)
            root, path, cv = self.norm(s, loc[0], loc[1])
            b = self.strip_elem(cv, tag)
            if b != cv:
                s = self.store(s, (root, path), b)
            outs.append((k, s, v))
        return dedupe(outs)

    def strip_elem(self, v, tag):
        if v[0] == 'obj' and of_get(v, tag) is not None:
            d = dict(v[3])
            d.pop(tag)
            if v[1] == '?' and not d and v[2] is not None:
                return v[2]
            return mkobj(v[1], v[2], d)
        return v

    def fixpoint(self, states, cond, body, site, nondet=False):
        """loop: cond(state) -> [(kind, state, bool)], body(state) -> outcomes"""
        seen, work, outs = {}, [(x, 0) for x in states], []
        visits = 0
        while work:
            s, depth = work.pop()
            if s in seen:
                continue
            seen[s] = 1
            visits += 1
            if visits > self.MAXSTATES:
                raise Undecided('loop does not stabilise at line %s' % (site.get('l') if isinstance(site, dict) else site))
            for k, s1, b in cond(s):
                if k != 'n':
                    outs.append((k, s1, b))
                elif not b:
                    outs.append(('n', s1, None))
                else:
                    for k2, s2, v in body(s1):
                        if k2 in ('n', 'cont'):
                            if depth > 20:
                                s2 = self.widen(s, s2, site)
                            work.append((s2, depth + 1))
                        elif k2 == 'brk':
                            outs.append(('n', s2, None))
                        else:
                            outs.append((k2, s2, v))
        return dedupe(outs)

    def widen(self, old, new, site):
        """forget the parts of the memory that change from one iteration to the next"""
        sid = id(site) if isinstance(site, dict) else site
        gone = []

        def w(a, b, where):
            if a == b or a is None or b[0] in ('b', 'nil', 'none', 'ptr', 'alias', 'lam'):
                return b
            if a[0] == 'obj' and b[0] == 'obj' and a[1] == b[1]:
                return mkobj(b[1], b[2], {k: w(of_get(a, k), v, where + (k,)) for k, v in b[3]})
            gone.append(where)
            return ('widened', sid, where)
        m = {r: w(old.mem.get(r), v, (r,)) for r, v in new.mem.items()}
        if not gone:
            return new
        s = State(m, {k: v for k, v in new.facts.items() if old.facts.get(k) == v}, new.ghost)
        for g in gone:
            s = s.forget(('widened', sid, g))
        return s

    # ---------------------------------------------------------------- statements
    def exec(self, n, st):
        """[(kind, state, value)]"""
        if n is None:
            return [('n', st, VOID)]
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided('analysis budget exceeded')
        return getattr(self, 's_' + n['k'], self.s_unknown)(n, st)

    def s_unknown(self, n, st):
        raise Undecided('unsupported statement %s at line %s' % (n.get('c', n['k']), n.get('l')))

    def s_null(self, n, st):
        return [('n', st, VOID)]

    def s_expr(self, n, st):
        return [('n', s, VOID) for s in dedupe([s for s, _ in self.ev(n['e'], st)])]

    def s_ret(self, n, st):
        if n.get('e') is None:
            return [('ret', st, VOID)]
        fn = self.frame_info[self.cur][0]
        ref = fn is not None and fn.raw['rt'] and fn.x['rt'].endswith('&')
        return [('ret', s, v if ref else self.load(s, v)) for s, v in self.ev(n['e'], st)]

    def s_goto(self, n, st):
        return [('goto:' + n['n'], st, VOID)]

    def s_break(self, n, st):
        return [('brk', st, VOID)]

    def s_continue(self, n, st):
        return [('cont', st, VOID)]

    def s_block(self, n, st):
        return self.seq(n['b'], st, True)

    def local_dtors(self, stmts):
        out = []
        for x in stmts:
            if x and x['k'] == 'decl':
                for v in x['v']:
                    if v.get('static') or v.get('r'):
                        continue
                    h = self.dtor_handler(v['t'])
                    if h:
                        out.append((v, h))
        return out

    def dtor_handler(self, t):
        t = strip_type(t)
        for p, h in self.dtor_types:
            if re.search(p, t):
                return h
        r = self.prog.records.get(t)
        if r and r.get('repo') and self.run_dtors:
            for m in r.get('m', []):
                if m['n'].startswith('~') and not m.get('imp'):
                    fn = self.prog.func(m['k'])
                    if fn is not None and self.may_inline(fn):
                        def run(interp, st, loc, ty, fn=fn):
                            return [s for s, _ in interp.invoke(fn, st, ('ptr', loc[1], loc[2]), [], fn.raw)]
                        return run
        return None

    def seq(self, stmts, st, scope=False):
        dts = self.local_dtors(stmts) if scope else []
        if dts:
            self.throws.append([])
        labels = {}
        for i, x in enumerate(stmts):
            y = x
            while y is not None and y['k'] in ('label', 'case', 'default'):
                if y['k'] == 'label':
                    labels['goto:' + y['n']] = i
                y = y.get('s')
        outs = []
        seen = {i: set() for i in labels.values()}
        work = [(0, st, 0)]
        while work:
            i0, s0, depth = work.pop()
            cur = [s0]
            for i in range(i0, len(stmts)):
                x = stmts[i]
                if i in seen:
                    fresh = []
                    for s in cur:
                        if s not in seen[i]:
                            seen[i].add(s)
                            fresh.append(s)
                    cur = fresh
                    if len(seen[i]) > self.MAXSTATES:
                        raise Undecided('goto loop does not stabilise')
                nxt = []
                for s in cur:
                    for k, s2, v in self.exec(x, s):
                        if k == 'n':
                            nxt.append(s2)
                        elif k in labels:
                            if depth > 20:
                                s2 = self.widen(s0, s2, (id(stmts), k))
                            work.append((labels[k], s2, depth + 1))
                        else:
                            outs.append((k, s2, v))
                cur = dedupe(nxt)
                if len(cur) > self.MAXSTATES:
                    raise Undecided('too many states at line %s' % (x or {}).get('l'))
                if not cur:
                    break
            outs += [('n', s, VOID) for s in cur]
        if dts:
            thrown = self.throws.pop()

            def unwind(states):
                for v, h in reversed(dts):
                    nxt = []
                    for s in states:
                        root = ('v', self.cur, v['d'])
                        if root in s.mem:
                            nxt += h(self, s, ('alias', root, ()), v['t'])
                        else:
                            nxt.append(s)
                    states = nxt
                return states
            outs = [(k, s2, v) for k, s, v in outs for s2 in unwind([s])]
            for s, v in thrown:
                for s2 in unwind([s]):
                    self.throw(s2, v)
        return dedupe(outs)

    def declare(self, v, st):
        """[(state)] after declaring variable v"""
        root = ('v', self.cur, v['d'])
        if v.get('static'):
            g = ('g', v['g'])
            if v.get('i') is None:
                return [st.put(root, ('alias', g, ()))]
            if v['t'].startswith('const ') or v.get('r') or True:
                # initialiser of a static local is evaluated as for an automatic one; mutable statics keep ghost identity
                if (v['t'].startswith('const ') and not v['t'].endswith('*')) or v['t'].endswith('*const') or '(lambda' in v['t']:
                    return [s.put(root, x) for s, x in self.rv(v['i'], st)]
                return [st.put(root, ('alias', g, ()))]
        if v.get('i') is None:
            return [st.put(root, ('uninit', self.cur, v['d']))]
        out = []
        for s, x in (self.lv if v.get('r') else self.rv)(v['i'], st):
            if v.get('r') and x[0] == 'alias':
                r, p, _ = self.norm(s, x[1], x[2])
                x = ('alias', r, p)
            s = s.put(root, x)
            if v.get('b'):
                for bidx, b in enumerate(v['b']):
                    broot = ('v', self.cur, b['d'])
                    if 'hi' in b or b.get('e') is None or b['e']['k'] in ('unk', 'var'):
                        base = ('alias', x[1], x[2]) if x[0] == 'alias' else ('alias', root, ())
                        val = self.load(s, base)
                        s = s.put(broot, self.tuple_elem(s, base, val, bidx))
                    else:
                        rs = self.ev(b['e'], s)
                        s, bv = rs[0]
                        s = s.put(broot, bv)
            out.append(s)
        return out

    def tuple_elem(self, s, base, val, i):
        if val[0] == 'list':
            return ('alias', base[1], base[2] + (('ix', i),))
        if (val[0] == 'obj' and val[1].startswith('std::pair')) or val[0] != 'obj':
            return ('alias', base[1], base[2] + (('std::pair::first', 'std::pair::second')[i] if i < 2 else ('ix', i),))
        return ('alias', base[1], base[2] + (('ix', i),))

    def s_decl(self, n, st):
        cur = [st]
        for v in n['v']:
            cur = [s2 for s in cur for s2 in self.declare(v, s)]
        return [('n', s, VOID) for s in dedupe(cur)]

    def with_init(self, n, st):
        states = [st]
        if n.get('init'):
            states = [s for k, s, _ in self.exec(n['init'], st)]
        if n.get('cvar'):
            states = [s2 for s in states for s2 in self.declare(n['cvar'], s)]
        return states

    def s_if(self, n, st):
        outs = []
        for s in self.with_init(n, st):
            for s1, v in self.rv(n['c'], s):
                for s2, b in self.truth(s1, v):
                    if b:
                        outs += self.exec(n['a'], s2)
                    else:
                        outs += self.exec(n.get('b'), s2)
        return dedupe(outs)

    def flatten_switch(self, body):
        """[(labels, stmt)]: labels = list of case nodes / 'default'"""
        out = []

        def add(x):
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['s']
            out.append((labels, x))
        if body is None:
            return out
        if body['k'] == 'block':
            for x in body['b']:
                add(x)
        else:
            add(body)
        return out

    def s_switch(self, n, st):
        items = self.flatten_switch(n['b'])
        outs = []
        for s in self.with_init(n, st):
            for s1, v in self.rv(n['c'], s):
                entries = []    # (state, index)
                default = None
                rest = [s1]
                for i, (labels, x) in enumerate(items):
                    for lab in labels:
                        if lab['k'] == 'default':
                            default = i
                            continue
                        if 'v' not in lab:
                            rs = self.rv(lab['e'], s1)
                            c = rs[0][1]
                        else:
                            c = I(lab['v'])
                        nrest = []
                        for r in rest:
                            for r2, b in self.compare(r, '==', self.load(r, v), c):
                                if b:
                                    entries.append((r2, i))
                                else:
                                    nrest.append(r2)
                        rest = nrest
                for r in rest:
                    if default is not None:
                        entries.append((r, default))
                    elif self.enum_exhausted(n, r, v):
                        pass
                    else:
                        outs.append(('n', r, VOID))
                for s2, i in entries:
                    for k, s3, val in self.seq([x for _, x in items[i:]], s2, True):
                        outs.append(('n', s3, VOID) if k == 'brk' else (k, s3, val))
        return dedupe(outs)

    def enum_exhausted(self, n, st, v):
        return False

    def s_case(self, n, st):
        return self.exec(n['s'], st)

    s_default = s_label = s_case

    def loop_cond(self, n):
        def cond(s):
            res = []
            states = [s]
            if n.get('cvar'):
                states = self.declare(n['cvar'], s)
            for s0 in states:
                if n.get('c') is None:
                    res.append(('n', s0, True))
                    continue
                for s1, v in self.rv(n['c'], s0):
                    for s2, b in self.truth(s1, v):
                        res.append(('n', s2, b))
            return res
        return cond

    def s_while(self, n, st):
        return self.fixpoint([st], self.loop_cond(n), lambda s: self.exec(n['b'], s), n)

    def s_do(self, n, st):
        outs, heads = [], []
        for k, s, v in self.exec(n['b'], st):
            if k in ('n', 'cont'):
                heads.append(s)
            elif k == 'brk':
                outs.append(('n', s, VOID))
            else:
                outs.append((k, s, v))
        return dedupe(outs + self.fixpoint(heads, self.loop_cond(n), lambda s: self.exec(n['b'], s), n))

    def s_for(self, n, st):
        states = [st]
        outs = []
        if n.get('init'):
            states = [s for k, s, _ in self.exec(n['init'], st)]

        def body(s):
            res = []
            for k, s1, v in self.exec(n['b'], s):
                if k in ('n', 'cont'):
                    if n.get('inc') is not None:
                        res += [('n', s2, VOID) for s2, _ in self.ev(n['inc'], s1)]
                    else:
                        res.append(('n', s1, VOID))
                else:
                    res.append((k, s1, v))
            return dedupe(res)
        return self.fixpoint(states, self.loop_cond(n), body, n)

    def s_rfor(self, n, st):
        states = [st]
        if n.get('init'):
            states = [s for k, s, _ in self.exec(n['init'], st)]
        outs = []
        for s in states:
            for s1, c in self.lv(n['r'], s):
                txt = self.load(s1, c)
                if txt[0] == 's' and len(txt[1]) < 64:
                    # the characters of a string; those of a literal include its terminator
                    lit = ['basic_string' not in (n['r'].get('t') or '') and n['r'].get('t', '').rstrip().endswith(']')]
                    s1, c = self.temp(s1, ('list', tuple(I(ord(x)) for x in txt[1]) + ((I(0),) if lit[0] else ())), (id(n), 'chars'))

                def step(s2, elem):
                    var = n['v']
                    root = ('v', self.cur, var['d'])
                    if var.get('r') or '&' in var['t']:
                        s3 = s2.put(root, elem)
                    else:
                        s3 = s2.put(root, self.load(s2, elem))
                    if var.get('b'):
                        for i, b in enumerate(var['b']):
                            val = self.load(s3, elem)
                            be = b.get('e')
                            if be is not None and be['k'] == 'mem':
                                rs = self.ev(be, s3)
                                s3, bv = rs[0]
                                s3 = s3.put(('v', self.cur, b['d']), bv)
                            else:
                                s3 = s3.put(('v', self.cur, b['d']), self.tuple_elem(s3, elem, val, i))
                    res = []
                    for k, s4, v in self.exec(n['b'], s3):
                        if k == 'cont':
                            k = 'n'
                        res.append((k, s4, v))
                    return res
                for k, s2, v in self.each(s1, (c[1], c[2]), n, step):
                    if k == 'brk':
                        k = 'n'
                    outs.append((k, s2, v if v is not None else VOID))
        return dedupe(outs)

    # ---------------------------------------------------------------- exceptions
    def is_a(self, t, cls):
        t, cls = strip_type(t), strip_type(cls)
        if t == cls:
            return True
        if cls in self.prog.bases(t):
            return True
        if cls in STD_EXC.get(t, []):
            return True
        for b in self.prog.bases(t):
            if cls in STD_EXC.get(b, []):
                return True
        return False

    def s_try(self, n, st):
        self.throws.append([])
        try:
            outs = self.exec(n['b'], st)
        finally:
            thrown = self.throws.pop()
        for s, v in dedupe_throws(thrown):
            self.handle(n['h'], 0, s, v, outs)
        return dedupe(outs)

    def handle(self, handlers, i, s, v, outs):
        t = v[1] if v[0] == 'obj' else '?'
        for h in handlers:
            ht = h.get('t')
            if ht is None:
                m = True
            elif t in ('?', '...'):
                m = None
            else:
                m = self.is_a(t, ht)
            if m is None:
                # unknown dynamic type: both possibilities
                pass
            elif not m:
                continue
            saved = s.mem.get(('exc',))
            s1 = s.put(('exc',), v)
            if h.get('v'):
                root = ('v', self.cur, h['v']['d'])
                if h['v'].get('r'):
                    s1 = s1.put(root, ('alias', ('exc',), ()))
                else:
                    s1 = s1.put(root, v)
            self.throws.append([])
            try:
                res = self.exec(h['b'], s1)
            finally:
                inner = self.throws.pop()

            def restore(x):
                if saved is None:
                    return x.drop(lambda r: r == ('exc',))
                return x.put(('exc',), saved)
            outs += [(k, restore(s2), v2) for k, s2, v2 in res]
            for s2, v2 in inner:
                self.throw(restore(s2), v2)
            if m is True:
                return
        self.throw(s, v)

    # ---------------------------------------------------------------- entry
    def run(self, fn, st, this=None, vals=(), site=None):
        """analyse fn from state st; returns (returns [(state, value)], throws [(state, value)])"""
        self.throws.append([])
        try:
            rets = self.invoke(fn, st, this, list(vals), site if site is not None else fn.raw)
        finally:
            thrown = self.throws.pop()
        return rets, dedupe_throws(thrown)

    def run_closure(self, c, st, vals=(), site=None):
        self.throws.append([])
        try:
            rets = self.call_closure(c, st, list(vals), site if site is not None else {'k': 'root', 'a': []})
        finally:
            thrown = self.throws.pop()
        return rets, dedupe_throws(thrown)


def dedupe_throws(l):
    seen, out = set(), []
    for s, v in l:
        k = (s, v)
        if k not in seen:
            seen.add(k)
            out.append((s, v))
    return out
