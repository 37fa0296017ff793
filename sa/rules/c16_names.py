"""Names: splitting of references and their resolution along the scopes."""
import itertools
from ..facts import load
from ..absint import Interp, State, mkobj, NIL, I, Sx, TRUE, FALSE
from .. import osc

OSI = 'openscenario/openscenario_interpreter/'
NS = 'openscenario_interpreter::'
NAMES = ['', 'a', 'name', 'a b', 'a:', ':a', 'a:b', ':', '::', 'a::b', 'A1_x']
REFS = ['a', 'abc', 'a::b', 'a::b::c', 'aa::b::cc::d', '::a', '::a::b', '::aa::b::c', 'a::::b', '::::a', 'a::', '::', 'a::b::', 'a:b', 'a:::b', ':a', 'a:', 'a::b:c', '']


class Deep(Interp):
    """scopes nest: the look-ups recurse once per level"""
    MAXREC = 8


def errors(throws):
    return sorted({x[1].split('<')[0].split('::')[-1] for _, x in throws})


def is_syntax_error(prog, x):
    return x[0] == 'obj' and any(b.split('::')[-1] == 'SyntaxError' for b in [x[1]] + list(prog.bases(x[1])))


def text(v):
    """the text of a name, whatever its layout"""
    from ..models import sliced
    return sliced(v)


def parts(v):
    """absolute, prefixes and name of a reference by the names and types of the members"""
    d = {k.split('::')[-1]: x for k, x in v[3] if isinstance(k, str)}
    return d.get('absolute'), d.get('prefixes'), text(d['name']) if 'name' in d else None


def reference(t):
    p = t.split('::')
    absolute = len(p) > 1 and p[0] == ''
    return absolute, p[1 if absolute else 0:-1], p[-1]


def one(rep, prog, fn, st, *vals):
    ip = osc.interp(Deep, prog)
    rets, throws = ip.run(prog.one(fn), st, None, list(vals))
    rep.analysed(ip)
    rep.count('paths', len(rets) + len(throws))
    return ip, rets, throws


def splitting(rep, prog):
    where = OSI + 'include/openscenario_interpreter/name.hpp'
    ok = True
    for n in NAMES:
        ip, rets, throws = one(rep, prog, 'probe::name', State(), Sx(n))
        if ':' in n:
            good = not rets and throws and all(is_syntax_error(prog, x) for _, x in throws)
            what = 'is accepted' if rets else 'is rejected with %s' % errors(throws)
        else:
            good = not throws and rets and all(text(ip.load(s, v)) == Sx(n) for s, v in rets)
            what = 'is rejected' if throws else 'becomes %s' % [text(ip.load(s, v)) for s, v in rets]
        if not good:
            ok = False
            rep.bad('C16:name', 'the name "%s" %s' % (n, what), where)
    if ok:
        rep.ok('names with and without colons', where)
    ok = True
    for r in REFS:
        absolute, prefixes, name = reference(r)
        for fn in ('prefixed', 'stripped'):
            if fn == 'stripped' and not prefixes:
                continue
            ip, rets, throws = one(rep, prog, 'probe::' + fn, State(), Sx(r))
            if ':' in name:
                if rets or not throws or not all(is_syntax_error(prog, x) for _, x in throws):
                    ok = False
                    rep.bad('C16:reference:rejects', 'the reference "%s" is not rejected with a syntax error' % r, where)
                continue
            want = (('b', absolute), ('list', tuple(Sx(p) for p in prefixes)), Sx(name))
            if fn == 'stripped':
                want = (FALSE, ('list', want[1][1][1:]), want[2])
            got = [parts(ip.load(s, v)) for s, v in rets]
            if throws or not got or any(g != want for g in got):
                ok = False
                rep.bad('C16:reference:%s' % fn, 'the reference "%s"%s becomes %s instead of %s' % (r, ' without its first prefix' if fn == 'stripped' else '', got or errors(throws), want), where)
    if ok:
        rep.ok('splitting of %d references' % len(REFS), where)


# ------------------------------------------------------------------------------ scopes
# name -> (name of the scope, enclosing one)
TREES = [
    {'root': None, 'S': ('S', 'root'), 'U': ('', 'S'), 'V': ('', 'U'), 'T': ('T', 'S')},
    {'root': None, 'U': ('', 'root'), 'S': ('S', 'U'), 'T': ('T', 'S'), 'R': ('R', 'root')},
    {'root': None, 'S': ('S', 'root'), 'S2': ('S', 'root'), 'T': ('T', 'S'), 'W': ('T', 'T')},
    {'root': None, 'S': ('S', 'root'), 'U': ('', 'root'), 'S2': ('S', 'U')},
    {'root': None, 'U': ('', 'root'), 'U2': ('', 'root'), 'X': ('', 'U'), 'R': ('R', 'U2')},
]
QUERIES = ['x', '::x', 'S::x', 'T::x', 'R::x', 'S::T::x', '::S::x', '::S::T::x', '::T::x', 'Q::x', '::Q::x', 'S::Q::x', 'y', '']
ISA = {'A': ('A',), 'B': ('B',), 'D': ('D', 'A')}


class Missing(Exception):
    pass


class Open(Exception):
    """what the reference designates is left open by the property"""


class Model:
    def __init__(self, tree, decl):
        self.tree, self.decl = tree, decl

    def outer(self, f):
        return self.tree[f][1] if self.tree[f] else None

    def named(self, f, n):
        return [g for g, d in self.tree.items() if d and d == (n, f)]

    def unnamed(self, f):
        return self.named(f, '')

    def find(self, f, n, t, outward=True):
        level = [f]
        while level:
            found = [(g, k) for g in level for k, (m, ty) in enumerate(self.decl.get(g, ())) if m == n and (t is None or t in ISA[ty])]
            if len(found) > 1:
                raise Missing
            if found:
                return found[0]
            level = [u for g in level for u in self.unnamed(g)]
        if not outward:
            raise Open
        if self.outer(f) is None:
            raise Missing
        return self.find(self.outer(f), n, t)

    def prefix(self, f, n):
        r = self.named(f, n)
        if r:
            return r
        below = [self.prefix(u, n) for u in self.unnamed(f)]
        if sum(1 for b in below if b) > 1 and len({self.depth(x) for b in below for x in b}) > 1:
            raise Open
        return [x for b in below for x in b]

    def depth(self, f):
        return 0 if self.outer(f) is None else 1 + self.depth(self.outer(f))

    def down(self, f, prefixes, n, t):
        for p in prefixes:
            r = self.prefix(f, p)
            if len(r) != 1:
                raise Missing
            f = r[0]
        return self.find(f, n, t, outward=not prefixes)

    def ref(self, f, r, t):
        absolute, prefixes, n = reference(r)
        if absolute:
            while self.outer(f) is not None:
                f = self.outer(f)
            return self.down(f, prefixes, n, t)
        if not prefixes:
            return self.find(f, n, t)
        g = self.outer(f) or f
        while True:
            r = self.prefix(g, prefixes[0])
            if len(r) > 1:
                raise Missing
            if r:
                if len(prefixes) == 1:
                    return self.find(r[0], n, t, outward=False)
                return self.down(r[0], prefixes[1:], n, t)
            if self.outer(g) is None:
                raise Missing
            g = self.outer(g)


def inside(tree, f, g):
    while g is not None:
        if f == g:
            return True
        g = tree[g][1] if tree[g] else None
    return False


def declarations(tree, deep):
    """which scopes declare x, and as what; the references to look up then"""
    fs = list(tree)
    for k in range(len(fs) + 1):
        for c in itertools.combinations(fs, k):
            if deep or k in (0, 1, len(fs)) or (k == 2 and not inside(tree, c[0], c[1])):
                yield {f: [('x', 'A')] for f in c}, QUERIES, ('A',) if k == 2 else (None, 'A')
    for f, g in itertools.product(fs, fs):
        if f != g and (deep or inside(tree, f, g)):
            yield {f: [('x', 'B')], g: [('x', 'D')]}, QUERIES[:4], (None, 'A', 'B')
    for f in fs:
        yield {f: [('x', 'A'), ('x', 'B')]}, QUERIES[:4], (None, 'A', 'B')
        yield {f: [('x', 'D'), ('x', 'A')]}, QUERIES[:4], ('A',)
        yield {f: [('y', 'A')]}, ['x', 'y', '::y', '::x'], (None,)


FN = {None: 'ref', 'A': 'refA', 'B': 'refB'}


def resolution(rep, prog):
    where = OSI + 'src/scope.cpp'
    insert = [f for f in prog.by_name.get(NS + 'Scope::insert', [])]
    rep.need(len(insert) == 1, 'Scope::insert not found')
    insert = insert[0]
    nm = text_field(prog)
    rep.fan(lambda part, tree: look_ups(part, prog, insert, nm, tree, rep.tier == 'thorough'), TREES)
    for k in ('plain', 'absolute', 'prefixed'):
        if not [v for v in rep.violations if v.startswith('C16:' + k)]:
            rep.ok('%s references' % k, OSI + 'src/scope.cpp')


def look_ups(rep, prog, insert, nm, tree, deep):
    where = OSI + 'src/scope.cpp'
    if True:
        base = State().gset(epoch=0)
        for f, d in tree.items():
            ip, rets, throws = one(rep, prog, 'probe::root', base, NIL) if d is None else one(rep, prog, 'probe::inner', base, Sx(d[0]), ('alias', ('t', d[1]), ()))
            if not built(rep, len(rets) == 1 and not throws, 'C16:scope:build', 'building a scope does not end in exactly one way', where):
                return
            s, v = rets[0]
            base = s.put(('t', f), ip.load(s, v))
        objects = {}
        for k in 'ABD':
            ip, rets, throws = one(rep, prog, 'probe::make' + k, base)
            base, p = rets[0][0], ip.load(*rets[0])
            objects[k] = p
        for decl, queries, types in declarations(tree, deep):
            st, made = base, {}
            for f, ds in decl.items():
                for i, (n, t) in enumerate(ds):
                    o = ('ptr', ('t', ('object', f, i)), ())
                    st = st.put(o[1], mkobj('probe::' + t, ('declared', f, i), ()))
                    made[f, i] = o
                    name = ('t', 'name', n)
                    st = st.put(name, nm(n))
                    ip = osc.interp(Deep, prog)
                    rets, throws = ip.run(insert, st, ('ptr', ('t', f), ()), [('alias', name, ()), o])
                    if not built(rep, len(rets) == 1 and not throws, 'C16:declare', 'declaring an object does not end in exactly one way', insert.where):
                        return
                    st = rets[0][0]
            m = Model(tree, decl)
            for f in tree:
                for q in queries:
                    for t in types:
                        fn = FN[t]
                        try:
                            want = made[m.ref(f, q, t)]
                        except Missing:
                            want = None
                        except Open:
                            rep.count('left open')
                            continue
                        rep.count('look-ups')
                        ip, rets, throws = one(rep, prog, 'probe::' + fn, st, ('alias', ('t', f), ()), Sx(q))
                        got = [('ptr',) + tuple(v[1:3]) if v[0] == 'alias' and t else ip.load(s, v) for s, v in rets]
                        who = 'reference "%s"%s from %s with %s' % (q, ' of type ' + t if t else '', place(tree, f), describe(tree, decl))
                        kind = 'absolute' if q.startswith('::') else 'prefixed' if '::' in q else 'plain'
                        if want is None:
                            if rets or not throws or not all(is_syntax_error(prog, x) for _, x in throws):
                                rep.bad('C16:%s:accepts' % kind, '%s is not rejected with a syntax error' % who, where)
                        elif throws or not got or any(g != want for g in got):
                            rep.bad('C16:%s:resolves' % kind, '%s yields %s' % (who, [str(g)[:60] for g in got] or errors(throws)), where)


def built(rep, good, key, message, where):
    if not good:
        rep.bad(key, message, where)
    return good


def place(tree, f):
    return 'the outermost scope' if tree[f] is None else 'the scope %s' % '::'.join(reversed(list(chain(tree, f))))


def chain(tree, f):
    while tree[f]:
        yield tree[f][0] or '(unnamed)'
        f = tree[f][1]


def describe(tree, decl):
    return ', '.join('%s declared as %s in %s' % (n, t, place(tree, f)) for f, ds in decl.items() for n, t in ds) or 'no declarations'


def text_field(prog):
    b = [x for x in prog.bases(NS + 'Name') if 'basic_string' in x]
    base = b[0] if b else None
    return (lambda n: mkobj(NS + 'Name', None, {('base', base): Sx(n)})) if base else (lambda n: Sx(n))


def run(rep):
    rep.rule = 'abstract interpretation of Name, Prefixed, Scope and EnvironmentFrame: every shape of reference, and every look-up in five trees of named and unnamed scopes with every set of declarations, compared with the resolution rule'
    prog = load([OSI + 'src/scope.cpp'], probes=['scope.cpp'])
    splitting(rep, prog)
    resolution(rep, prog)
