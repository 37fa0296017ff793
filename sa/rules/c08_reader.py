"""Reading scenario documents: cardinalities, defaults, attribute values and choices."""
import itertools
from ..facts import load
from ..absint import Interp, State, mkobj, TRUE, FALSE, VOID, NIL, I, Sx
from .. import osc, xmlread

OSI = 'openscenario/openscenario_interpreter/'
SCOPE = ('alias', ('t', 'scope'), ())
BOUNDS = {'0_0': (0, 0), '0_1': (0, 1), '1_1': (1, 1), '1_2': (1, 2), '2_3': (2, 3), '0_': (0, None), '1_': (1, None), '2_': (2, None)}


class R(Interp):
    def call_closure(self, c, st, vals, e, key=None):
        if c[0] == 'fn' and c[2].startswith('$'):
            x = self.load(st, vals[0]) if vals else None
            return [(st.event('chosen', c[2][1:], x), ('call', 'built', Sx(c[2][1:])))]
        return super().call_closure(c, st, vals, e, key)


def opaque1(name):
    def h(ip, st, e, o, args, f):
        return [(s, ('call', name, ip.load(s, vs[0]))) for s, vs in ip.args(args, f, st)]
    return h


def identity(ip, st, e, o, args, f):
    return [(s, ip.load(s, vs[0])) for s, vs in ip.args(args, f, st)]


def h_sink(ip, st, e, o, args, f):
    return [(s.event('sink', ip.load(s, vs[0])), VOID) for s, vs in ip.args(args, f, st)]


def group_ctor(ip, st, e, o, args, f):
    """reading a group member succeeds for elements of the group and throws for others"""
    return None


HOOKS = [(r'^probe::sink$', h_sink), (r'::substitute$', identity), (r'^openscenario_interpreter::(reader::)?evaluate$', opaque1('evaluate')), (r'Scope::ref$', opaque1('ref')),
         (r'^boost::algorithm::trim(_copy)?$', opaque1('trim'))]


def is_syntax_error(prog, x):
    return x[0] == 'obj' and x[1].split('::')[-1] == 'SyntaxError'


class Case:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog

    def run(self, fn, tree, vals=(), hooks=()):
        ip = osc.interp(R, self.prog, hooks=list(hooks) + xmlread.HOOKS + HOOKS)
        node = ('t', 'node')
        st = State().gset(doc=xmlread.document(tree)).put(node, ('xr', 0))
        rets, throws = ip.run(fn, st, None, [('alias', node, ())] + list(vals))
        self.rep.analysed(ip)
        self.rep.count('documents')
        self.rep.count('paths', len(rets) + len(throws))
        return ip, [(s, ip.load(s, v) if v else VOID) for s, v in rets], throws


def parents():
    """children of interest mixed with other elements, in every arrangement up to four children"""
    for n in range(0, 5):
        yield n, ('Parent', {}, [('Child', {'i': str(i)}, []) for i in range(n)])
    yield 2, ('Parent', {}, [('Other', {}, []), ('Child', {}, []), ('Other', {}, []), ('Child', {}, []), ('Childish', {}, [])])
    yield 0, ('Parent', {}, [('Other', {}, [('Child', {}, [])])])
    yield 1, ('Parent', {}, [('Child', {}, [('Child', {}, [])])])


def kids(tree, name='Child'):
    doc = xmlread.document(tree)
    return [('xr', i) for i in doc[0][2] if name is None or doc[i][0] == name]


def cardinality(rep, prog, c):
    where = OSI + 'include/openscenario_interpreter/reader/element.hpp'
    for kind in ('traverse', 'elements', 'groups'):
        ok = True
        for b, (lo, hi) in BOUNDS.items():
            fn = prog.one('probe::%s_%s' % (kind, b))
            for n, tree in parents():
                want = kids(tree, None if kind == 'groups' else 'Child')
                n = len(want)
                good = n >= lo and (hi is None or n <= hi)
                ip, rets, throws = c.run(fn, tree, [SCOPE] if kind != 'traverse' else [])
                what = '%s of %s to %s elements out of %d' % ({'traverse': 'traversal', 'elements': 'reading', 'groups': 'reading a group'}[kind], lo, 'unbounded' if hi is None else hi, n)
                if good:
                    if throws or not rets:
                        ok = False
                        rep.bad('C08:%s:rejects' % kind, '%s is rejected' % what, where)
                    for s, v in rets:
                        if kind == 'traverse':
                            got = [t[1] for t in s.g('trace', ()) if t[0] == 'sink']
                        else:
                            got = [x[2][2] if x[0] == 'obj' and x[2] and len(x[2]) > 2 else x for x in v[1]] if v[0] == 'list' else v
                        if got != want:
                            ok = False
                            rep.bad('C08:%s:elements' % kind, '%s yields %s instead of %s' % (what, got, want), where)
                else:
                    if rets or not throws or not all(is_syntax_error(prog, x) for _, x in throws):
                        ok = False
                        rep.bad('C08:%s:accepts' % kind, '%s is not rejected with a syntax error' % what, where)
        if ok:
            rep.ok('%s of %d cardinalities' % (kind, len(BOUNDS)), where)
    # a group skips elements which are not of the group
    ok = True
    for b, (lo, hi) in BOUNDS.items():
        fn = prog.one('probe::groups_' + b)

        def ctor(ip, st, e, o, args, f):
            x = ip.load(st, args[0] if isinstance(args[0], tuple) else [vs for _, vs in ip.args(args, f, st)][0][0])
            if xmlread.nodes(st)[x[1]][0] != 'Child':
                ip.throw(st, mkobj('common::SyntaxError'))
                return []
            return [(st, mkobj('probe::Mandatory', ('new', 'probe::Mandatory', x), ()))]
        for k, tree in parents():
            want = kids(tree)
            good = len(want) >= lo and (hi is None or len(want) <= hi)
            ip, rets, throws = c.run(fn, tree, [SCOPE], hooks=[(r'^<construct>probe::Mandatory$', ctor)])
            got = [[x[2][2] for x in v[1]] for s, v in rets if v[0] == 'list']
            if (got != [want] or throws) if good else (rets or not all(is_syntax_error(prog, x) for _, x in throws)):
                ok = False
                rep.bad('C08:groups:skip', 'reading a group of %s to %s elements from %d members among %d elements yields %s' % (lo, hi, len(want), len(kids(tree, None)), got or 'a syntax error'), where)
    if ok:
        rep.ok('groups skip other elements', where)


def single(rep, prog, c):
    where = OSI + 'include/openscenario_interpreter/reader/element.hpp'
    for name, extra in (('optional', ()), ('mandatory', ()), ('optionalX', ()), ('mandatoryX', ()), ('optionalD', ()), ('mandatoryD', ())):
        fn = prog.one('probe::' + name)
        t = 'probe::' + name[:-1 if name[-1] in 'XD' else None].capitalize()
        given = mkobj(t, ('given',), ())
        ok = True
        for n, tree in parents():
            k = kids(tree)
            ip, rets, throws = c.run(fn, tree, [SCOPE] + ([('alias', ('t', 'given'), ())] if name[-1] == 'D' else []), hooks=[])
            if k:
                good = bool(rets) and not throws and all(v[0] == 'obj' and v[1] == t and v[2] and v[2][:3] == ('new', t, k[0]) and (name[-1] != 'X' or v[2][-1] == I(42)) for s, v in rets)
                if not good:
                    ok = False
                    rep.bad('C08:%s:present' % name, 'an element which is present is not built from its first occurrence (%s)' % name, where)
            elif name[-1] == 'D':
                if throws or not rets or any(v[0] == 'obj' and v[2] and v[2][0] == 'new' for s, v in rets):
                    ok = False
                    rep.bad('C08:%s:default' % name, 'an absent element does not yield the given default value', where)
            elif name.startswith('optional'):
                if throws or not rets or any(v[0] != 'obj' or v[2] not in (None, ('new', t)) for s, v in rets):
                    ok = False
                    rep.bad('C08:%s:absent' % name, 'an absent optional element is not default constructed', where)
            elif rets or not throws or not all(is_syntax_error(prog, x) for _, x in throws):
                ok = False
                rep.bad('C08:%s:absent' % name, 'an absent mandatory element is not rejected with a syntax error', where)
        if ok:
            rep.ok('single element: ' + name, where)


def attributes(rep, prog, c):
    where = OSI + 'include/openscenario_interpreter/reader/attribute.hpp'
    D = 'openscenario_interpreter::Double'
    texts = ['12', 'word', 'x$', '$x', '$long_name', '${1 + 2}', '${$a}', '$x}', '${x', '{x}', 'two words', '']
    for kind, t in itertools.product(('', 'D', 'O'), ('Double', 'String')):
        fn = prog.one('probe::attribute%s_%s' % (kind, t))
        ok = True

        def bad(what, text):
            nonlocal ok
            ok = False
            rep.bad('C08:attribute%s:%s:%s' % (kind, t, what), text, where)
        given = ('term', 'given')
        # absent
        for tree in (('P', {}, []), ('P', {'attribute': '1', 'Attr': '2'}, [('C', {'attr': '3'}, [])])):
            ip, rets, throws = c.run(fn, tree, [SCOPE] + ([given] if kind == 'D' else []))
            if kind == '' and (rets or not throws or not all(is_syntax_error(prog, x) for _, x in throws)):
                bad('absent', 'an absent required attribute is not rejected with a syntax error')
            if kind and (throws or not rets or any(v != (given if kind == 'D' else ('none',)) for s, v in rets)):
                bad('absent', 'an absent attribute does not yield its default value (%s)' % [v for s, v in rets])
        for text in texts:
            ip, rets, throws = c.run(fn, ('P', {'other': '0', 'attr': text}, []), [SCOPE] + ([given] if kind == 'D' else []))
            ref = ('call', 'ref', Sx(text[1:]))
            if text.startswith('${') and text.endswith('}'):
                src, mode = ('call', 'evaluate', Sx(text[2:-1])), 'the value of the expression'
            elif text.startswith('$'):
                src, mode = ('tostr', ref), 'the value of the referenced parameter'
            else:
                src, mode = Sx(text), 'the literal value'
            if text == '':
                want = [mkobj(D, None, ()), ('obj', D, ('new', D), ())] if t == 'Double' else [Sx('')]
            elif t == 'Double':
                want = [('lexed', D, src)]
            else:
                want = [src] if src[0] != 'call' else [('tostr', src), src]
            if kind == 'O':
                want = [('some', w) for w in want]
            if not rets or any(v not in want for s, v in rets):
                bad('value', 'attribute text "%s" is not read as %s but as %s' % (text, mode, sorted({str(v)[:120] for s, v in rets})))
            for s, v in rets:
                if src == ('tostr', ref) and text and s.facts.get(('nonnull', ref)) == FALSE:
                    bad('unresolved', 'a reference to an undeclared parameter yields a value')
                if t == 'Double' and text and s.facts.get(('lexable', D, src)) == FALSE:
                    bad('malformed', 'a malformed value is accepted')
            for s, x in throws:
                if s.facts.get(('lexable', D, src)) == FALSE:
                    if src[0] == 's' and not is_syntax_error(prog, x):
                        bad('malformed', 'a malformed literal is rejected with %s' % x[1])
                elif src == ('tostr', ref) and s.facts.get(('nonnull', ref)) == FALSE:
                    if not is_syntax_error(prog, x):
                        bad('unresolved', 'a reference to an undeclared parameter is rejected with %s' % x[1])
                else:
                    bad('rejects', 'attribute text "%s" is rejected without reason' % text)
        if ok:
            rep.ok('attribute%s of type %s' % (kind, t), where)


def choices(rep, prog, c):
    fn = prog.one('openscenario_interpreter::choice')
    ok = True
    for names in (['A'], ['A', 'B'], ['A', 'B', 'C']):
        table = ('list', tuple(mkobj('std::pair', None, {'std::pair::first': Sx(n), 'std::pair::second': ('fn', '', '$' + n)}) for n in names))
        for ch in itertools.chain.from_iterable(itertools.product(['A', 'B', 'C', 'X'], repeat=k) for k in range(4)):
            tree = ('P', {}, [(n, {}, []) for n in ch])
            present = [n for n in names if n in ch]
            ip, rets, throws = c.run(fn, tree, [table])
            if len(present) == 1:
                want = (('chosen', present[0], kids(tree, present[0])[0]),)
                for s, v in rets:
                    if tuple(t for t in s.g('trace', ()) if t[0] == 'chosen') != want or v != ('call', 'built', Sx(present[0])):
                        ok = False
                        rep.bad('C08:choice:alternative', 'choosing among %s from children %s builds %s' % (names, list(ch), [t[1:] for t in s.g('trace', ())]), fn.where)
                if throws or not rets:
                    ok = False
                    rep.bad('C08:choice:rejects', 'choosing among %s from children %s is rejected' % (names, list(ch)), fn.where)
            elif rets or not throws or not all(is_syntax_error(prog, x) and not [t for t in s.g('trace', ()) if t[0] == 'chosen'] for s, x in throws):
                ok = False
                rep.bad('C08:choice:accepts', 'choosing among %s from children %s is not rejected with a syntax error' % (names, list(ch)), fn.where)
    if ok:
        rep.ok('choice of one alternative', fn.where)


def run(rep):
    rep.rule = 'abstract interpretation of the reader primitives over all small documents (0 to 4 children, every arrangement of alternatives) and every shape of attribute text; parameter lookup, expression evaluation and lexical conversion are opaque'
    prog = load([OSI + 'src/reader/attribute.cpp', OSI + 'src/reader/element.cpp'], probes=['reader.cpp'])
    c = Case(rep, prog)
    cardinality(rep, prog, c)
    single(rep, prog, c)
    attributes(rep, prog, c)
    choices(rep, prog, c)
