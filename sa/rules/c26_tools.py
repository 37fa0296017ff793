"""The tools that everything else is built of: comparisons of numbers, rings, splitting, cycles of a graph, timing, compatibility."""
import itertools
import re
from .. import algebra                                      # it finds sympy
from ..facts import load
from ..absint import Interp, State, Sx, I, TRUE, FALSE, NIL, VOID, mkobj
from ..json import JSON, members
from .c21_geometry import Check, S, sym
from .c24_text import shown, say
from .c04_enum_text import interp as stream_interp

OSI = 'openscenario/openscenario_interpreter/'
INC = OSI + 'include/openscenario_interpreter/'
CMP, RING, SIZE, SPLIT, CONTENT = 'common/math/arithmetic/include/arithmetic/floating_point/comparison.hpp', INC + 'iterator/circular_iterator.hpp', INC + 'iterator/size.hpp', INC + 'string/split.hpp', INC + 'reader/content.hpp'
CYCLE, TIMER, COMPAT = INC + 'utility/circular_check.hpp', INC + 'utility/execution_timer.hpp', OSI + 'src/compatibility.cpp'
A, B, C, X = (('t', x) for x in ('a', 'b', 'c', 'xs'))


class Tools(Check):
    def __init__(self, rep, prog):
        super().__init__(rep, prog, 'C26')

    def go(self, fn, st=None, vals=(), hooks=(), opaque=(), this=None):
        ip = Interp(self.prog, hooks=list(hooks) + JSON, opaque=list(opaque))
        ip.MAXREC = 8
        rets, throws = ip.run(self.prog.one(fn) if isinstance(fn, str) else fn, st or State(), this, list(vals))
        self.rep.analysed(ip)
        self.rep.count('paths', len(rets) + len(throws))
        return ip, rets, throws

    def flat(self, fn, vals):
        """the paths of a predicate, each of which knows its answer"""
        ip, rets, throws = self.go('probe::' + fn, None, vals)
        return [(s2.facts, (('b', b),)) for s, v in rets for s2, b in ip.truth(s, ip.load(s, v))] + [(s.facts, 'an error') for s, x in throws]


def run(rep):
    rep.rule = ('abstract interpretation of each tool, instantiated by a probe: over unknown numbers at, below and above the tolerance; over unknown texts; over every position of a ring and every graph of three nodes; '
                'the answer of each path is compared with the definition')
    prog = load([COMPAT], probes=['tools.cpp'])
    t = Tools(rep, prog)
    numbers(rep, t)
    rings(rep, t)
    texts(rep, t)
    cycles(rep, t)
    timing(rep, t)
    compatibility(rep, t)
    rep.count('identities that hold as normal forms', t.verdict.proved)
    rep.count('identities compared at generic points', t.verdict.compared)


def numbers(rep, t):
    from sympy import Symbol, Integer, Rational
    k, m = Symbol('k', positive=True), Symbol('m', positive=True)
    a, b, c = sym('a'), sym('b'), sym('c')
    low, high, big = {k: (Rational(1, 64), Rational(63, 64)), m: (10 ** 9, 10 ** 10)}, {k: (Rational(3, 2), 50), m: (10 ** 9, 10 ** 10)}, {k: (Rational(1, 8), 1), m: (10 ** 9, 10 ** 10)}
    for f, n, e in (('approximately', 'two doubles are approximately equal', Rational(1, 2 ** 52)), ('approximatelyF', 'two floats are approximately equal', Rational(1, 2 ** 23)), ('essentially', 'two doubles are essentially equal', Rational(1, 2 ** 52))):
        paths = t.flat(f, [a, b])
        q = lambda what, x, y, want, dom: [t('compare', '%s: %s' % (n, what), CMP, paths, {a: u, b: v}, (want,), dom) for u, v in ((x, y), (y, x), (-x, -y), (-y, -x))]
        q('the same number', m, m, True, low)
        q('closer than epsilon', m, m * (1 + k * e), True, low)
        q('further apart than epsilon', m, m * (1 + k * e), False, high)
        q('as far apart as epsilon of the %s of them' % ('smaller' if f == 'essentially' else 'larger'), *((m, m * (1 + e)) if f == 'essentially' else (m, m * (1 - e))), True, low)
        if f == 'essentially':
            q('as far apart as epsilon of the larger of them', m, m * (1 - e), False, low)
        q('of opposite sign', m, -m * k, False, big)
        q('zero and another', Integer(0), m, False, big)
        q('zero and zero', Integer(0), Integer(0), True, big)
    e = Rational(1, 2 ** 52)
    cases = [('well below', m, m * (1 + k), big, '<'), ('below by more than epsilon', m, m * (1 + k * e), high, '<'), ('below by less than epsilon', m, m * (1 + k * e), low, '='),
             ('below by just epsilon of the larger', m * (1 - e), m, low, '='), ('equal to', m, m, low, '='), ('below, of opposite sign', -m * k, m, big, '<'), ('zero and below', Integer(0), m, big, '<')]
    for f, n, side in (('less2', 'a double is definitely less than another', '<'), ('greater', 'a double is definitely greater than another', '>')):
        paths = t.flat(f, [a, b])
        for what, x, y, dom, r in cases:
            for u, v, turned in ((x, y, False), (y, x, True), (-y, -x, False), (-x, -y, True)):
                is_ = r if not turned else '>' if r == '<' else r
                t('order', '%s, where it is %s it%s' % (n, what, ', the other way round' if turned else ''), CMP, paths, {a: u, b: v}, (is_ == side,), dom)
    paths = t.flat('less3', [a, b, c])
    l, r = Symbol('l', positive=True), Symbol('r', positive=True)
    dom = {l: (Rational(1, 8), 2), r: (Rational(1, 8), 2), m: (1, 2)}
    for what, y, z, want in (('increase', m + l, m + l + r, True), ('increase but for the last', m + l + r, m + l, False), ('increase but for the last two, which are equal', m + l, m + l, False),
                             ('increase but for the first', m - l, m + r, False), ('increase but for the first two, which are equal', m, m + r, False), ('decrease', m - l, m - l - r, False),
                             ('rise above the first and fall below it', m + l, m - r, False)):
        t('order', 'whether three doubles increase: they %s' % what, CMP, paths, {a: m, b: y, c: z}, (want,), dom)
    prog = load([], probes=['increase.cpp'])
    many = Tools(rep, prog)
    errors = [e for e in prog.errors if 'comparison.hpp' in e]
    rep.require(not errors, 'C26:order', 'whether four doubles increase cannot be asked: it does not compile (%s)' % '; '.join(errors)[:300], CMP)
    if errors:
        return
    paths = many.flat('less4', [a, b, c, sym('d')])
    for what, y, z, w, want in (('increase', m + l, m + l + r, m + l + r + 1, True), ('increase but for the last', m + l, m + l + r, m + l, False), ('increase but for the middle', m + l, m, m + l + r, False),
                                ('increase but for the first', m - l, m + r, m + l + r, False), ('increase but for the last two, which are equal', m + l, m + l + r, m + l + r, False)):
        t('order', 'whether four doubles increase: they %s' % what, CMP, paths, {a: m, b: y, c: z, sym('d'): w}, (want,), dom)


def rings(rep, t):
    for n in (0, 1, 2, 3):
        xs = ('list', tuple(sym('x%d' % i) for i in range(n)))
        st = State().put(X, xs)
        here = lambda i: ('iter', (X, ()), i)
        at = ('alias', X, ())
        ip, rets, throws = t.go('probe::sizeOf', st, [at])
        got = {ip.load(s, v) for s, v in rets}
        rep.require(got == {I(n)} and not throws, 'C26:size', 'the size of a range of %d is %s' % (n, got), SIZE)
        for i in range(n):
            nxt = xs[1][(i + 1) % n]
            for f, what, want in (('ringAt', 'the element that it is at', xs[1][i]), ('ringNext', 'the next element', nxt), ('ringAfter', 'the element after a step', nxt), ('ringBefore', 'what a step from it returns', xs[1][i])):
                value(rep, t, f, st, [at, here(i)], want, 'a ring of %d at %d: %s' % (n, i, what), 'ring', RING)
            for j in range(n):
                value(rep, t, 'ringSet', st, [at, here(i), here(j)], xs[1][j], 'a ring of %d moved from %d to %d' % (n, i, j), 'ring', RING)
            value(rep, t, 'ringIs', st, [at, here(i)], TRUE, 'a ring of %d as an iterator at %d' % (n, i), 'ring', RING)
        if n:
            value(rep, t, 'ringNext', st, [at, here(n)], xs[1][0], 'the next element of a ring of %d that is at its end' % n, 'ring', RING)


def value(rep, t, fn, st, vals, want, what, id, where, **k):
    ip, rets, throws = t.go('probe::' + fn, st, vals, **k)
    got = list(dict.fromkeys(ip.load(s, v) for s, v in rets))
    rep.require(not throws and got == [want], 'C26:' + id, '%s: it is %s, not %s' % (what, 'an error' if throws else ' or '.join(map(say, got)) or 'nothing', say(want)), where)


def texts(rep, t):
    """the pieces of a text are those between single white spaces; a content is trimmed and then read"""
    rec = {}

    def split(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            spaces = ip.load(s, vs[2])
            r = ip.load(s, vs[1])
            out.append((ip.store(s, (vs[0][1], vs[0][2]), ('call', 'split', r, spaces, I(1) if len(vs) > 3 and ip.load(s, vs[3]) != I(1) else I(0))), vs[0]))
        return out
    pure = lambda n: (lambda ip, st, e, o, args, f: [(s, ('call', n) + tuple(ip.load(s, v) for v in vs)) for s, vs in ip.args(args, f, st)])
    H = [(r'^boost::(algorithm::)?split$', split), (r'^boost::(algorithm::)?is_space$', pure('spaces')), (r'^boost::(algorithm::)?is_any_of$', pure('any')), (r'^boost::algorithm::trim_copy$', pure('trimmed')),
         (r'^boost::(algorithm::)?trim$', trim), (r'lexical_cast$', lambda ip, st, e, o, args, f: [(s, ('call', 'read as ' + f['rt'], ip.load(s, vs[0]))) for s, vs in ip.args(args, f, st)]),
         (r'^probe::Node::text$', lambda ip, st, e, o, args, f: [(st, mkobj('probe::Text'))]), (r'^probe::Text::get$', lambda ip, st, e, o, args, f: [(st, sym('content'))])]
    ip, rets, throws = t.go('probe::split', State().put(A, sym('text')), [('alias', A, ())], hooks=H)
    got = [ip.load(s, v) for s, v in rets]
    ok = not throws and got and all(g[:2] == ('call', 'split') and g[2] == sym('text') and g[3][:2] == ('call', 'spaces') and g[4] == I(0) for g in got)
    rep.require(ok, 'C26:split', 'the pieces of a text are %s' % [say(g) for g in got], SPLIT)
    node, scope = State().put(A, mkobj('probe::Node')).put(B, mkobj('probe::Scope')), [('alias', A, ()), ('alias', B, ())]
    for fn, ty in (('contentInt', 'int'), ('contentText', 'std::basic_string<char>')):
        ip, rets, throws = t.go('probe::' + fn, node, scope, hooks=H)
        got = [ip.load(s, v) for s, v in rets]
        rep.require(not throws and got and all(g[0] == 'call' and g[1].startswith('read as ' + ty.split('<')[0]) and g[2][:3] == ('call', 'trimmed', sym('content')) for g in got), 'C26:content',
                    'the content of an element, read as %s, is %s' % (ty, [say(g) for g in got]), CONTENT)


def trim(ip, st, e, o, args, f):
    return [(ip.store(s, (vs[0][1], vs[0][2]), ('call', 'trimmed', ip.load(s, vs[0]))), VOID) for s, vs in ip.args(args, f, st)]


def cycles(rep, t):
    """a node reaches a cycle of more than one node, in every graph of three nodes"""
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    for loops in ((), (0,), (0, 1, 2)):
        for k in range(2 ** len(pairs)):
            edges = [p for i, p in enumerate(pairs) if k >> i & 1]
            own = [(i, i) for i in loops]
            edges = own + edges if len(loops) > 1 or k % 2 else edges + own
            rep.count('graphs')
            one(rep, t, edges, 3)
    for edges in ([(0, 1), (0, 2), (1, 3), (2, 3)], [(0, 1), (0, 2), (1, 3), (2, 3), (3, 0)], [(0, 1), (1, 2), (2, 3), (3, 1)], [(0, 1), (2, 3), (3, 2)], [(0, 1), (0, 2), (1, 3), (3, 2), (2, 1)], [(0, 1), (1, 2), (0, 2), (2, 3), (0, 3), (1, 3)]):
        one(rep, t, edges, 4)


def one(rep, t, edges, n):
    def children(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            v = ip.load(s, vs[0])
            out.append((s, ('list', tuple(I(j) for i, j in edges if I(i) == v))))
        return out
    reach, todo = {0}, [0]
    nxt = lambda i: [j for a, j in edges if a == i and j != i]
    while todo:
        for j in nxt(todo.pop()):
            if j not in reach:
                reach.add(j)
                todo.append(j)

    def back(i):
        seen, todo = set(), list(nxt(i))
        while todo:
            j = todo.pop()
            if j == i:
                return True
            if j not in seen:
                seen.add(j)
                todo += nxt(j)
        return False
    want = any(back(i) for i in reach)
    ip, rets, throws = t.go('probe::circular', None, [I(0)], hooks=[(r'^probe::children$', children)])
    got = {b for s, v in rets for _, b in ip.truth(s, ip.load(s, v))}
    rep.require(not throws and got == {want}, 'C26:cycle', 'whether the graph %s has a cycle of more than one node that its first reaches: it is %s' % (edges, sorted(got)), CYCLE)


TAG = sym('tag')
pair = lambda k, v: mkobj('std::pair', None, {'std::pair::first': k, 'std::pair::second': v})


def event(name, value=VOID):
    return lambda ip, st, e, o, args, f: [(s.event(name, *[ip.load(s, v) for v in vs]), value) for s, vs in ip.args(args, f, st)]


def timing(rep, t):
    """work is done once, and how long it took is added to the statistics of its tag, in nanoseconds"""
    def now(ip, st, e, o, args, f):
        k = st.g('clock', 0) + 1
        return [(st.gset(clock=k).event('now'), sym('now%d' % k))]

    def whole(ip, st, e, o, args, f):
        m = re.search(r'std::ratio<1, (\d+)>|std::ratio<1>', f['rt'])
        return [(s, ('call', 'in units of 1/%s s' % (m.group(1) or 1 if m else '?'), ip.load(s, vs[0]))) for s, vs in ip.args(args, f, st)]

    def add(ip, st, e, o, args, f):
        return [(ip.store(s, (o[1], o[2]), ('call', 'added', ip.load(s, o), ip.load(s, vs[0]))), VOID) for s, vs in ip.args(args, f, st)]

    def work(fails):
        def h(ip, st, e, o, args, f):
            s = st.event('work')
            if fails:
                ip.throw(s, mkobj('an error'))
                return []
            return [(s, VOID)]
        return h
    count = lambda ip, st, e, o, args, f: [(st, ip.load(st, o))]
    extract = lambda ip, st, e, o, args, f: [(s, ('call', re.search(r'tag::(?:lazy_)?(\w+)', f['n'] + ' ' + str((o or e.get('o') or {}) if isinstance(o, dict) else '')).group(1) if 'tag::' in f['n'] else '?', ip.load(s, vs[0]))) for s, vs in ip.args(args, f, st)]

    def opened(ip, st, e, o, args, f):
        return [(s.event('open', shown(ip.load(s, vs[0]))), ('stream', ())) for s, vs in ip.args(args, f, st)]

    def dump(ip, st, e, o, args, f):
        return [(st.event('dump', ip.load(st, o)), ('dumped', ip.load(st, o)))]
    H = lambda fails=False: [(r'_clock::now$', now), (r'duration_cast$', whole), (r'duration<.*>::count$', count), (r'accumulator_set<.*>::operator\(\)$', add), (r'accumulator_set<.*>::accumulator_set$', lambda ip, st, e, o, args, f: [(st, sym('nothing'))]),
                             (r'^probe::work$', work(fails)), (r'boost::accumulators::extractor<.*>::operator\(\)$', extract), (r'ofstream<.*>::basic_ofstream$', opened), (r'basic_json<.*>::dump$', dump)]
    TIM = ('t', 'timer')
    for known in ((), (('tag', 'before'),), (('other', 'others'),), (('other', 'others'), ('tag', 'before'))):
        st = State().put(TIM, ('list', tuple(pair(sym(k), sym(v)) for k, v in known))).put(A, TAG)
        for fails in (False, True):
            ip, rets, throws = t.go('probe::timed', st, [('alias', TIM, ()), ('alias', A, ())], hooks=H(fails))
            text = 'timing work of a tag that is %s, besides %d others%s' % ('known' if ('tag', 'before') in known else 'new', len([k for k in known if k[0] != 'tag']), ', which fails' if fails else '')
            ends = throws if fails else rets
            bad = None if ends and not (rets if fails else throws) else 'it %s' % ('does not fail' if fails else 'fails')
            for s, v in ends:
                tr = [x[0] for x in s.g('trace', ()) if x[0] in ('now', 'work')]
                if tr.count('work') != 1:
                    bad = 'it is done %d times' % tr.count('work')
                if fails or bad:
                    continue
                same = s.facts.get(('rel', sym('other'), TAG)) == frozenset('=') or s.facts.get(('rel', TAG, sym('other'))) == frozenset('=')
                if same:
                    continue                                # the other tag is the same one
                c = ip.loadraw(s, (TIM, ()))
                got = {dict(x[3])['std::pair::first'][1]: dict(x[3])['std::pair::second'] for x in c[1]} if c[0] == 'list' else None
                if got is None or set(got) != {'tag'} | {k for k, _ in known}:
                    bad = 'the statistics afterwards are those of %s' % (got and sorted(got))
                    continue
                if 'other' in got and got['other'] != sym('others'):
                    bad = 'the statistics of another tag change'
                w = tr.index('work')
                a, b = 'now%d' % w, 'now%d' % (w + 1)
                took = ('op', '-', sym(b), sym(a))
                x = got['tag']
                if w < 1 or tr[w - 1] != 'now' or tr[w + 1:w + 2] != ['now']:
                    bad = 'the time is not taken just before and after'
                elif x[:2] != ('call', 'added') or x[3] != ('call', 'in units of 1/1000000000 s', took):
                    bad = 'what is added to its statistics is %s' % say(x[3] if x[:2] == ('call', 'added') else x)
                elif x[2] != (sym('before') if ('tag', 'before') in known else x[2]) or (('tag', 'before') not in known and x[2][:2] == ('call', 'added')):
                    bad = 'its statistics are made anew'
                elif ip.load(s, v) != took:
                    bad = 'it is said to have taken %s' % say(ip.load(s, v))
            rep.require(not bad, 'C26:timer', '%s: %s' % (text, bad), TIMER)
    for known in ((), (('tag', 'x'),), (('one', 'x'), ('two', 'y'))):
        st = State().put(TIM, ('list', tuple(pair(sym(k), sym(v)) for k, v in known))).put(A, sym('path'))
        ip, rets, throws = t.go('probe::saved', st, [('alias', TIM, ()), ('alias', A, ())], hooks=H())
        bad = None if rets and not throws else 'it fails'
        for s, v in rets:
            tr = s.g('trace', ())
            docs = [x[1] for x in tr if x[0] == 'dump']
            if len(docs) != 1 or ('open', (sym('path'),)) not in tr:
                bad = 'it is not written once, to the file'
                continue
            got = keyed(docs[0])
            if got is None:
                bad = 'the document is %s' % say(docs[0])
                continue
            want = {}
            for k, v in known:
                for n in ('min', 'max', 'mean', 'stddev', 'count'):
                    want[(sym(k), '/' + n)] = n, sym(v)
            if set(got) != set(want):
                bad = 'its keys are %s' % sorted(map(say, got))
                continue
            for k, (n, v) in want.items():
                x = scaled(got[k])
                w = {'stddev': ('call', 'sqrt', ('call', 'variance', v))}.get(n, ('call', n, v)), 1.0 if n == 'count' else 1e-9
                if x[0][:1] == ('call',):
                    x = ('call', x[0][1].split('::')[-1]) + x[0][2:], x[1]
                if x != w:
                    bad = '%s is %s' % (say(k), say(got[k]))
        rep.require(not bad, 'C26:timer', 'the statistics of %d tags that are saved: %s' % (len(known), bad), TIMER)


def keyed(d):
    """{key: value} of a document whose keys are texts made of parts"""
    d = members(d)
    if d is None:
        return {} if d is None else None
    return {(shown(k) if isinstance(k, tuple) else (k,)): v for k, v in d.items()}


def scaled(x):
    """(value, factor)"""
    k = 1.0
    while x[0] in ('cast', 'wrap') or (x[0] == 'op' and x[1] in '*/' and len(x) == 4 and (x[3][0] in 'fi' or x[1] == '*' and x[2][0] in 'fi')):
        if x[0] in ('cast', 'wrap'):
            x = x[-1]
        elif x[3][0] in 'fi':
            k = k * float(x[3][1]) if x[1] == '*' else k / float(x[3][1])
            x = x[2]
        else:
            k *= float(x[2][1])
            x = x[3]
    return x, float('%.12g' % k)


def compatibility(rep, t):
    """the word tells which; no word is the legacy one; any other word is an error that names it"""
    prog = t.prog
    fn = prog.one('openscenario_interpreter::operator>>', pred=lambda f: 'Compatibility' in f.x['p'][1]['t'])
    values = {n: ('i', int(v)) for n, v in prog.enums['openscenario_interpreter::Compatibility']['e']}
    IN, X = ('o', 'in'), ('o', 'x')
    for word in ('legacy', 'standard', '', None, 'no such word'):
        ip = stream_interp(prog)
        st = State({IN: ('stream0',), X: sym('x')})
        rets, throws = ip.run(fn, st, None, [('alias', IN, ()), ('alias', X, ())])
        rep.analysed(ip)
        want = values.get(word or 'legacy')
        seen, bad = False, None

        def is_other(s):
            got = ip.resolve(s, ('text', 0))
            return got[1] if got[0] == 's' else None
        for s, v in rets:
            if is_other(s) != (None if word == 'no such word' else word):
                continue
            if word is None:                    # the paths on which the word is unknown are those of the error
                bad = 'a word that names nothing is taken'
                continue
            seen = True
            if want is None:
                bad = 'it is taken'
            elif ip.load(s, ('alias', X, ())) != want:
                bad = 'it is %s' % say(ip.load(s, ('alias', X, ())))
        for s, v in throws:
            if is_other(s) != (None if word == 'no such word' else word):
                continue
            seen = True
            if want is not None and word is not None:
                bad = 'it fails'
        if word is None:
            rep.require(not bad, 'C26:compatibility', 'reading a compatibility: %s' % bad, fn.where)
            continue
        rep.require(seen and not bad, 'C26:compatibility', 'reading the compatibility `%s`: %s' % (word or 'nothing', bad or 'it is not told apart'), fn.where)
