"""The JUnit report contains every recorded verdict exactly once, with consistent totals."""
import itertools
from ..facts import load
from ..absint import Interp, State, mkobj, TRUE, FALSE, VOID, NIL, of_get, strip_type, I, Sx
from .. import models, pugi

REP = ('o', 'report')
PROBE = 'junit.cpp'
SRC = 'common/simple_junit/src/test_suites.cpp'


def rec(prog, name, ns='common'):
    for k in prog.records:
        if k.split('::')[-1] == name and k.split('::')[0] == ns:
            return k
    return None


def F(prog, cls, name):
    for f in prog.records[cls]['f']:
        if f['q'].split('::')[-1] == name:
            return f['q']
    return None


class Names:
    def __init__(self, rep, prog):
        self.suites, self.suite, self.case = rec(prog, 'SimpleTestSuites'), rec(prog, 'SimpleTestSuite'), rec(prog, 'SimpleTestCase')
        self.failure, self.error, self.passed = rec(prog, 'Failure'), rec(prog, 'Error'), rec(prog, 'Pass')
        for k in list(prog.records):
            if k.split('::')[-1] == 'Error' and 'junit' in k:
                self.error = k
        rep.need(self.suites and self.suite and self.case, 'report classes vanished')
        self.f = {}
        for c in (self.suites, self.suite, self.case):
            for f in prog.records[c]['f']:
                self.f[(c, f['q'].split('::')[-1])] = f['q']


def verdict(prog, cls, kind, msg):
    o = {}
    for f in prog.records[cls]['f'] if cls in prog.records else ():
        o[f['q']] = {'type': kind, 'message': msg}.get(f['q'].split('::')[-1], Sx(''))
    return mkobj(cls, None, o)


def case(prog, n, name, np, nf, ne, extra=None, empty=()):
    tag = name[1] if name[0] == 's' else 'x'
    def mk(cls, what, i):
        return verdict(prog, cls, Sx('') if 'type' in empty else Sx('%s-type-%s-%d' % (what, tag, i)), Sx('') if 'message' in empty else Sx('%s-message-%s-%d' % (what, tag, i)))
    o = {n.f[(n.case, 'name')]: name,
         n.f[(n.case, 'pass')]: ('list', tuple(mkobj('common::junit::Pass', None, ()) for i in range(np))),
         n.f[(n.case, 'failure')]: ('list', tuple(mk(n.failure or 'common::junit::Failure', 'failure', i) for i in range(nf))),
         n.f[(n.case, 'error')]: ('list', tuple(mk(n.error or 'common::junit::Error', 'error', i) for i in range(ne)))}
    for a in ('assertions', 'time', 'classname', 'status', 'skipped'):
        if (n.case, a) in n.f:
            o[n.f[(n.case, a)]] = Sx((extra or {}).get(a, ''))
    for a in ('system_out', 'system_err'):
        if (n.case, a) in n.f:
            o[n.f[(n.case, a)]] = ('list', ())
    return mkobj(n.case, None, o)


def suite(n, name, cases):
    return mkobj(n.suite, None, {n.f[(n.suite, 'name')]: name, '<c>': ('list', tuple(models.PAIR(k, v) for k, v in cases))})


def report(n, name, suites):
    return mkobj(n.suites, None, {n.f[(n.suites, 'name')]: name, '<c>': ('list', tuple(models.PAIR(k, v) for k, v in suites))})


def expected(n, o):
    """document required for a report, in the canonical form of pugi.tree"""
    def attrs(d):
        return tuple(sorted(d.items(), key=repr))

    def kids(l):
        return tuple(sorted(l, key=repr))
    tot = [0, 0, 0]
    ss = []
    for p in of_get(o, '<c>')[1]:
        so = of_get(p, 'std::pair::second')
        st = [0, 0, 0]
        cs = []
        for p2 in of_get(so, '<c>')[1]:
            co = of_get(p2, 'std::pair::second')
            ch = []
            for i, (cat, el) in enumerate((('pass', None), ('failure', 'failure'), ('error', 'error'))):
                l = of_get(co, n.f[(n.case, cat)])[1]
                st[i] += len(l)
                if el:
                    for x in l:
                        d = {k.split('::')[-1]: v for k, v in x[3]}
                        ch.append((el, attrs({k: v for k, v in d.items() if v != Sx('')}), ()))
            a = {'name': of_get(co, n.f[(n.case, 'name')])}
            for x in ('assertions', 'time', 'classname', 'status'):
                if (n.case, x) in n.f and of_get(co, n.f[(n.case, x)]) != Sx(''):
                    a[x] = of_get(co, n.f[(n.case, x)])
            cs.append(('testcase', attrs(a), kids(ch)))
        tot = [x + y for x, y in zip(tot, st)]
        ss.append(('testsuite', attrs({'name': of_get(so, n.f[(n.suite, 'name')]), 'failures': I(st[1]), 'errors': I(st[2]), 'tests': I(sum(st))}), kids(cs)))
    a = {'failures': I(tot[1]), 'errors': I(tot[2]), 'tests': I(sum(tot))}
    if of_get(o, n.f[(n.suites, 'name')]) != Sx(''):
        a['name'] = of_get(o, n.f[(n.suites, 'name')])
    return ('#document', (), (('testsuites', attrs(a), kids(ss)),))


def diff(got, want, path=''):
    """first difference in words"""
    p = path + '/' + want[0]
    if got[0] != want[0]:
        return '%s is written as %s' % (p, got[0])
    g, w = dict(got[1]), dict(want[1])
    for k in sorted(set(g) | set(w)):
        if g.get(k) != w.get(k):
            return 'attribute %s of %s is %s instead of %s' % (k, p, show(g.get(k)), show(w.get(k)))
    if len(got[2]) != len(want[2]):
        names = lambda l: sorted(x[0] for x in l)
        return '%s has the elements %s instead of %s' % (p, names(got[2]), names(want[2]))
    for x, y in zip(got[2], want[2]):
        if x != y:
            return diff(x, y, p)
    return None


def show(v):
    if v is None:
        return 'absent'
    return repr(v[1]) if v[0] in ('s', 'i') else str(v)[:60]


def documents(prog, n):
    S = Sx
    yield 'an empty report', report(n, S(''), ())
    yield 'a suite without cases', report(n, S('all'), ((S('a'), suite(n, S('a'), ())),))
    for np, nf, ne in itertools.product((0, 1, 2), repeat=3):
        yield 'a case with %d passes, %d failures and %d errors' % (np, nf, ne), report(n, S(''), ((S('a'), suite(n, S('a'), ((S('c'), case(prog, n, S('c'), np, nf, ne)),))),))
    yield 'several suites', report(n, S('all'), (
        (S('a'), suite(n, S('a'), ((S('c'), case(prog, n, S('c'), 1, 2, 3)), (S('d'), case(prog, n, S('d'), 4, 0, 1))))),
        (S('b'), suite(n, S('b'), ((S('c'), case(prog, n, S('c'), 2, 1, 0)), (S('e'), case(prog, n, S('e'), 0, 1, 2))))),
        (S('z'), suite(n, S('z'), ())), (S('y'), suite(n, S('y'), ((S('f'), case(prog, n, S('f'), 1, 0, 0)),)))))
    yield 'a case with optional attributes', report(n, S(''), ((S('a'), suite(n, S('a'), ((S('c'), case(prog, n, S('c'), 1, 1, 1, dict(assertions='as', time='ti', classname='cl', status='st'))),))),))
    yield 'verdicts without a message', report(n, S(''), ((S('a'), suite(n, S('a'), ((S('c'), case(prog, n, S('c'), 0, 1, 1, empty=('message',))),))),))
    yield 'verdicts without a type', report(n, S(''), ((S('a'), suite(n, S('a'), ((S('c'), case(prog, n, S('c'), 0, 1, 1, empty=('type',))),))),))


def writer(rep, prog, n):
    fn = prog.one('probe::write')
    for label, obj in documents(prog, n):
        ip = Interp(prog, hooks=list(pugi.HOOKS))
        rets, throws = ip.run(fn, State({REP: obj}), None, [('alias', REP, ()), ('term', 'path')])
        rep.analysed(ip)
        rep.count('documents')
        want = expected(n, obj)
        ok = len(rets) >= 1 and not throws
        if throws:
            rep.bad('C06:throws', 'writing %s ends with an exception' % label, fn.where)
        for s, v in rets:
            sv = s.g('saved', ())
            if len(sv) != 1 or sv[0][0][0] != ('term', 'path'):
                ok = False
                rep.bad('C06:saved', 'writing %s does not save one document at the given path' % label, fn.where)
            elif sv[0][1] != want:
                ok = False
                d = diff(sv[0][1], want)
                rep.bad('C06:%s' % d.split(' is ')[0], '%s: %s' % (label, d), fn.where)
        if ok:
            rep.ok('%s' % label, fn.where)


def lookup(rep, prog, n):
    """testsuite(name) / testcase(name): found, or created once with that name; the others stay"""
    for which, cls, mk in (('suite', n.suites, lambda k: suite(n, k, ((Sx('c'), case(prog, n, Sx('c'), 1, 0, 0)),))), ('testcase', n.suite, lambda k: case(prog, n, k, 1, 1, 1))):
        fn = prog.one('probe::' + which)
        inner = n.suite if which == 'suite' else n.case
        nameq = n.f[(inner, 'name')]
        for count in range(0, 3):
            keys = [('term', 'k%d' % i) for i in range(count)]
            entries = tuple(models.PAIR(k, mk(k)) for k in keys)
            obj = mkobj(cls, None, {n.f[(cls, 'name')]: Sx('all'), '<c>': ('list', entries)})
            st = State({REP: obj})
            for i in range(count):
                for j in range(i):
                    st = st.fact(('rel',) + tuple(sorted((keys[i], keys[j]), key=repr)), frozenset('<>'))
            got = []
            ip = Interp(prog, hooks=[(r'::(testsuite|testcase)$', lambda ip, st, e, o, a, f: None)])
            save = ip.call_on

            def spy(e, f, s, o, save=save, ip=ip):
                r = save(e, f, s, o)
                if f['n'].split('::')[-1] in ('testsuite', 'testcase') and o is not None:
                    r = [(s2.gset(got=v), v) for s2, v in r]
                return r
            ip.call_on = spy
            rets, throws = ip.run(fn, st, None, [('alias', REP, ()), ('term', 'name')])
            rep.analysed(ip)
            rep.count('paths', len(rets))
            ok = not throws
            if throws:
                rep.bad('C06:%s:throws' % which, 'looking up a %s ends with an exception' % which, fn.where)
            hits = set()
            for s, v in rets:
                fin = of_get(ip.load(s, ('alias', REP, ())), '<c>')
                rep.need(fin is not None and fin[0] == 'list', 'contents of the report cannot be determined')
                hit = [i for i in range(count) if known_eq(s, keys[i], ('term', 'name'))]
                hits.add(hit[0] if hit else None)
                a = s.g('got')
                obj2 = ip.load(s, a) if a else None
                if tuple(fin[1][:count]) != entries or len(fin[1]) != count + (0 if hit else 1):
                    ok = False
                    rep.bad('C06:%s:entries' % which, 'looking up %s %s leaves %d entries instead of %d, or changes them' % ('an existing' if hit else 'a new', which, len(fin[1]), count + (0 if hit else 1)), fn.where)
                    continue
                i = hit[0] if hit else count
                e = of_get(fin[1][i], 'std::pair::second')
                if not a or a[0] != 'alias' or not (a[1] == REP and ('ix', i) in a[2]):
                    ok = False
                    rep.bad('C06:%s:reference' % which, 'looking up a %s does not give access to its entry' % which, fn.where)
                if not hit and (models.pair_key(fin[1][i]) != ('term', 'name') or of_get(e, nameq) != ('term', 'name')):
                    ok = False
                    rep.bad('C06:%s:name' % which, 'a new %s does not get the requested name' % which, fn.where)
            if len(hits) != count + 1:
                ok = False
                rep.bad('C06:%s:cases' % which, 'looking up a %s does not distinguish existing from new names' % which, fn.where)
            if ok:
                rep.ok('%s lookup among %d' % (which, count), fn.where)


def known_eq(s, a, b):
    x, y = (a, b) if repr(a) <= repr(b) else (b, a)
    return s.facts.get(('rel', x, y)) == frozenset('=')


# ------------------------------------------------------------------ the older exporter
def legacy(rep, prog):
    cls = 'junit::TestSuites'
    rep.need(cls in prog.records, 'test suite exporter vanished')
    fmap = F(prog, cls, 'test_suites_')
    tc = 'junit::TestCase'
    rep.need(fmap and tc in prog.records, 'test suite exporter vanished')
    fields = {f['q'].split('::')[-1]: f['q'] for f in prog.records[tc]['f']}
    enum = prog.enums['junit::TestResult']['e']
    vals = {x[0]: I(x[1]) for x in enum}

    def mkcase(name, st, time, res):
        return mkobj(tc, None, {fields['name']: name, fields['classname']: st, fields['time']: ('f', time), fields['result']: vals[res], fields['type']: Sx('untyped'), fields['description']: Sx('text')})

    def obj(suites):
        return mkobj(cls, ('suites',), {fmap: ('list', tuple(models.PAIR(k, ('list', tuple(v))) for k, v in suites))})
    # adding: once per (suite, case)
    fn = prog.one('probe::legacy')
    k, c = ('term', 'suite0'), ('term', 'case0')
    ip = Interp(prog)
    rets, throws = ip.run(fn, State({REP: obj([(k, [mkcase(c, k, 0.25, 'SUCCESS')])])}), None, [('alias', REP, ()), ('term', 'suite'), ('term', 'case')])
    rep.analysed(ip)
    ok = not throws
    for s, v in rets:
        fin = of_get(ip.load(s, ('alias', REP, ())), fmap)
        rep.need(fin[0] == 'list', 'contents of the exporter cannot be determined')
        ss, sc = known_eq(s, k, ('term', 'suite')), known_eq(s, c, ('term', 'case'))
        shape = [len(of_get(p, 'std::pair::second')[1]) for p in fin[1]]
        want = [1] if ss and sc else [2] if ss else [1, 1]
        if shape != want:
            ok = False
            rep.bad('C06:exporter:add', 'adding %s test case to %s suite leaves cases %s instead of %s' % ('the same' if sc else 'a new', 'the same' if ss else 'a new', shape, want), fn.where)
        elif not (ss and sc):
            x = of_get(fin[1][-1], 'std::pair::second')[1][-1]
            d = {q.split('::')[-1]: v2 for q, v2 in x[3]} if x[0] == 'obj' else {}
            if d.get('name') != ('term', 'case') or d.get('classname') != ('term', 'suite') or d.get('result') != vals['SUCCESS'] or d.get('time') != ('f', 0.5):
                ok = False
                rep.bad('C06:exporter:case', 'an added test case does not keep its name, suite, time and result', fn.where)
    if ok:
        rep.ok('test cases are added once', fn.where)
    # writing
    fn = prog.one('junit::TestSuites::write')
    A, B = Sx('a'), Sx('b')
    data = [(A, [mkcase(Sx('x'), A, 1.5, 'SUCCESS'), mkcase(Sx('y'), A, 1.75, 'FAILURE')]), (B, [mkcase(Sx('x'), B, 2.5, 'ERROR')])]
    ip = Interp(prog, hooks=list(pugi.HOOKS) + [(r'filesystem::(exists|remove)$', lambda ip, st, e, o, a, f: [(st, TRUE), (st, FALSE)])])
    rets, throws = ip.run(fn, State({REP: obj(data)}), ('ptr', REP, ()), [('term', 'path')])
    rep.analysed(ip)
    ok = not throws and bool(rets)
    for s, v in rets:
        sv = s.g('saved', ())
        if len(sv) != 1 or len(sv[0][1][2]) != 1:
            ok = False
            rep.bad('C06:exporter:saved', 'the exporter does not save one document', fn.where)
            continue
        root = sv[0][1][2][0]
        at = dict(root[1])
        if at.get('time') != ('f', 5.75):
            ok = False
            rep.bad('C06:exporter:time:%s' % show2(at.get('time')), 'the total time of suites with cases taking 1.5 + 1.75 and 2.5 is written as %s' % show2(at.get('time')), 'common/simple_junit/include/simple_junit/test_suites.hpp (junit::TestSuites::getTotalTime)')
        got = sorted((dict(x[1]).get('name'), dict(x[1]).get('tests'), sorted((dict(y[1]).get('name'), dict(y[1]).get('classname'), dict(y[1]).get('time'), [z[0] for z in y[2]]) for y in x[2])) for x in root[2])
        want = sorted((kk, I(len(cs)), sorted((of_get(x, fields['name']), kk, of_get(x, fields['time']), [] if of_get(x, fields['result']) == vals['SUCCESS'] else ['failure'] if of_get(x, fields['result']) == vals['FAILURE'] else ['error']) for x in cs)) for kk, cs in data)
        if got != want:
            ok = False
            rep.bad('C06:exporter:cases', 'the exported cases are %s' % str(got)[:300], fn.where)
    if ok:
        rep.ok('exporter document', fn.where)


def show2(v):
    return v[1] if v and v[0] in ('i', 'f') else str(v)[:80]


def run(rep):
    rep.rule = 'abstract interpretation of the report writer over report shapes with every combination of verdict counts; the document built must be the required one; look-ups interpreted over unknown names'
    prog = load([SRC], probes=[PROBE])
    n = Names(rep, prog)
    writer(rep, prog, n)
    lookup(rep, prog, n)
    legacy(rep, prog)
