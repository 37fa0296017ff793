"""Rule comparisons and the literals and arithmetic of the number types."""
from ..facts import load
from ..absint import Interp, State, mkobj, I, Sx, of_get
from .. import osc

NS = 'openscenario_interpreter::'
SYN = 'openscenario/openscenario_interpreter/src/syntax/'
RULE = NS + 'Rule'
LESS, EQUAL, GREATER, NEAR = 'less', 'equal', 'greater', 'equal up to rounding'
WANT = {  # rule -> orderings of (left, right) in which it holds
    'equalTo': {EQUAL}, 'greaterThan': {GREATER}, 'lessThan': {LESS}, 'greaterOrEqual': {GREATER, EQUAL},
    'lessOrEqual': {LESS, EQUAL}, 'notEqualTo': {LESS, GREATER}}
L, R, X = ('t', 'l'), ('t', 'r'), ('t', 'x')


def al(l):
    return ('alias', l, ())


def unwrap(v):
    """the truth value behind a result object"""
    while v[0] == 'obj':
        if v[3]:
            v = v[3][0][1]
        elif v[2] and len(v[2]) >= 3:
            v = v[2][-1]
        else:
            break
    return v


def wrap(prog, t, v):
    r = prog.records.get(NS + t)
    return mkobj(NS + t, None, {r['f'][0]['q']: v}) if r and r.get('f') else v


def samples(t):
    if t in ('double', 'Double', 'valarray'):
        f = lambda x: ('f', x)
        return [(LESS, f(1.0), f(2.0)), (LESS, f(-2.0), f(-1.0)), (GREATER, f(2.0), f(1.0)), (GREATER, f(0.5), f(-0.5)), (EQUAL, f(1.0), f(1.0)), (NEAR, f(0.1 + 0.2), f(0.3))]
    if t == 'Boolean':
        b = lambda x: ('b', x)
        return [(LESS, b(False), b(True)), (GREATER, b(True), b(False)), (EQUAL, b(True), b(True)), (EQUAL, b(False), b(False))]
    if t == 'String':
        return [(LESS, Sx('a'), Sx('b')), (GREATER, Sx('b'), Sx('a')), (EQUAL, Sx('a'), Sx('a'))]
    r = [(LESS, I(1), I(2)), (GREATER, I(2), I(1)), (EQUAL, I(1), I(1))]
    return r + ([(LESS, I(-2), I(1)), (GREATER, I(1), I(-2)), (GREATER, I(-1), I(-2))] if t == 'Integer' else [])


def rules(rep, prog):
    en = prog.enums[RULE + '::value_type']['e']
    field = prog.records[RULE]['f'][0]['q']
    rep.need(set(WANT) == {n for n, _ in en}, 'the enumerators of Rule changed')
    for t in ('double', 'Double', 'Integer', 'UnsignedInteger', 'UnsignedShort', 'Boolean', 'String', 'valarray'):
        fn = prog.one('probe::rule_' + t)
        results = {}
        for n, v in en:
            for order, a, b in samples(t):
                ip = osc.interp(Interp, prog)
                st = State().put(X, mkobj(RULE, None, {field: I(int(v))}))
                rhs = b if t == 'valarray' else wrap(prog, t, b)
                st = st.put(L, wrap(prog, t, a)).put(R, rhs)
                rets, throws = ip.run(fn, st, None, [al(X), al(L), al(R)])
                rep.analysed(ip)
                rep.count('paths', len(rets) + len(throws))
                got = {unwrap(ip.load(s, r)) for s, r in rets}
                where = fn.where
                results.setdefault((a, b), {})[n] = got
                rep.need(all(g[0] == 'b' for g in got), 'the comparison %s of %s is not decided on %s, %s: %s' % (n, t, a, b, sorted(map(str, got))[:2]))
                if order is NEAR:
                    continue
                want = order in WANT[n]
                rep.require(not throws and got == {('b', want)}, 'C09:rule:%s:%s:%s' % (t, n, order),
                            '%s on %s with left %s %s right %s gives %s instead of %s' % (n, t, a[1], order, b[1], sorted(g[1] for g in got) or 'an exception', want), 'openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp')
        for (a, b), r in results.items():
            eq, ne = r['equalTo'], r['notEqualTo']
            rep.require(len(eq) == 1 and ne == {('b', not next(iter(eq))[1])}, 'C09:negation:%s:%s' % (t, 'rounding' if a[0] == 'f' and a[1] != b[1] and abs(a[1] - b[1]) < 1e-9 else 'plain'),
                        'notEqualTo on %s is not the negation of equalTo for %s and %s: equalTo %s, notEqualTo %s' % (t, a[1], b[1], eq, ne), fn.where)
            if t in ('double', 'valarray') and a[1] != b[1] and abs(a[1] - b[1]) < 1e-9:
                rep.require(eq == {('b', True)}, 'C09:rounding:' + t, 'equalTo on %s distinguishes values that differ only by rounding' % t, fn.where)


NUM = {'Double': 'double', 'Integer': 'long', 'UnsignedInteger': 'unsigned long', 'UnsignedShort': 'unsigned short'}


def is_syntax_error(prog, v):
    return v[0] == 'obj' and (v[1] == 'common::SyntaxError' or 'common::SyntaxError' in prog.bases(v[1]))


def value_of(ip, s, where):
    v = ip.load(s, where)
    return ip.load(s, v[3][0][1]) if v[0] == 'obj' and v[3] else v


def construct(rep, prog, t, v):
    from .. import models
    ip = osc.interp(Interp, prog)
    cs = [f for f in prog.by_name[NS + t + '::' + t] if len(f.x['p']) == 1 and 'basic_string' in f.x['p'][0]['t']]
    rep.need(len(cs) == 1, 'the constructor of %s from text vanished' % t)
    r = prog.records[NS + t]
    st = State().put(R, v).put(X, mkobj(NS + t, None, {r['f'][0]['q']: ('term', 'uninitialised')}))
    rets, throws = ip.run(cs[0], st, ('ptr', X, ()), [al(R)])
    rep.analysed(ip)
    rep.count('paths', len(rets) + len(throws))
    return ip, [(s, value_of(ip, s, al(X))) for s, _ in rets], throws, cs[0].where


def literals(rep, prog):
    for t, ct in NUM.items():
        ip, rets, throws, where = construct(rep, prog, t, ('term', 'text'))
        good = {v for _, v in rets}
        rep.require(good == {('lexed', ct, ('term', 'text'))}, 'C09:literal:' + t, 'a %s read from its text has the value %s' % (t, sorted(map(str, good))[:3]), where)
        rep.require(all(s.facts.get(('lexable', ct, ('term', 'text'))) == ('b', True) for s, v in rets) and throws and all(is_syntax_error(prog, v) for s, v in throws),
                    'C09:reject:' + t, 'a text that is no %s literal is not always rejected with a syntax error' % t, where)
    for txt, want in (('true', True), ('false', False), ('', None), ('1', None), ('0', None), ('True', None), ('yes', None)):
        ip, rets, throws, where = construct(rep, prog, 'Boolean', Sx(txt))
        got = {v for _, v in rets}
        if want is None:
            rep.require(not rets and throws and all(is_syntax_error(prog, v) for s, v in throws), 'C09:boolean:reject:' + txt, 'the text "%s" gives the Boolean %s instead of a syntax error' % (txt, sorted(map(str, got))), where)
        else:
            rep.require(got == {('b', want)} and not throws, 'C09:boolean:' + txt, 'the text "%s" gives the Boolean %s' % (txt, sorted(map(str, got))), where)


def extraction(rep, prog):
    for t, ct in list(NUM.items()) + [('Boolean', 'bool')]:
        fs = [f for n in (NS + 'operator>>', NS + 'syntax::operator>>') for f in prog.by_name.get(n, []) if f.x['p'][1]['t'].replace(' &', '') == NS + t]
        rep.need(len(fs) == 1, 'operator>> of %s vanished' % t)
        f = fs[0]
        cases = [(('term', 'text'), None)]
        if t == 'Double':
            cases += [(Sx('INF'), float('inf')), (Sx('+INF'), float('inf')), (Sx('-INF'), -float('inf'))]
        fld = prog.records[NS + t]['f'][0]['q']
        for txt, want in cases:
            ip = osc.interp(Interp, prog)
            st = State({L: ('stream0',), X: mkobj(NS + t, None, {fld: ('term', 'uninitialised')})}).gset(input=(txt,))
            rets, throws = ip.run(f, st, None, [al(L), al(X)])
            rep.analysed(ip)
            rep.count('paths', len(rets) + len(throws))
            got = set()
            for s, _ in rets:
                if any(k[0] == 'matches' and v == ('b', True) for k, v in s.facts.items()) or (want is None and ip.resolve(s, txt)[0] == 's'):
                    continue   # the special words are separate cases
                got.add(value_of(ip, s, al(X)))
            if want is not None:
                rep.require(got == {('f', want)} and not throws, 'C09:extract:%s:%s' % (t, txt[1]), 'extracting %s from "%s" gives %s' % (t, txt[1], sorted(map(str, got))), f.where)
            else:
                ok = {('lexed', ct, txt), ('streamed', ct + (':boolalpha' if ct == 'bool' else ''), txt)}
                rep.require(len(got) == 1 and got <= ok, 'C09:extract:' + t, 'extracting %s from a word gives %s' % (t, sorted(map(str, got))[:3]), f.where)


def arithmetic(rep, prog):
    OPS = {'operator+=': '+', 'operator*=': '*', 'operator=': None, 'operator++': '++'}
    for t in NUM:
        fld = prog.records[NS + t]['f'][0]['q']
        for opn, op in OPS.items():
            for f in prog.by_name.get(NS + t + '::' + opn, []):
                if strip(f.x['p'][0]['t'] if f.x['p'] else '') == NS + t:
                    continue
                for old, rhs in ((I(6), I(7)), (I(0), I(1)), (I(2), I(3))):
                    conv = lambda v: ('f', float(v[1])) if t == 'Double' else v
                    p = f.x['p'][0]['t'] if f.x['p'] else ''
                    a, b = conv(old), ('f', float(rhs[1])) if 'double' in p else rhs
                    ip = osc.interp(Interp, prog)
                    st = State({X: mkobj(NS + t, None, {fld: a}), R: b})
                    rets, throws = ip.run(f, st, ('ptr', X, ()), [al(R)] if f.x['p'] else [])
                    rep.analysed(ip)
                    rep.count('paths', len(rets) + len(throws))
                    want = {'+': old[1] + rhs[1], '*': old[1] * rhs[1], None: rhs[1], '++': old[1] + 1}[op]
                    got = {value_of(ip, s, al(X)) for s, _ in rets}
                    rep.require(not throws and len(got) == 1 and next(iter(got))[0] in 'if' and next(iter(got))[1] == want, 'C09:arith:%s:%s' % (t, opn), '%s of %s %s and %s gives %s instead of %s' % (opn, t, old[1], rhs[1], sorted(map(str, got)), want), f.where)
                    for s, r in rets:
                        if op is not None or True:
                            rep.require(r[0] != 'alias' or ip.load(s, r) == ip.load(s, al(X)), 'C09:arith:%s:%s:result' % (t, opn), '%s of %s does not return the object itself' % (opn, t), f.where)


def strip(t):
    return t.replace('const ', '').replace(' &', '').replace('&', '').strip()


def run(rep):
    rep.rule = ('abstract interpretation of Rule::operator() for every operand type and enumerator over the orderings of its operands, of the text constructors and extraction '
                'operators of the number types over an unknown text, and of their compound assignments')
    prog = load([SYN + x + '.cpp' for x in ('double', 'integer', 'unsigned_integer', 'unsigned_short', 'boolean')], probes=['rule.cpp'])
    rules(rep, prog)
    literals(rep, prog)
    extraction(rep, prog)
    arithmetic(rep, prog)
