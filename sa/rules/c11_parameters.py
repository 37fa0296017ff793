"""Parameters keep their declared type, obey their constraints, and are compared and modified in that type."""
from ..facts import load
from ..absint import Interp, State, mkobj, VOID, I, Sx, strip_type
from .. import osc

NS = 'openscenario_interpreter::'
SYN = 'openscenario/openscenario_interpreter/src/syntax/'
STR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
TYPES = {'Boolean': NS + 'Boolean', 'Double': NS + 'Double', 'Integer': NS + 'Integer', 'String': None, 'UnsignedInteger': NS + 'UnsignedInteger', 'UnsignedShort': NS + 'UnsignedShort', 'Entity': NS + 'Entity'}
CT = {'Boolean': 'bool', 'Double': 'double', 'Integer': 'long', 'UnsignedInteger': 'unsigned long', 'UnsignedShort': 'unsigned short'}
DECLARED = {'boolean': 'Boolean', 'dateTime': 'String', 'double': 'Double', 'integer': 'Integer', 'string': 'String', 'unsignedInt': 'UnsignedInteger', 'unsignedShort': 'UnsignedShort'}
ENUMERATOR = {'BOOLEAN': 'Boolean', 'DATE_TIME': 'String', 'DOUBLE': 'Double', 'INTEGER': 'Integer', 'STRING': 'String', 'UNSIGNED_INT': 'UnsignedInteger', 'UNSIGNED_SHORT': 'UnsignedShort'}
P, RU, V, S_, X = ('t', 'p'), ('t', 'rule'), ('t', 'v'), ('t', 'scope'), ('t', 'x')
TEXT, OLD, DELTA = ('term', 'text'), ('term', 'old'), ('term', 'delta')


def al(r):
    return ('alias', r, ())


def h_type(ip, st, e, o, args, f):
    d = ip.dyntype(st, ip.load(st, o))
    return [(st, ('ty', d))] if d else None


def h_rule(ip, st, e, o, args, f):
    r = ip.load(st, o)
    return [(s, ('holds', r) + tuple(ip.load(s, v) for v in vs)) for s, vs in ip.args(args, f, st)]


HK = [(r'Expression::type$', h_type), (r'^openscenario_interpreter::(syntax::)?Rule::operator\(\)$', h_rule)]


def field(prog, cls, name):
    for f in prog.records[cls]['f']:
        if f['q'].split('::')[-1] == name:
            return f['q']


def flat(v):
    """the content of an object of a parameter type, whatever its layout"""
    while v[0] == 'obj':
        if v[3]:
            v = v[3][0][1]
        elif v[2] and v[2][0] == 'new':
            v = v[2][-1]
        elif v[2]:
            v = v[2]
        else:
            break
    return v


def literal(t):
    """values which denote the given text read as a literal of the type"""
    if t == 'String':
        return {TEXT}
    return {('lexed', CT[t], TEXT), ('streamed', CT[t] + (':boolalpha' if t == 'Boolean' else ''), TEXT), ('lexed', NS + t, TEXT)}


class C:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        self.string = STR

    def type(self, t):
        return TYPES[t] or self.string

    def obj(self, t, v=OLD):
        ty = self.type(t)
        r = self.prog.records.get(ty)
        if t not in ('String', 'Entity') and r and r.get('f'):
            return mkobj(ty, None, {r['f'][0]['q']: v})
        return mkobj(ty, v, ())

    def interp(self, hooks=()):
        return osc.interp(Interp, self.prog, hooks=list(hooks) + HK)

    def done(self, ip, rets, throws):
        self.rep.analysed(ip)
        self.rep.count('paths', len(rets) + len(throws))


def errors(throws):
    return {x[1].split('::')[-1] for _, x in throws if x[0] == 'obj'}


def declaration(rep, prog, c):
    PD = NS + 'ParameterDeclaration'
    fn = prog.one(PD + '::evaluate')
    q = {f['q'].split('::')[-1]: f['q'] for f in prog.records[PD]['f']}
    rep.need({'name', 'parameter_type', 'constraint_groups', 'value'} <= set(q), 'the members of ParameterDeclaration changed')
    en = prog.enums[NS + 'ParameterType::value_type']['e']
    rep.need({n for n, _ in en} == set(ENUMERATOR), 'the enumerators of ParameterType changed')
    ptf = prog.records[NS + 'ParameterType']['f'][0]['q']
    for n, v in en:
        t = ENUMERATOR[n]
        for groups in ((), ('g0',), ('g0', 'g1')):
            seen = []

            def h_group(ip, st, e, o, args, f, seen=seen):
                out = []
                for s, vs in ip.args(args, f, st):
                    seen.append((ip.dyntype(s, ip.load(s, vs[0])), flat(ip.load(s, ip.deref(s, ip.load(s, vs[0]))))))
                    out.append((s, ('holds', ip.load(s, o))))
                return out
            ip = c.interp([(r'ValueConstraintGroup::evaluate$', h_group)])
            st = State({X: mkobj(PD, None, {q['name']: Sx('p'), q['parameter_type']: mkobj(NS + 'ParameterType', None, {ptf: I(int(v))}), q['value']: TEXT,
                                            q['constraint_groups']: ('list', tuple(('term', g) for g in groups))})})
            rets, throws = ip.run(fn, st, ('ptr', X, ()), [])
            c.done(ip, rets, throws)
            rep.require(bool(rets), 'C11:declared:%s:none' % n, 'a parameter declared %s has no value' % n, fn.where)
            for s, r in rets:
                r = ip.load(s, r)
                d = ip.dyntype(s, r)
                rep.require(d == c.type(t), 'C11:declared:%s:type' % n, 'a parameter declared %s becomes an object of type %s' % (n, d), fn.where)
                got = flat(ip.load(s, ip.deref(s, r))) if d else r
                rep.require(got in literal(t), 'C11:declared:%s:value' % n, 'a parameter declared %s with a text gets the value %s' % (n, (got,)), fn.where)
                holds = [s.facts.get(('holds', ('term', g))) for g in groups]
                rep.require(not groups or ('b', True) in holds, 'C11:constraint:%s:admits' % n, 'a parameter is accepted although none of its %d constraint groups holds' % len(groups), fn.where)
            for s, x in throws:
                holds = [s.facts.get(('holds', ('term', g))) for g in groups]
                lex = any(k[0] in ('lexable', 'readable') and w == ('b', False) for k, w in s.facts.items())
                rep.require(lex or (groups and all(h == ('b', False) for h in holds)), 'C11:constraint:%s:rejects' % n, 'a parameter is rejected although one of its constraint groups may hold', fn.where)
                rep.require(x[0] == 'obj' and x[1].endswith('SyntaxError'), 'C11:constraint:%s:error' % n, 'a parameter is rejected with %s instead of a syntax error' % x[1], fn.where)
            rep.require(not groups or any(all(s.facts.get(('holds', ('term', g))) == ('b', False) for g in groups) for s, x in throws), 'C11:constraint:%s:unenforced' % n,
                        'a parameter whose constraint groups all fail is not rejected', fn.where)
            rep.require(all(d == c.type(t) and v_ in literal(t) for d, v_ in seen), 'C11:constraint:%s:subject' % n, 'the constraint groups are evaluated on %s instead of the value of the parameter' % (seen[:1],), fn.where)


def groups(rep, prog, c):
    fn = prog.one(NS + 'ValueConstraintGroup::evaluate')
    for n in range(0, 4):
        subjects = []

        def h(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                subjects.append(ip.load(s, vs[0]))
                out.append((s, ('holds', ip.load(s, o))))
            return out
        ip = c.interp([(r'ValueConstraint::evaluate$', h)])
        members = tuple(('term', 'c%d' % i) for i in range(n))
        st = State({X: ('list', members), P: ('term', 'object')})
        rets, throws = ip.run(fn, st, ('ptr', X, ()), [al(P)])
        c.done(ip, rets, throws)
        rep.require(not throws and rets, 'C11:group:throws', 'evaluating a constraint group raises an exception', fn.where)
        for s, r in rets:
            for s2, b in ip.truth(s, ip.load(s, r)):
                hs = [s2.facts.get(('holds', m)) for m in members]
                ok = all(h_ == ('b', True) for h_ in hs) if b else ('b', False) in hs
                rep.require(ok, 'C11:group:all', 'a group of %d constraints is %s where its constraints are %s' % (n, 'satisfied' if b else 'not satisfied', ['unknown' if h_ is None else h_[1] for h_ in hs]), fn.where)
        rep.require(all(x == ('term', 'object') for x in subjects), 'C11:group:subject', 'the constraints of a group are not evaluated on the given object', fn.where)
    # one constraint
    fn = prog.one(NS + 'ValueConstraint::evaluate')
    VC = NS + 'ValueConstraint'
    seen = []

    def hc(ip, st, e, o, args, f):
        return [(s, ('call', 'compare') + tuple(ip.load(s, v) for v in vs)) for s, vs in ip.args(args, f, st)]
    ip = c.interp([(r'ParameterCondition::compare$', hc)])
    st = State({X: mkobj(VC, None, {field(prog, VC, 'rule'): ('term', 'rule'), field(prog, VC, 'value'): TEXT}), P: ('term', 'object')})
    rets, throws = ip.run(fn, st, ('ptr', X, ()), [al(P)])
    c.done(ip, rets, throws)
    got = {ip.load(s, r) for s, r in rets}
    rep.require(got == {('call', 'compare', ('term', 'object'), ('term', 'rule'), TEXT)} and not throws, 'C11:constraint:compare', 'a constraint evaluates %s instead of comparing the object by its rule with its value' % sorted(map(str, got))[:1], fn.where)


def comparison(rep, prog, c):
    fn = prog.one(NS + 'ParameterCondition::compare')
    for t in TYPES:
        val = c.obj(t)
        O = ('t', ('made', t, val))
        ip = c.interp()
        st = State({O: val, P: ('ptr', O, ()), RU: ('term', 'rule'), V: TEXT})
        rets, throws = ip.run(fn, st, None, [al(P), al(RU), al(V)])
        c.done(ip, rets, throws)
        if t == 'Entity':
            rep.require(not rets and errors(throws) == {'SemanticError'}, 'C11:compare:other', 'comparing a value that is no parameter type gives %s instead of a semantic error' % (sorted(errors(throws)) or 'a result'), fn.where)
            continue
        rep.require(bool(rets), 'C11:compare:%s:none' % t, 'a %s parameter cannot be compared' % t, fn.where)
        for s, r in rets:
            r = ip.load(s, r)
            rep.need(r[0] == 'holds' and len(r) == 4, 'the comparison of a %s parameter is not made by Rule: %s' % (t, str(r)[:80]))
            rep.require(r[1] == ('term', 'rule'), 'C11:compare:%s:rule' % t, 'a %s parameter is not compared by the given rule' % t, fn.where)
            rep.require(flat(r[2]) == OLD, 'C11:compare:%s:left' % t, 'the left side of the comparison of a %s parameter is %s instead of the parameter' % (t, (flat(r[2]),)), fn.where)
            rep.require(flat(r[3]) in literal(t), 'C11:compare:%s:right' % t, 'the right side of the comparison of a %s parameter is %s instead of the value read as %s' % (t, (flat(r[3]),), t), fn.where)
        rep.require(errors(throws) <= {'SyntaxError', 'SemanticError'}, 'C11:compare:%s:error' % t, 'comparing a %s parameter raises %s' % (t, sorted(errors(throws))), fn.where)
    # the condition compares the parameter it names
    PC = NS + 'ParameterCondition'
    fn = prog.one(PC + '::evaluate')

    def hc(ip, st, e, o, args, f):
        return [(s, ('call', 'compare') + tuple(ip.load(s, v) for v in vs)) for s, vs in ip.args(args, f, st)]

    def href(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            k = ip.load(s, vs[0])
            while k[0] in ('call', 'obj', 'list') and len(k) > 2 and k != Sx('name'):
                k = k[-1] if k[0] == 'call' else (k[2][-1] if k[2] else (k[3][0][1] if k[3] else k))
                if k[0] == 'list' and k[1]:
                    k = k[1][0]
            out.append((s, ('call', 'ref', k)))
        return out
    made = {}

    def has(ip, st, e, o, args, f):
        return [(s, ('call', 'asBoolean', ip.load(s, vs[0]))) for s, vs in ip.args(args, f, st)]
    ip = c.interp([(r'ParameterCondition::compare$', hc), (r'::Scope::ref$', href), (r'::asBoolean$', has)])
    st = State({X: mkobj(PC, None, {field(prog, PC, 'parameter_ref'): Sx('name'), field(prog, PC, 'value'): TEXT, field(prog, PC, 'rule'): ('term', 'rule')})})
    rets, throws = ip.run(fn, st, ('ptr', X, ()), [])
    c.done(ip, rets, throws)
    got = {ip.load(s, r) for s, r in rets}
    rep.need(got and all(g[:2] == ('call', 'asBoolean') and g[2][:2] == ('call', 'compare') for g in got), 'ParameterCondition::evaluate does not end in a comparison: %s' % sorted(map(str, got))[:1])
    rep.require(all('ref' in str(g[2][2]) and 'name' in str(g[2][2]) and g[2][3:] == (('term', 'rule'), TEXT) for g in got), 'C11:condition', 'a parameter condition evaluates %s' % sorted(map(str, got))[:1], fn.where)
    rep.require(errors(throws) <= {'SyntaxError', 'SemanticError'}, 'C11:condition:error', 'a parameter condition raises %s' % sorted(errors(throws)), fn.where)


def modification(rep, prog, c):
    def hook(O):
        return [(r'::Scope::ref$', lambda ip, st, e, o, args, f: [(st, ('ptr', O, ()))])]
    fn = prog.one(NS + 'ParameterSetAction::set')
    for t in TYPES:
        val = c.obj(t)
        O = ('t', ('made', t, val))
        ip = c.interp(hook(O))
        st = State({O: val, RU: Sx('name'), V: TEXT, S_: ('term', 'scope')})
        rets, throws = ip.run(fn, st, None, [al(S_), al(RU), al(V)])
        c.done(ip, rets, throws)
        if t == 'Entity':
            rep.require(not rets and throws, 'C11:set:other', 'setting a value that is no parameter type is not rejected', fn.where)
            continue
        rep.require(bool(rets), 'C11:set:%s:none' % t, 'a %s parameter cannot be set' % t, fn.where)
        for s, r in rets:
            now = ip.load(s, al(O))
            rep.require(flat(now) in literal(t), 'C11:set:%s' % t, 'setting a %s parameter stores %s instead of the value read as %s' % (t, (flat(now),), t), fn.where)
        for s, x in throws:
            rep.require(ip.load(s, al(O)) == val, 'C11:set:%s:failed' % t, 'a rejected text still changes a %s parameter' % t, fn.where)
    for rule, op in (('ParameterAddValueRule', '+'), ('ParameterMultiplyByValueRule', '*')):
        cls = NS + rule
        fn = prog.one(cls + '::operator()')
        for t in TYPES:
            val = c.obj(t)
            O = ('t', ('made', t, val))
            ip = c.interp()
            st = State({O: val, P: ('ptr', O, ()), X: mkobj(cls, None, {prog.records[cls]['f'][0]['q']: c.obj('Double', DELTA)})})
            rets, throws = ip.run(fn, st, ('ptr', X, ()), [al(P)])
            c.done(ip, rets, throws)
            if t in ('Entity', 'Boolean', 'String'):
                rep.require(not rets and errors(throws) == {'SyntaxError'}, 'C11:%s:%s' % (rule, t), '%s of a %s parameter gives %s instead of a syntax error' % (rule, t, sorted(errors(throws)) or 'a result'), fn.where)
                continue
            rep.require(rets and not throws, 'C11:%s:%s:none' % (rule, t), '%s cannot be applied to a %s parameter' % (rule, t), fn.where)
            for s, r in rets:
                now = flat(ip.load(s, al(O)))
                core = now[1] if now[0] == 'trunc' else now
                want = {('op', op, OLD, DELTA), ('op', op, DELTA, OLD)}
                rep.require(core in want, 'C11:%s:%s' % (rule, t), '%s sets a %s parameter to %s' % (rule, t, (now,)), fn.where)
                rep.require(ip.load(s, r) == ('ptr', O, ()), 'C11:%s:%s:result' % (rule, t), '%s of a %s parameter does not return the parameter' % (rule, t), fn.where)
    # dispatch of the modifying action
    PM = NS + 'ParameterModifyAction'
    fn = prog.one(PM + '::start')
    O = ('t', ('made', 'Double', c.obj('Double')))
    for rule in ('ParameterAddValueRule', 'ParameterMultiplyByValueRule'):
        Q = ('t', ('made', rule, mkobj(NS + rule, None, {prog.records[NS + rule]['f'][0]['q']: c.obj('Double', DELTA)})))

        def happ(ip, st, e, o, args, f, rule=rule):
            return [(s.event('applied', f['n'].split('::')[-2], ip.load(s, o), ip.load(s, vs[0])), VOID) for s, vs in ip.args(args, f, st)]
        ip = c.interp(hook(O) + [(r'Parameter(AddValue|MultiplyByValue)Rule::operator\(\)$', happ)])
        r = field(prog, PM, 'rule')
        st = State({X: mkobj(PM, None, {r: ('ptr', Q, ()), field(prog, PM, 'parameter_ref'): Sx('name')})})
        rets, throws = ip.run(fn, st, ('ptr', X, ()), [])
        c.done(ip, rets, throws)
        rep.require(bool(rets) and not throws, 'C11:modify:%s:none' % rule, 'ParameterModifyAction does not apply a %s' % rule, fn.where)
        for s, _ in rets:
            tr = [x for x in s.g('trace', ()) if x[0] == 'applied']
            rep.require([x[1] for x in tr] == [rule] and tr[0][3] == ('ptr', O, ()), 'C11:modify:' + rule, 'ParameterModifyAction with a %s applies %s' % (rule, [(x[1], str(x[3])[:60]) for x in tr]), fn.where)


def constructor(rep, prog, c):
    PD = NS + 'ParameterDeclaration'
    fs = [f for f in prog.by_name[PD + '::ParameterDeclaration'] if len(f.x['p']) == 2]
    rep.need(len(fs) == 1, 'the constructor of ParameterDeclaration from a node vanished')

    def attr(ip, st, e, o, args, f):
        out = []
        for s, v in ip.rv(args[0], st):
            name = v
            while name[0] == 'obj' and name[2]:
                name = name[2][-1]
            out.append((s, dict(s.g('attrs')).get(name[1], ('call', 'attribute', name))))
        return out

    def ev(ip, st, e, o, args, f):
        return [(st, ('call', 'value of', ip.load(st, o)))]

    def trav(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            out.append((s.event('traverse', ip.load(s, vs[1])), VOID))
        return out

    def ins(ip, st, e, o, args, f):
        return [(s.event('insert', ip.load(s, vs[0]), ip.load(s, vs[1])), VOID) for s, vs in ip.args(args, f, st)]
    for name, good in (('Speed', True), ('speed_OSC', True), ('', True), ('OS', True), ('osc', True), ('OSC', False), ('OSCSpeed', False)):
        ip = c.interp([(r'::readAttribute$', attr), (r'ParameterDeclaration::evaluate$', ev), (r'::traverse$', trav), (r'::Scope::insert$', ins)])
        st = State({X: mkobj(PD, None, {}), P: ('term', 'node'), S_: ('term', 'scope')}).gset(attrs=(('name', Sx(name)), ('parameterType', ('term', 'ptype')), ('value', TEXT)))
        rets, throws = ip.run(fs[0], st, ('ptr', X, ()), [al(P), al(S_)])
        c.done(ip, rets, throws)
        if good:
            rep.require(bool(rets) and not throws, 'C11:name:rejected', 'declaring a parameter named "%s" is rejected' % name, fs[0].where)
            for s, _ in rets:
                tr = [x for x in s.g('trace', ()) if x[0] in ('insert', 'traverse')]
                i = [x for x in tr if x[0] == 'insert']
                me = ip.load(s, al(X))
                rep.require(len(i) == 1 and flat(i[0][1]) == Sx(name), 'C11:insert:name', 'a parameter named "%s" is entered into its scope as %s' % (name, [str(x[1])[:60] for x in i]), fs[0].where)
                rep.require(len(i) == 1 and i[0][2][:2] == ('call', 'value of'), 'C11:insert:value', 'the value entered into the scope is not the typed value of the parameter', fs[0].where)
                rep.require([x[0] for x in tr] == ['traverse', 'insert'] and tr[0][1] == Sx('ConstraintGroup'), 'C11:insert:order', 'the constraint groups are not read before the value is determined', fs[0].where)
                for m, want in (('name', Sx(name)), ('parameter_type', ('term', 'ptype')), ('value', TEXT)):
                    got = dict(me[3]).get(field(prog, PD, m))
                    rep.require(got is not None and flat(got) == want, 'C11:member:' + m, 'the member %s of a parameter declaration is %s' % (m, (got,)), fs[0].where)
        else:
            rep.require(not rets and throws and errors(throws) == {'SyntaxError'}, 'C11:name:reserved', 'the reserved name "%s" is not rejected with a syntax error' % name, fs[0].where)


def run(rep):
    rep.rule = ('abstract interpretation of parameter declaration, constraint groups, parameter conditions and the parameter actions for every parameter type, '
                'with the text, the old value and the operand symbolic')
    prog = load([SYN + x + '.cpp' for x in ('parameter_declaration', 'parameter_condition', 'parameter_set_action', 'parameter_modify_action', 'parameter_add_value_rule',
                                            'parameter_multiply_by_value_rule', 'value_constraint', 'value_constraint_group', 'double', 'integer', 'unsigned_integer', 'unsigned_short', 'boolean')])
    c = C(rep, prog)
    declaration(rep, prog, c)
    groups(rep, prog, c)
    comparison(rep, prog, c)
    modification(rep, prog, c)
    constructor(rep, prog, c)
