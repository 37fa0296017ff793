"""Trigger = OR over its condition groups, condition group = AND over its conditions; no member is skipped."""
from ..facts import load
from ..absint import Interp, State, mkobj, TRUE, FALSE, VOID, of_get
from .. import osc

SYN = 'openscenario/openscenario_interpreter/src/syntax/'
NS = 'openscenario_interpreter::'
THIS = ('o', 'element')


def child(ip, st, e, o, args, f):
    """evaluation of one member: either outcome; remembered in order"""
    p = o[2][-1] if o and o[2] else None
    if o is None or o[1] != THIS:
        return None
    out = []
    for b in (True, False):
        if p and p[0] == 'ix':
            s = st.gset(ev=st.g('ev', ()) + ((p[1], b),))
        else:
            # unknown number of members: remember only whether all / any were true
            s = st.gset(all=st.g('all', True) and b, any=st.g('any', False) or b, n=st.g('n', 0) + 1 if st.g('n', 0) < 2 else 2)
        out.append((s, osc.boolean_value(ip, ('b', b), (id(e), b))))
    return out


def value_of(ip, s, v, field):
    v = ip.load(s, v)
    if v[0] == 'ptr':
        v = ip.load(s, ('alias', v[1], v[2]))
    if v[0] == 'obj':
        v = ip.load(s, of_get(v, osc.bool_field(ip)) or ('none',))
    return v


def check(rep, prog, cls, callee, op):
    fn = prog.one(cls + '::evaluate')
    cv = [f['q'] for f in prog.records[cls]['f'] if f['q'].endswith('::current_value')]
    rep.need(cv, 'current_value of %s vanished' % cls)
    short = cls.split('::')[-1]

    def fresh():
        return osc.interp(Interp, prog, [(callee + '$', child)])

    def want(bs):
        return any(bs) if op == 'or' else all(bs)
    problems = set()
    for n in range(0, 5):
        ip = fresh()
        st = State({THIS: mkobj(cls, ('self0',), {'<c>': ('list', tuple(('member', i) for i in range(n)))})})
        rets, throws = ip.run(fn, st, ('ptr', THIS, ()))
        rep.analysed(ip)
        rep.count('paths', len(rets))
        for s, v in throws:
            problems.add('evaluation with %d members ends with an exception' % n)
        seen = set()
        for s, v in rets:
            ev = s.g('ev', ())
            idx = [i for i, _ in ev]
            bs = [b for _, b in ev]
            if sorted(idx) != list(range(n)):
                problems.add('with %d members the members evaluated in one cycle are %s' % (n, idx))
                continue
            r = value_of(ip, s, v, None)
            if r != ('b', want(bs)):
                problems.add('members evaluating to %s give %s' % (bs, r[1] if r[0] == 'b' else r[0]))
            c = ip.load(s, ('alias', THIS, (cv[0],)))
            if c != ('b', want(bs)):
                problems.add('members evaluating to %s leave the recorded value %s' % (bs, c[1] if c[0] == 'b' else 'not updated'))
            seen.add(tuple(b for _, b in sorted(ev)))
        if len(seen) != 2 ** n and not problems:
            problems.add('only %d of %d valuations of %d members are reachable' % (len(seen), 2 ** n, n))
    # any number of members: loop fixpoint over an unknown element
    ip = fresh()
    st = State({THIS: mkobj(cls, ('self0',), {'<c>': ('members',)})})
    rets, throws = ip.run(fn, st, ('ptr', THIS, ()))
    for s, v in rets:
        r = value_of(ip, s, v, None)
        w = s.g('any', False) if op == 'or' else s.g('all', True)
        if r != ('b', w) and r[0] == 'b':
            problems.add('for an arbitrary number of members: value %s although %s' % (r[1], 'some member is true' if op == 'or' and w else 'no member is true' if op == 'or' else 'all members are true' if w else 'some member is false'))
        if s.g('partial'):
            problems.add('only a part of the members is visited')
    for x in sorted(problems):
        rep.bad('C02:%s:%s' % (short, x), '%s: %s' % (short, x), fn.where)
    if not problems:
        rep.ok('%s is the %s of all its members, each evaluated once' % (short, 'disjunction' if op == 'or' else 'conjunction'), fn.where)


def run(rep):
    rep.rule = ('abstract interpretation of the evaluation of a trigger and of a condition group over every valuation of 0..4 members and, by loop fixpoint, of arbitrarily many; '
                'the value must be the OR/AND and every member must be evaluated exactly once per cycle')
    prog = load([SYN + 'trigger.cpp', SYN + 'condition_group.cpp'])
    check(rep, prog, NS + 'Trigger', NS + 'ConditionGroup::evaluate', 'or')
    check(rep, prog, NS + 'ConditionGroup', NS + 'Condition::evaluate', 'and')
    # an unconditional trigger: a single empty group
    fn = prog.one(NS + 'Trigger::truthy')
