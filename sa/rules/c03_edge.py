"""Condition edge and delay semantics over every history and every valuation."""
import itertools
from ..facts import load
from ..absint import Interp, State, mkobj, TRUE, FALSE, I, of_get
from .. import osc
from .c02_trigger import value_of

SYN = 'openscenario/openscenario_interpreter/src/syntax/'
NS = 'openscenario_interpreter::'
C = NS + 'Condition'
THIS = ('o', 'condition')
NOW, DELAY = ('now',), ('delay',)
EDGES = {   # name -> (samples needed, function of (newest, previous))
    'rising': (2, lambda a, b: a and not b),
    'falling': (2, lambda a, b: not a and b),
    'risingOrFalling': (2, lambda a, b: a != b),
    'none': (1, lambda a, b: a),
    'sticky': (1, None),
}


def sim_time(ip, st, e, o, args, f):
    return [(st.gset(clock=st.g('clock', 0) + 1), NOW)]


def inner(ip, st, e, o, args, f):
    out = []
    for b in (True, False):
        s = st.gset(inner=st.g('inner', ()) + (b,))
        out.append((s, osc.boolean_value(ip, ('b', b), (id(e), b))))
    return out


def not_yet(ip, s, t, delay):
    """is the sample at time t newer than (now - delay)?  True/False when the path has decided it"""
    forms = [('<', ip.arith(s, '-', NOW, delay), t), ('<', NOW, ip.arith(s, '+', t, delay)), ('<', ip.arith(s, '-', NOW, t), delay)]
    forms += [('<', ip.arith(s, '-', NOW, t), delay), ('<', ip.arith(s, '-', ip.arith(s, '-', NOW, delay), t), I(0))]
    for op, a, b in forms:
        v = ip.arith(s, op, a, b)
        r = {x for _, x in ip.truth(s, v)}
        if len(r) == 1:
            return r.pop()
    return None


def run(rep):
    rep.rule = ('abstract interpretation of the evaluation of a condition for each edge kind, histories of 0..3 earlier samples with unknown times and results, '
                'each sample on either side of the delay horizon; the value must be the edge function of the newest two samples old enough')
    prog = load([SYN + 'condition.cpp', SYN + 'double.cpp', SYN + 'boolean.cpp', SYN + 'condition_edge.cpp'])
    fn = prog.one(C + '::evaluate')
    ename = NS + 'ConditionEdge::value_type'
    rep.need(ename in prog.enums, 'ConditionEdge vanished')
    enums = {n: int(v) for n, v in prog.enums[ename]['e']}
    rep.require(set(enums) == set(EDGES), 'C03:kinds', 'the condition edges are %s' % sorted(enums), 'condition_edge.hpp')
    H = prog.records.get(C + '::History')
    flds = {f['q'].split('::')[-1]: f['q'] for f in prog.records[C]['f']}
    for need in ('current_value', 'condition_edge', 'delay'):
        rep.need(need in flds, 'member %s of Condition vanished' % need)
    hist = [q for f in prog.records[C]['f'] for q in [f['q']] if 'History' in f['t']]
    rep.need(H is not None and len(hist) == 1, 'the sample history of Condition vanished')
    ht = [f['q'] for f in H['f'] if f['t'] != 'bool']
    hr = [f['q'] for f in H['f'] if f['t'] == 'bool']
    rep.need(len(ht) == 1 and len(hr) == 1, 'the sample layout changed')
    edge_f = prog.records[NS + 'ConditionEdge']['f'][0]['q']
    dbl_f = prog.records[NS + 'Double']['f'][0]['q']
    for name, (arity, func) in EDGES.items():
        if name not in enums:
            continue
        problems, npaths, decided = set(), 0, 0
        for n in range(0, 4):
            for cur, past in itertools.product((True, False), itertools.product((True, False), repeat=n)):
                if cur and n == 0:
                    continue
                ip = osc.interp(Interp, prog, [(r'::evaluateSimulationTime$', sim_time), (r'Pointer<.*Expression>::evaluate$|ComplexType::evaluate$|^openscenario_interpreter::Pointer<.*>::evaluate$', inner)])
                old = [mkobj(C + '::History', None, {ht[0]: ('time', i), hr[0]: ('b', past[i])}) for i in range(n)]
                me = mkobj(C, ('condition0',), {
                    flds['condition_edge']: mkobj(NS + 'ConditionEdge', None, {edge_f: I(enums[name])}),
                    flds['delay']: mkobj(NS + 'Double', None, {dbl_f: DELAY}),
                    flds['current_value']: ('b', cur), hist[0]: ('list', tuple(old))})
                rets, throws = ip.run(fn, State({THIS: me}), ('ptr', THIS, ()))
                rep.analysed(ip)
                if throws:
                    problems.add('evaluation ends with an exception of type %s' % throws[0][1][1])
                for s, v in rets:
                    npaths += 1
                    inn = s.g('inner', ())
                    if len(inn) != 1:
                        problems.add('the condition is sampled %d times in one cycle' % len(inn))
                        continue
                    times = [('time', i) for i in range(n)] + [NOW]
                    # number of leading samples that are old enough, as decided on this path
                    p, ok = 0, True
                    for t in times:
                        if t == NOW:
                            # the sample of this very cycle is old enough exactly without delay
                            d = not_yet(ip, s, t, DELAY)
                            if d is None:
                                r = {x for _, x in ip.compare(s, '<', I(0), DELAY)}
                                d = r.pop() if len(r) == 1 else None
                        else:
                            d = not_yet(ip, s, t, DELAY)
                        if d is None:
                            ok = False
                            break
                        if d:
                            break
                        p += 1
                    if not ok:
                        problems.add('the value does not depend on which samples lie beyond the delay')
                        continue
                    decided += 1

                    results = list(past) + [inn[0]]
                    got = value_of(ip, s, v, None)
                    rec = ip.load(s, ('alias', THIS, (flds['current_value'],)))
                    if p < arity:
                        w = False
                    elif name == 'sticky':
                        w = cur or results[p - 1]
                    else:
                        w = func(results[p - 1], results[p - 2])
                    if not (name == 'sticky' and cur and p < arity):   # once true an old enough sample is always kept (see below)
                        if got != ('b', w):
                            problems.add('%d old enough samples ending in %s%s give %s instead of %s' % (
                                p, results[max(0, p - 2):p], ' after being true' if cur else '', got[1] if got[0] == 'b' else 'an undetermined value', w))
                        if rec != ('b', w):
                            problems.add('the recorded value differs from the evaluated one')
                    # what is kept must suffice for the next evaluation, in order, and include the newest sample
                    h = ip.load(s, ('alias', THIS, (hist[0],)))
                    if h[0] != 'list':
                        problems.add('the sample history is lost')
                        continue
                    kept = [ip.load(s, of_get(x, ht[0])) if x[0] == 'obj' else None for x in h[1]]
                    if kept != times[len(times) - len(kept):]:
                        problems.add('the kept samples are not the newest ones in order (%s of %s)' % (kept, times))
                    need = len(times) - max(0, p - arity)
                    if len(kept) < need:
                        problems.add('samples needed by later evaluations are discarded (%d kept, %d needed)' % (len(kept), need))
        rep.count('paths', npaths)
        rep.count('decided_paths', decided)
        for x in sorted(problems):
            rep.bad('C03:%s:%s' % (name, x), 'edge %s: %s' % (name, x), fn.where)
        if not problems and decided:
            rep.ok('edge %s: %d abstract histories agree with the edge function' % (name, decided), fn.where)
        rep.need(decided or problems, 'edge %s: nothing could be decided' % name)
