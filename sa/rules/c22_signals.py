"""Traffic signal controllers: which phase is current when, what it does to the lights, and what is rejected."""
import itertools
from ..facts import load
from ..absint import Interp, State, mkobj, VOID, Sx, FALSE, TRUE, NIL
from ..algebra import Case
from sympy import Symbol, Integer

SYN = 'openscenario/openscenario_interpreter/src/syntax/'
FILES = [SYN + x + '.cpp' for x in ('traffic_signal_controller', 'phase', 'traffic_signal_state', 'traffic_signals', 'traffic_signal_controller_condition', 'traffic_signal_controller_action', 'double')]
NS = 'openscenario_interpreter::'
CO, PH, TS, ST, DB = (NS + x for x in ('TrafficSignalController', 'Phase', 'TrafficSignals', 'TrafficSignalState', 'Double'))
SRC, STATE = FILES[0], FILES[2]
NAN, MIN = ('sym', 'not a number'), ('sym', 'the least')


def sym(n):
    return ('sym', n)


def dbl(v):
    return mkobj(DB, None, {DB + '::data': v})


class Table:
    def __init__(self, d):
        self.d = d


def read_attribute(ip, st, e, o, args, f):
    """the attribute of the element that is read, the default where it is absent"""
    out = []
    for s, vs in ip.args(args, f, st):
        vs = [ip.load(s, v) if v[0] == 'alias' else v for v in vs]
        n = vs[0][1]
        have = s.g('attrs').d
        if n in have:
            out.append((s, have[n]))
        elif len(vs) > 3:
            out.append((s, vs[3]))
        else:
            ip.throw(s, mkobj('common::SyntaxError', None, {'text': Sx('required attribute')}))
    return out


def read_elements(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        out.append((s, ('list', tuple(s.g('elements').d.get(ip.load(s, vs[0])[1], ())))))
    return out


def now(ip, st, e, o, args, f):
    return [(st, sym('t%d' % st.g('t', 0)))]


def told(what):
    def h(ip, st, e, o, args, f):
        p = ip.load(st, o)
        name = dict(p[3]).get(PH + '::name') if p[0] == 'obj' else p
        return [(st.event(what, name[1]), VOID if what == 'clear' else sym('unspecified'))]
    return h


def isnan(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        v = ip.load(s, vs[0])
        if v[0] == 'obj' and v[1] == DB:
            v = dict(v[3])[DB + '::data']
        out.append((s, TRUE if v == NAN or (v[0] == 'f' and v[1] != v[1]) else FALSE))
    return out


def ref(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        n = ip.load(s, vs[-1])
        at = s.g('scope').d.get(n[1]) if n[0] == 's' else None
        if at is None:
            ip.throw(s, mkobj('std::out_of_range'))
        else:
            out.append((s, ('alias', at, ())))
    return out


HOOKS = [(r'readAttribute$', read_attribute), (r'readElements$', read_elements), (r'evaluateSimulationTime$', now), (r'Phase::evaluate$', told('eval')), (r'Phase::clearStates$', told('clear')),
         (r'::updatePredictions$', lambda ip, st, e, o, args, f: [(st, VOID)]), (r'^(std::)?isnan$', isnan), (r'Double::nan$', lambda ip, st, e, o, args, f: [(st, dbl(NAN))]),
         (r'EnvironmentFrame::ref$|Scope::ref$', ref)]


def traverse(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        if ip.load(s, vs[1]) != Sx('TrafficSignalController'):
            return None
        states = [s]
        for root in s.g('children'):
            states = [s3 for s2 in states for s3, _ in ip.call_closure(ip.load(s2, vs[2]), s2, [('ptr', root, ())], e)]
        out += [(s2, VOID) for s2 in states]
    return out


def made(ip, st, e, o, args, f):
    return [(s, ip.load(s, vs[0])) for s, vs in ip.args(args, f, st)]


def words(v):
    """the text of a string, or of an object that wraps one"""
    if v[0] == 's':
        return v[1]
    return next((w for x in v[1:] if isinstance(x, tuple) for w in [words(x) if x and isinstance(x[0], str) else next((words(y) for y in x if isinstance(y, tuple) and words(y)), None)] if w), None)


def insert(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        n, v = ip.load(s, vs[0]), ip.load(s, vs[1])
        out.append((s.gset(scope=Table(dict(s.g('scope').d, **{words(n): v[1]}))), VOID))
    return out


BUILD = HOOKS + [(r'(^|::)traverse$', traverse), (r'openscenario_interpreter::(\w+::)*make$', made), (r'(Scope|EnvironmentFrame)::(insert|define)$', insert)]


def phase(name, duration):
    return mkobj(PH, None, {PH + '::name': Sx(name), PH + '::duration': dbl(duration), PH + '::traffic_signal_states': ('list', ())})


def make(prog, rep, root, name, n, attrs, st):
    """a controller of n phases, as its constructor leaves it"""
    st = st.gset(attrs=Table(dict(attrs, name=Sx(name))), elements=Table({'Phase': tuple(phase('%s%d' % (name, i), sym('d%s%d' % (name, i))) for i in range(n))}))
    ip = Interp(prog, hooks=HOOKS)
    rets, throws = ip.run(prog.one(CO + '::TrafficSignalController'), st.put(root, mkobj(CO)), ('ptr', root, ()), [sym('node'), ('alias', ('t', 'scope'), ())])
    rep.analysed(ip)
    return [s for s, _ in rets if sane(s)], [(s, x) for s, x in throws if sane(s)]


def sane(s):
    """no comparison with what is not a number holds"""
    return CASE.possible(s.facts) and not any(k[0] == 'rel' and NAN in k[1:] and not (r & {'>', '='} and r & {'<'} or r == frozenset('>=') or r == frozenset('<=')) for k, r in s.facts.items())


class Symbols(dict):
    """every symbol of the path is a real number of its own"""
    def __contains__(self, t):
        return t[0] == 'sym' or t == MIN

    def __getitem__(self, t):
        return Symbol(t[1], nonnegative=True) if t[1].startswith(('dA', 'dB', 'dC', 'delay')) else Symbol(t[1], real=True)


CASE = Case({})
CASE.values = Symbols()


def val(t):
    return CASE.val(t)


def run(rep):
    rep.rule = ('abstract interpretation of the controllers over symbolic durations, delays and times: in every step of every path, the phase that the controller takes is the one that what the path has found out '
                'of elapsed time and notifications justifies, and the lights are told of it; the attributes that are rejected; the text of a traffic signal id, and the light it addresses')
    prog = load(FILES)
    for n in (CO + '::evaluate', CO + '::TrafficSignalController', TS + '::resolve_reference', ST + '::evaluate'):
        rep.need(n in prog.by_name, 'no %s' % n)
    construction(rep, prog)
    alone(rep, prog)
    referring(rep, prog)
    references(rep, prog)
    phases(rep, prog)
    states(rep, prog)


# ------------------------------------------------------------------ construction
def construction(rep, prog):
    d = dbl(sym('delay'))
    real = Symbol('any delay', real=True)
    T = ('t', 'T')
    for delay, reference in itertools.product((None, sym('any delay')), (None, 'R')):
        attrs = {}
        if delay:
            attrs['delay'] = dbl(delay)
        if reference:
            attrs['reference'] = Sx(reference)
        text = 'a controller with%s a delay and with%s a reference' % ('' if delay else 'out', '' if reference else 'out')
        rets, throws = make(prog, rep, T, 'C', 2, attrs, State())
        if bool(delay) != bool(reference):
            rep.require(not rets and throws, 'C22:construct:%s:%s' % (bool(delay), bool(reference)), text + ' is accepted', SRC)
            continue
        if not delay:
            rep.require(rets and not throws, 'C22:construct:none', text + ' is rejected', SRC)
            continue
        rep.require(rets and throws, 'C22:construct:both', text + ' is %s whatever the delay' % ('rejected' if throws else 'accepted'), SRC)
        for s, _ in throws:
            rep.require(CASE.known(s.facts, val(delay), Integer(0)) <= {'<'}, 'C22:construct:rejected', text + ' is rejected though the delay is not negative', SRC)
        for s in rets:
            rep.require(CASE.known(s.facts, val(delay), Integer(0)) <= {'=', '>'}, 'C22:construct:accepted', text + ' is accepted though the delay may be negative', SRC)
    for s in make(prog, rep, T, 'C', 2, {}, State())[0]:
        current(rep, prog, s, T, 'C', None, None, 'before the first step')


# ------------------------------------------------------------------ what is current
def current(rep, prog, s, root, name, cur, since, text):
    """the name of the phase, as the condition and the controller tell it"""
    ip = Interp(prog, hooks=HOOKS)
    rets, throws = ip.run(prog.one(CO + '::currentPhaseName'), s, ('ptr', root, ()), [])
    rep.analysed(ip)
    ok = bool(rets) and not throws
    for s2, v in rets:
        v = ip.load(s2, v)
        ok = ok and v == Sx('' if cur is None else '%s%d' % (name, cur))
    rep.require(ok, 'C22:name', '%s: the current phase is %s, but its name is not' % (text, 'none' if cur is None else '%s%d' % (name, cur)), SRC)
    if cur is not None:
        ip = Interp(prog, hooks=HOOKS)
        rets, throws = ip.run(prog.one(CO + '::currentPhaseSince'), s, ('ptr', root, ()), [])
        rep.require(bool(rets) and not throws and all(ip.load(s2, v) == since for s2, v in rets), 'C22:since', '%s: the phase is not told to be current since it began' % text, SRC)


def condition(rep, prog, s, root, name, cur, n, text):
    K = NS + 'TrafficSignalControllerCondition'
    R = ('t', 'condition')
    for i in range(n):
        ip = Interp(prog, hooks=HOOKS)
        st = s.gset(scope=Table({name: root}), attrs=Table({'phase': Sx('%s%d' % (name, i)), 'trafficSignalControllerRef': Sx(name)}))
        made, th = ip.run(prog.one(K + '::TrafficSignalControllerCondition'), st.put(R, mkobj(K)), ('ptr', R, ()), [sym('node'), ('alias', ('t', 'scope'), ())])
        ok = bool(made) and not th
        for s1, _ in made:
            ip2 = Interp(prog, hooks=HOOKS + [(r'asBoolean$', as_boolean)])
            rets, throws = ip2.run(prog.one(K + '::evaluate'), s1, ('ptr', R, ()), [])
            rep.analysed(ip2)
            ok = ok and bool(rets) and not throws and all(ip2.load(s2, v) == (TRUE if cur == i else FALSE) for s2, v in rets)
        rep.require(ok, 'C22:condition', '%s: the condition of phase %s%d does not tell whether that phase is the current one' % (text, name, i), FILES[4])


def as_boolean(ip, st, e, o, args, f):
    return [(s3, TRUE if b else FALSE) for s, vs in ip.args(args, f, st) for s3, b in ip.truth(s, ip.load(s, vs[0]))]


def events(s):
    return [tuple(x) for x in s.g('trace', ())]


def entered(name, old, new, n):
    """what the lights are told when a phase gives way to another"""
    out = []
    if old is not None:
        out.append(('clear', '%s%d' % (name, old)))
    if new is not None and n:
        out.append(('eval', '%s%d' % (name, new)))
    return out


def drop(s):
    return s.gset(trace=())


# ------------------------------------------------------------------ a controller without a reference
def alone(rep, prog):
    steps = 6 if rep.tier == 'thorough' else 4
    T = ('t', 'T')
    for n in (0, 1, 2, 3):
        rets, throws = make(prog, rep, T, 'C', n, {}, State())
        if not rep.require(rets and not throws, 'C22:construct:plain', 'a controller without delay and reference is rejected', SRC):
            continue
        todo = [(drop(s), None, None, 0) for s in rets]
        paths = 0
        while todo:
            s, cur, since, k = todo.pop()
            if k == steps:
                paths += 1
                continue
            s = s.gset(t=k + 1)
            t = sym('t%d' % (k + 1))
            text = 'a controller of %d phases, step %d' % (n, k + 1)
            ip = Interp(prog, hooks=HOOKS)
            rs, th = ip.run(prog.one(CO + '::evaluate'), s, ('ptr', T, ()), [])
            rep.analysed(ip)
            if not rep.require(rs and not th, 'C22:evaluate', text + ': it fails', SRC):
                continue
            for s2, _ in filter(lambda r: sane(r[0]), rs):
                got = events(s2)
                if n == 0:
                    rep.require(not got, 'C22:empty', text + ': the lights are told of a phase', SRC)
                    todo.append((drop(s2), None, None, k + 1))
                    continue
                stay = not got
                new = 0 if cur is None else (cur + 1) % n
                if cur is None:
                    if rep.require(got == entered('C', None, 0, n), 'C22:first', text + ': the first phase does not begin (%s)' % said(got), SRC):
                        current(rep, prog, s2, T, 'C', 0, t, text)
                        condition(rep, prog, s2, T, 'C', 0, n, text)
                        todo.append((drop(s2), 0, t, k + 1))
                    continue
                over = CASE.known(s2.facts, val(sym('dC%d' % cur)), val(t) - val(since))
                if stay:
                    rep.require(over <= {'>'}, 'C22:stays', text + ': phase %d stays though its duration may have elapsed' % cur, SRC)
                    current(rep, prog, s2, T, 'C', cur, since, text)
                    todo.append((drop(s2), cur, since, k + 1))
                elif rep.require(got == entered('C', cur, new, n), 'C22:next', text + ': phase %d is followed by %s' % (cur, said(got)), SRC):
                    rep.require(over <= {'<', '='}, 'C22:leaves', text + ': phase %d ends though its duration may not have elapsed' % cur, SRC)
                    current(rep, prog, s2, T, 'C', new, t, text)
                    todo.append((drop(s2), new, t, k + 1))
            if k == 1 and n:
                by_name(rep, prog, s, T, cur, n, text)
        rep.count('paths of a controller of %d phases' % n, paths)


def said(got):
    return ', '.join('%s %s' % x for x in got) or 'nothing'


def by_name(rep, prog, s, T, cur, n, text):
    """the action that sets a phase: that phase begins now, whatever has elapsed; a name that is none is an error"""
    K = NS + 'TrafficSignalControllerAction'
    R = ('t', 'action')
    t = sym('t%d' % s.g('t'))
    for i in range(n + 1):
        st = s.gset(scope=Table({'C': T}), attrs=Table({'phase': Sx('C%d' % i), 'trafficSignalControllerRef': Sx('C')}))
        ip = Interp(prog, hooks=HOOKS)
        made, th = ip.run(prog.one(K + '::TrafficSignalControllerAction'), st.put(R, mkobj(K)), ('ptr', R, ()), [sym('node'), ('alias', ('t', 'scope'), ())])
        if not rep.require(made and not th, 'C22:action:construct', 'the action that sets a phase is rejected', FILES[5]):
            return
        for s1, _ in made:
            ip2 = Interp(prog, hooks=HOOKS)
            rets, throws = ip2.run(prog.one(K + '::start'), s1, ('ptr', R, ()), [])
            rep.analysed(ip2)
            if i == n:
                rep.require(not rets and throws, 'C22:action:unknown', 'an action that sets a phase that the controller has not is carried out', SRC)
                continue
            rep.require(rets and not throws, 'C22:action', '%s: an action that sets phase %d fails' % (text, i), SRC)
            for s2, _ in rets:
                rep.require(events(s2) == entered('C', cur, i, n), 'C22:action:lights', '%s: setting phase %d tells the lights %s' % (text, i, said(events(s2))), SRC)
                current(rep, prog, s2, T, 'C', i, t, text)


# ------------------------------------------------------------------ a controller that follows another
def referring(rep, prog):
    steps = 5 if rep.tier == 'thorough' else 4
    A, B, L = ('t', 'A'), ('t', 'B'), ('t', 'L')
    for order in ('AB', 'BA'):
        for na, nb in ((2, 2), (1, 2), (2, 1)):
            states = [(s, None) for s in make(prog, rep, A, 'A', na, {}, State())[0]]
            states = [s2 for s, _ in states for s2 in make(prog, rep, B, 'B', nb, {'delay': dbl(sym('delay')), 'reference': Sx('A')}, s)[0]]
            roots = {'A': A, 'B': B}
            begun = []
            for s in states:
                s = s.gset(scope=Table({}), children=tuple(roots[x] for x in order)).put(L, mkobj(TS))
                ip = Interp(prog, hooks=BUILD)
                rs, th = ip.run(prog.one(TS + '::TrafficSignals', pred=lambda f: len(f.x['p']) == 2), s, ('ptr', L, ()), [sym('node'), ('alias', ('t', 'scope'), ())])
                rep.analysed(ip)
                begun += [s2 for s2, _ in rs]
            if not rep.require(begun, 'C22:resolve', 'a controller cannot refer to another', FILES[3]):
                continue
            todo = [(drop(s), {'A': None, 'B': None}, {'A': None, 'B': None}, None, 0) for s in begun]
            paths = 0
            while todo:
                s, cur, since, pending, k = todo.pop()
                if k == steps:
                    paths += 1
                    continue
                s = s.gset(t=k + 1)
                ip = Interp(prog, hooks=HOOKS)
                rs, th = ip.run(prog.one(TS + '::evaluate'), s, ('ptr', L, ()), [])
                rep.analysed(ip)
                text = 'controllers of %d and %d phases in the order %s, step %d' % (na, nb, order, k + 1)
                if not rep.require(rs and not th, 'C22:evaluate:all', text + ': the evaluation fails', FILES[3]):
                    continue
                for s2, _ in filter(lambda r: sane(r[0]), rs):
                    nxt = follow(rep, s2, order, (na, nb), dict(cur), dict(since), pending, sym('t%d' % (k + 1)), text)
                    if nxt:
                        todo.append((drop(s2),) + nxt + (k + 1,))
                        for x in 'AB':
                            if k < 3:
                                current(rep, prog, s2, roots[x], x, nxt[0][x], nxt[1][x], text)
            rep.count('paths of a controller that follows another', paths)


def follow(rep, s, order, ns, cur, since, pending, t, text):
    got = events(s)
    n = dict(zip('AB', ns))
    for x in order:
        # the events of this controller
        mine = []
        while got and got[0][1].startswith(x):
            mine.append(got.pop(0))
        c = cur[x]
        over = None if c is None else CASE.known(s.facts, val(sym('d%s%d' % (x, c))), val(t) - val(since[x]))
        begin = None
        if x == 'A':
            begin = {True} if c is None else {False}
        elif pending is None:
            begin = {False}
        else:
            # at the very limit both answers are alright: such a path is followed no further
            begin = {y for y, z in ((True, '<'), (False, '>')) if z in CASE.known(s.facts, pending, val(t))}
        leave = {False} if c is None else {y for y, z in ((True, '<'), (True, '='), (False, '>')) if z in over}
        for b, l in itertools.product(begin, leave):
            if not rep.require(tuple(entered(x, c, 0 if b else (c + 1) % n[x], n[x]) if b or l else ()) == tuple(mine), 'C22:follow:%s' % x,
                               '%s: controller %s (phase %s) tells the lights %s%s' % (text, x, c, said(mine), ', whether or not %s' % ('the delay has passed' if len(begin) > 1 else 'the duration has elapsed') if len(begin) * len(leave) > 1 else ''), SRC):
                return None
        if not begin:
            return None
        if mine:
            new = int(mine[-1][1][1:])
            if begin == {True}:
                pending = None          # the notification is spent
            cur[x], since[x] = new, t
            if x == 'A' and new == 0:
                pending = val(t) + val(sym('delay'))
    if not rep.require(not got, 'C22:follow:rest', '%s: the lights are told %s too' % (text, said(got)), SRC):
        return None
    return cur, since, pending


def references(rep, prog):
    """a reference has to name a controller, of the same cycle time"""
    A, B, L = ('t', 'A'), ('t', 'B'), ('t', 'L')
    for na, nb in itertools.product((0, 1, 2, 3), repeat=2):
        for known in (True, False):
            for s in make(prog, rep, A, 'A', na, {}, State())[0]:
                for s in make(prog, rep, B, 'B', nb, {'delay': dbl(sym('delay')), 'reference': Sx('A')}, s)[0]:
                    s = s.gset(scope=Table({'A': A} if known else {})).put(L, mkobj(TS, None, {TS + '::traffic_signal_controllers': ('list', (('ptr', A, ()), ('ptr', B, ())))}))
                    ip = Interp(prog, hooks=HOOKS)
                    rets, throws = ip.run(prog.one(TS + '::resolve_reference'), s, ('ptr', L, ()), [('alias', ('t', 'scope'), ())])
                    rep.analysed(ip)
                    if not known:
                        rep.require(not rets and throws, 'C22:resolve:unknown', 'a controller may refer to one that does not exist', FILES[3])
                        continue
                    a, b = (sum((Symbol('d%s%d' % (x, i), nonnegative=True) for i in range(n)), Integer(0)) for x, n in (('A', na), ('B', nb)))
                    text = 'controllers of %d and %d phases' % (na, nb)
                    for s2, _ in filter(lambda r: sane(r[0]), throws):
                        rep.require('=' not in CASE.known(s2.facts, a, b), 'C22:resolve:same', text + ': a reference is rejected though the cycle times may be the same', FILES[3])
                    for s2, _ in rets:
                        rep.require(CASE.known(s2.facts, a, b) <= {'='}, 'C22:resolve:different', text + ': a reference is accepted though the cycle times may differ', FILES[3])
                    rep.require(rets, 'C22:resolve:never', text + ': a reference is always rejected', FILES[3])


# ------------------------------------------------------------------ phases and their states
def state(i):
    return mkobj(ST, None, {ST + '::state': Sx('s%d' % i)})


def told_state(what):
    def h(ip, st, e, o, args, f):
        return [(st.event(what, dict(ip.load(st, o)[3])[ST + '::state'][1]), VOID if what == 'clear' else sym('unspecified'))]
    return h


def phases(rep, prog):
    hooks = [(r'TrafficSignalState::evaluate$', told_state('add')), (r'TrafficSignalState::clear$', told_state('clear'))] + [h for h in HOOKS if 'Phase' not in h[0]]
    R = ('t', 'phase')
    for n in range(4):
        for duration in (None, sym('d')):
            attrs = {'name': Sx('N')}
            if duration:
                attrs['duration'] = dbl(duration)
            ip = Interp(prog, hooks=hooks)
            made, th = ip.run(prog.one(PH + '::Phase'), State().gset(attrs=Table(attrs), elements=Table({'TrafficSignalState': tuple(state(i) for i in range(n))})).put(R, mkobj(PH)), ('ptr', R, ()),
                              [sym('node'), ('alias', ('t', 'scope'), ())])
            rep.analysed(ip)
            if not rep.require(made and not th, 'C22:phase:construct', 'a phase is rejected', FILES[1]):
                continue
            for s, _ in made:
                o = dict(ip.load(s, ('alias', R, ()))[3])
                d = o[PH + '::duration']
                d = dict(d[3])[DB + '::data'] if d[0] == 'obj' else d
                rep.require(o[PH + '::name'] == Sx('N') and d == (duration or ('f', float('inf'))), 'C22:phase:attributes', 'a phase does not keep its name and duration (without end where none is given)', FILES[1])
                for fn, what in (('evaluate', ('clear', 'add')), ('clearStates', ('clear',))):
                    ip2 = Interp(prog, hooks=hooks)
                    rets, throws = ip2.run(prog.one(PH + '::' + fn), s, ('ptr', R, ()), [])
                    rep.analysed(ip2)
                    rep.require(rets and not throws, 'C22:phase:' + fn, 'a phase fails', FILES[1])
                    for s2, _ in rets:
                        got = events(s2)
                        cut = len([x for x in got if x[0] == 'clear'])
                        ok = sorted(got[:cut]) == [('clear', 's%d' % i) for i in range(n)] and got[cut:] == ([('add', 's%d' % i) for i in range(n)] if fn == 'evaluate' else [])
                        rep.require(ok, 'C22:phase:%s:lights' % fn, 'a phase of %d states: %s' % (n, said(got)), FILES[1])


IDS = [('34', 'Conventional', False), ('34 conventional', 'Conventional', False), ('34 v2i', 'V2I', False), ('34 conventional_detected', 'Conventional', True), ('34 v2i_detected', 'V2I', True), ('34  v2i', 'V2I', False),
       ('7', 'Conventional', False), ('34 v2x', None, None), ('34 V2I', None, None), ('34 v2idetected', None, None), ('34 _detected', None, None), ('34 v2i_detected x', None, None), ('34 v2i x', None, None), ('x', None, None),
       ('x v2i', None, None), ('', None, None), ('34 detected', None, None), ('34 conventional_', None, None), ('34 v2i_detected_detected', None, None), ('v2i 34', None, None)]
STATES = ['green', 'red solidOn circle', 'unknown', 'red unknown circle', 'red, unknown']


def light(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        out.append((s.event(f['n'].split('::')[-1], *[ip.load(s, v) for v in vs]), VOID))
    return out


def states(rep, prog):
    hooks = [(r'(add|clear|set)(Conventional|V2I)(Detected)?TrafficLightsState$', light)] + HOOKS
    R = ('t', 'state')
    for (text, channel, detected), what in itertools.product(IDS, STATES):
        ip = Interp(prog, hooks=hooks)
        made, th = ip.run(prog.one(ST + '::TrafficSignalState'), State().gset(attrs=Table({'trafficSignalId': Sx(text), 'state': Sx(what)})).put(R, mkobj(ST)), ('ptr', R, ()), [sym('node'), ('alias', ('t', 'scope'), ())])
        rep.analysed(ip)
        where = 'the state "%s" of the signal "%s"' % (what, text)
        if channel is None or (not detected and 'unknown' in what):
            rep.require(th and not made, 'C22:state:accepted:%s' % ('id' if channel is None else 'unknown'), where + ' is accepted', STATE)
            continue
        if not rep.require(made and not th, 'C22:state:rejected', where + ' is rejected', STATE):
            continue
        for s, _ in made:
            for fn, verb in (('evaluate', 'add'), ('clear', 'clear')):
                ip2 = Interp(prog, hooks=hooks)
                rets, throws = ip2.run(prog.one(ST + '::' + fn), s, ('ptr', R, ()), [])
                rep.analysed(ip2)
                rep.require(rets and not throws, 'C22:state:' + fn, where + ': it fails', STATE)
                for s2, _ in rets:
                    got = events(s2)
                    name = '%s%s%sTrafficLightsState' % (verb, channel, 'Detected' if detected else '')
                    ok = len(got) == 1 and got[0][0] == name and number(got[0][1]) == int(text.split()[0]) and got[0][2:] == ((Sx(what),) if verb == 'add' else ())
                    rep.require(ok, 'C22:state:%s:light' % fn, '%s: %s tells %s' % (where, fn, got), STATE)


def number(v):
    if v[0] == 'i':
        return v[1]
    return int(v[2][1]) if v[0] == 'lexed' and v[2][0] == 's' else None
