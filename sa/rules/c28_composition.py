"""A storyboard works through its parts: what each composite element does with its children, and how its states are watched."""
import itertools
from ..facts import load
from ..absint import Interp, State, Sx, I, TRUE, FALSE, NIL, VOID, mkobj, of_get, strip_type
from ..json import JSON, BOOST, OBJECT, members, items
from .. import osc
from .c24_text import shown

OSI = 'openscenario/openscenario_interpreter/'
SYN, INC = OSI + 'src/syntax/', OSI + 'include/openscenario_interpreter/syntax/'
NS = 'openscenario_interpreter::'
SE, SES, SCOPE = NS + 'StoryboardElement', NS + 'StoryboardElementState', NS + 'Scope'
STATE, CALLBACKS, ELEMENTS, NAME = SE + '::current_state', SE + '::callbacks', SE + '::elements', SCOPE + '::name'
FAIL, PASS = NS + 'SpecialAction<1>', NS + 'SpecialAction<0>'
TH = ('t', 'this')
SHARED = {'standbyState': 'standby_state', 'runningState': 'running_state', 'completeState': 'complete_state', 'startTransition': 'start_transition',
          'endTransition': 'end_transition', 'stopTransition': 'stop_transition', 'skipTransition': 'skip_transition'}
KIDS = [('Storyboard', 'Story'), ('Story', 'Act'), ('Act', 'ManeuverGroup'), ('ManeuverGroup', 'Maneuver'), ('Maneuver', 'Event')]
SOURCES = ['storyboard', 'story', 'act', 'maneuver_group', 'maneuver', 'event', 'action', 'init', 'init_actions', 'private', 'storyboard_element_state', 'storyboard_element_state_condition']


def child(i):
    return ('c', i)


class Play:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        self.value = prog.records[SES]['f'][0]['q']
        self.names = {int(v): n for n, v in prog.enums[SES + '::value_type']['e']}
        ip = osc.interp(Interp, prog)
        self.shared = {n: ip.load(State(), ('alias', ('g', NS + g), ())) for n, g in SHARED.items()}
        rep.need(all(self.state(ip, State(), v) == n for n, v in self.shared.items()), 'the shared states vanished')

    def state(self, ip, s, v):
        """the name of a state"""
        v = ip.load(s, v)
        if v[0] == 'ptr':
            v = ip.loadraw(s, v[1:])
        x = of_get(v, self.value) if v[0] == 'obj' else v
        x = ip.resolve(s, x) if x is not None else None
        return self.names.get(x[1]) if x is not None and x[0] == 'i' else None

    def now(self, ip, s, root):
        return self.state(ip, s, ('alias', root, (STATE,)))

    def element(self, cls, state, ident, calls=1, **fields):
        """an element in a state, with callbacks for each state"""
        f = {STATE: self.shared[state], CALLBACKS: ('list', tuple(mkobj('std::pair', None, {'std::pair::first': I(k), 'std::pair::second': ('list', tuple(('cb', ident, n, j) for j in range(calls)))})
                                                                for k, n in sorted(self.names.items())))}
        f.update(fields)
        return mkobj(cls, ident, f)

    def stage(self, cls, kids, state='runningState', **fields):
        """an element and its children"""
        st = State()
        for i, (c, q) in enumerate(kids):
            st = st.put(child(i), self.element(NS + c, q, child(i)))
        f = {ELEMENTS: ('list', tuple(('ptr', child(i), ()) for i in range(len(kids)))), NAME: ('t', 'name')}
        f.update(fields)
        return st.put(TH, self.element(cls if cls.startswith(NS) else NS + cls, state, TH, **f))

    def go(self, fn, st, vals=(), hooks=(), this=('ptr', TH, ()), opaque=()):
        hooks = list(hooks) + [(r'^std::function<.*>::operator\(\)$', self.told), (r'openscenario_interpreter::Pointer<.*>::evaluate$', self.evaluated), (r'^std::invoke$', self.invoked)]
        ip = osc.interp(Interp, self.prog, hooks + JSON, opaque=opaque)
        ip.MAXREC = 8
        rets, throws = ip.run(self.prog.one(NS + fn) if isinstance(fn, str) else fn, st, this, list(vals))
        self.rep.analysed(ip)
        self.rep.count('paths', len(rets) + len(throws))
        return ip, rets, throws

    def invoked(self, ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            v = ip.load(s, vs[0])
            if v[0] != 'cb':
                return None
            out.append((s.event('told', v[1], v[2], v[3], not vs[1:]), VOID))
        return out

    def told(self, ip, st, e, o, args, f):
        v = ip.load(st, o) if o is not None else None
        if v is None or v[0] != 'cb':
            return None
        out = []
        for s, vs in ip.args(args, f, st):
            who = vs[0] if vs else None
            q = self.now(ip, s, v[1])
            s = s.event('told', v[1], v[2], v[3], q == v[2] and bool(who) and who[0] in ('alias', 'ptr') and who[1] == v[1])
            if s.g('moves') == v[2]:
                s = ip.store(s, (v[1], (STATE,)), self.shared['standbyState'])
            out.append((s, VOID))
        return out

    def evaluated(self, ip, st, e, o, args, f):
        """a child is evaluated: it works, or it fails in one of several ways"""
        v = ip.load(st, o)
        who = v[1] if v[0] == 'ptr' else v
        s = st.event('evaluate', who, self.now(ip, st, who) if who[0] == 'c' else None)
        if st.g('fails'):
            for x in FAIL, PASS, 'common::Error':
                ip.throw(s, mkobj(x, ('t', 'thrown', x, who), {FAIL + '::source_name': ('t', 'source', who), FAIL + '::path': ('t', 'path', who), FAIL + '::make_message': ('t', 'make', who)} if x == FAIL else {}))
        return [(s, ('ptr', ('t', 'result', who), ()))]

    def said(self, s, *kinds):
        return [x for x in s.g('trace', ()) if x[0] in kinds]


def run(rep):
    rep.rule = ('abstract interpretation of each function that a composite storyboard element applies to its children, over none to three children in every state and with every failure; '
                'calls, their order, and the states and errors they leave are compared with the definition')
    prog = load([SYN + x + '.cpp' for x in SOURCES])
    play = Play(rep, prog)
    transitions(rep, play)
    accomplished(rep, play)
    running(rep, play)
    stopping(rep, play)
    starting(rep, play)
    priorities(rep, play)
    reported(rep, play)
    watched(rep, play)
    built(rep, play)
    named(rep, play)
    initial(rep, play)
    shown_state(rep, play)


def where(cls):
    return SYN + {'Storyboard': 'storyboard', 'Story': 'story', 'Act': 'act', 'ManeuverGroup': 'maneuver_group', 'Maneuver': 'maneuver', 'Event': 'event', 'Action': 'action'}[cls] + '.cpp' if cls != SE else INC + 'storyboard_element.hpp'


def transitions(rep, play):
    W = INC + 'storyboard_element.hpp'
    for q, n, calls in itertools.product(SHARED, SHARED, (0, 1, 2)):
        if calls != 1 and q != 'runningState':
            continue
        st = State().put(TH, play.element(SE, q, TH, calls))
        ip, rets, throws = play.go('StoryboardElement::transitionTo', st, [play.shared[n]])
        want = [('told', TH, n, j, True) for j in range(calls)]
        rep.require(bool(rets) and not throws and all(play.now(ip, s, TH) == n and play.said(s, 'told') == want and [b for s2, b in ip.truth(s, ip.load(s, v))] == [True] for s, v in rets),
                    'C28:transition:%s' % n, 'a transition from %s to %s does not enter it, tell each of the %d that watch it once, with the element in that state, and confirm it' % (q, n, calls), W)
        if calls == 1 and q == 'standbyState' and n != 'standbyState':
            ip, rets, throws = play.go('StoryboardElement::transitionTo', st.gset(moves=n), [play.shared[n]])
            rep.require(bool(rets) and not throws and all(play.now(ip, s, TH) == 'standbyState' and [b for s2, b in ip.truth(s, ip.load(s, v))] == [False] for s, v in rets),
                        'C28:transition:%s' % n, 'a transition to %s that was undone by one that watches it is confirmed' % n, W)
    for n, k in ((n, k) for k, n in play.names.items()):
        st = State().put(TH, play.element(SE, 'standbyState', TH, 1)).put(('t', 'callback'), ('cb', TH, n, 'new'))
        ip, rets, throws = play.go('StoryboardElement::addTransitionCallback', st, [I(k), ('cb', TH, n, 'new')])
        ok = bool(rets) and not throws
        for s, v in rets:
            for m in SHARED:
                ip, r2, t2 = play.go('StoryboardElement::transitionTo', s, [play.shared[m]])
                ok = ok and bool(r2) and not t2 and all(play.said(s2, 'told') == [('told', TH, m, 0, True)] + ([('told', TH, n, 'new', True)] if m == n else []) for s2, v2 in r2)
        rep.require(ok, 'C28:watch:%s' % n, 'one that watches %s is not told, once, of exactly the transitions to it, after those before it' % n, W)


def accomplished(rep, play):
    W = INC + 'storyboard_element.hpp'
    for kids in [()] + [(q,) for q in SHARED] + list(itertools.product(SHARED, repeat=2)) + [tuple('completeState' if i != k else 'runningState' for i in range(3)) for k in range(4)]:
        st = play.stage(SE, [('Act', q) for q in kids])
        ip, rets, throws = play.go('StoryboardElement::accomplished', st)
        want = all(q == 'completeState' for q in kids)
        rep.require(bool(rets) and not throws and {b for s, v in rets for s2, b in ip.truth(s, ip.load(s, v))} == {want} and all(not s.g('trace') for s, v in rets),
                    'C28:accomplished', 'an element whose children are %s is %saccomplished' % (', '.join(kids) or 'none', 'not ' if want else ''), W)


def failure(ip, s, x, source, paths, make):
    """whether an error is the one that names where it came from"""
    f = lambda n: of_get(x, FAIL + '::' + n)
    got = tuple(shown(ip.load(s, f(n))) if f(n) is not None else None for n in ('source_name', 'path'))
    return x[1] == FAIL and got[0] == source and got[1] in paths and ip.load(s, f('make_message')) == make


def running(rep, play):
    for cls, kid in [(SE, 'Act')] + KIDS:
        for n in 0, 1, 2, 3:
            kids = [('InitActions' if cls == 'Storyboard' and i == 0 else kid, 'standbyState') for i in range(n)]
            st = play.stage(cls, kids).gset(fails=True)
            ip, rets, throws = play.go('StoryboardElement::run' if cls == SE else cls + '::run', st)
            W, name = where(cls), cls.split('::')[-1]
            seen = lambda s: [x[1] for x in play.said(s, 'evaluate')]
            rep.require(bool(rets) and all(seen(s) == [child(i) for i in range(n)] for s, v in rets), 'C28:run:' + name,
                        'a running %s does not evaluate each of its %d children once and in order, but %s' % (name, n, [seen(s) for s, v in rets]), W)
            left = {(i, x) for i in range(n) for x in (FAIL, PASS, 'common::Error')}
            for s, x in throws:
                who = seen(s)[-1:] or [None]
                i = who[0][1] if who[0] is not None else -1
                rep.require(seen(s) == [child(k) for k in range(i + 1)], 'C28:run:' + name, 'a running %s goes on after a child failed, or evaluates them in another order: %s' % (name, seen(s)), W)
                if x[2] is not None and x[2][:2] == ('t', 'thrown') and (cls == SE or x[1] != FAIL):
                    left.discard((i, x[1]))
                    rep.require(x[2] == ('t', 'thrown', x[1], child(i)), 'C28:run:' + name, 'another error gets out of a running %s than that of its child' % name, W)
                    continue
                index = i - 1 if cls == 'Storyboard' else i
                paths = [('.%s[%d]' % (kid, max(index, 0)), ('t', 'path', child(i))), ('.%s["' % kid, ('t', 'source', child(i)), '"]', ('t', 'path', child(i)))]
                ok = failure(ip, s, x, (('t', 'name'),), paths, ('t', 'make', child(i)))
                left.discard((i, FAIL))
                rep.require(ok, 'C28:path:' + name, 'a failure of the %s number %d of a %s is not reported as that: %s' % (kid, index, name, [shown(ip.load(s, of_get(x, FAIL + '::' + k))) if of_get(x, FAIL + '::' + k) is not None else None for k in ('source_name', 'path')]), W)
            rep.require(not left, 'C28:run:' + name, 'an error of a child does not get out of a running %s: %s' % (name, sorted(map(str, left))[:3]), W)


def stopping(rep, play):
    W = INC + 'storyboard_element.hpp'
    for kids in [()] + [(q,) for q in SHARED] + list(itertools.product(SHARED, repeat=2)):
        st = play.stage(SE, [('Act', q) for q in kids])
        ip, rets, throws = play.go('StoryboardElement::stop', st)
        want = [('evaluate', child(i), q if q in ('standbyState', 'completeState') else 'stopTransition') for i, q in enumerate(kids)]
        rep.require(bool(rets) and not throws and all(play.said(s, 'evaluate') == want for s, v in rets), 'C28:stop',
                    'stopping an element whose children are %s does not move those that were started to their stop and evaluate each once: %s' % (', '.join(kids) or 'none', [play.said(s, 'evaluate') for s, v in rets]), W)


def starting(rep, play):
    for cls, kid in ('ManeuverGroup', 'Maneuver'), ('Event', 'Action'):
        for kids in [()] + [(q,) for q in SHARED] + [tuple(q) for q in itertools.product(('standbyState', 'completeState', 'runningState'), repeat=3)]:
            st = play.stage(cls, [(kid, q) for q in kids], 'startTransition', **({NS + 'Event::priority': mkobj(NS + 'Priority', None, {NS + 'Priority::value': priority(play, 'parallel')})} if cls == 'Event' else {}))
            ip, rets, throws = play.go(cls + '::start', st)
            want = [('told', child(i), 'startTransition', 0, True) for i in range(len(kids))]
            rep.require(bool(rets) and not throws and all([play.now(ip, s, child(i)) for i in range(len(kids))] == ['startTransition'] * len(kids) and play.said(s, 'told', 'evaluate') == want and play.now(ip, s, TH) == 'startTransition' for s, v in rets),
                        'C28:start:' + cls, 'starting an element of type %s does not start each of its children (%s) once' % (cls, ', '.join(kids) or 'none'), where(cls))


def priority(play, name):
    for n, v in play.prog.enums[NS + 'Priority::value_type']['e']:
        if n == name:
            return I(int(v))


def priorities(rep, play):
    """events of one maneuver: the first is the one that starts"""
    M, E = NS + 'Maneuver', NS + 'Event'
    man = ('t', 'maneuver')
    for p in 'override', 'parallel', 'skip':
        for others in [()] + [(q,) for q in SHARED] + list(itertools.product(('standbyState', 'runningState', 'completeState', 'startTransition'), repeat=2)):
            if p == 'override' and 'startTransition' in others:
                continue                                     # only one event starts at a time
            st = State()
            for i, q in enumerate(others):
                st = st.put(child(i), play.element(E, q, child(i)))
            mine = {ELEMENTS: ('list', (('ptr', child(9), ()),)), E + '::priority': mkobj(NS + 'Priority', None, {NS + 'Priority::value': priority(play, p)}), E + '::parent_maneuver': ('alias', man, ())}
            st = st.put(child(9), play.element(NS + 'Action', 'standbyState', child(9))).put(TH, play.element(E, 'startTransition', TH, **mine))
            at = len(others) // 2
            events = [('ptr', child(i), ()) for i in range(len(others))]
            st = st.put(man, play.element(M, 'runningState', man, **{ELEMENTS: ('list', tuple(events[:at] + [('ptr', TH, ())] + events[at:]))}))
            ip, rets, throws = play.go('Event::start', st)
            stopped = {i for i, q in enumerate(others) if p == 'override' and q not in ('standbyState', 'completeState', 'stopTransition')}
            want = ['stopTransition' if i in stopped else q for i, q in enumerate(others)]
            for s, v in rets:
                got = [play.now(ip, s, child(i)) for i in range(len(others))]
                told = play.said(s, 'told')
                rep.require(got == want and play.now(ip, s, TH) == 'startTransition' and play.now(ip, s, child(9)) == 'startTransition' and not any(x[1] == TH for x in told)
                            and sorted(map(repr, told)) == sorted(map(repr, [('told', child(i), 'stopTransition', 0, True) for i in stopped] + [('told', child(9), 'startTransition', 0, True)])) and told[-1][1] == child(9),
                            'C28:priority:' + p, 'starting an event of priority %s beside others that are %s leaves them %s, tells of %s, and itself is %s' % (p, ', '.join(others) or 'none', ', '.join(map(str, got)), [x[1:3] for x in told], play.now(ip, s, TH)), SYN + 'event.cpp')
            rep.require(bool(rets) and not throws, 'C28:priority:' + p, 'starting an event of priority %s fails' % p, SYN + 'event.cpp')
    for qs in [()] + [(q,) for q in SHARED] + list(itertools.product(SHARED, repeat=2)) + list(itertools.product(('runningState', 'standbyState'), repeat=3)):
        st = play.stage('Maneuver', [('Event', q) for q in qs])
        ip, rets, throws = play.go('Maneuver::running_events_count', st)
        rep.require(bool(rets) and not throws and all(ip.load(s, v) == I(qs.count('runningState')) for s, v in rets), 'C28:running', 'the running ones of events that are %s are %s' % (', '.join(qs) or 'none', [ip.load(s, v) for s, v in rets]), SYN + 'maneuver.cpp')


def pair(a, b):
    return mkobj('std::pair', None, {'std::pair::first': a, 'std::pair::second': b})


def words(ip, s, t):
    """the pieces of a text, with what is quoted in quotes"""
    def plain(t):
        if t[0] == 'quoted':
            v = ip.load(s, t[1])
            return ('cat', Sx('"'), v, Sx('"'))
        return tuple(plain(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(plain(y) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) else x for x in t)
    return shown(plain(t))


def reported(rep, play):
    """an event says which of its conditions led to the failure"""
    W, C = SYN + 'event.cpp', INC + 'custom_command_action.hpp'
    N, D = ('t', 'condition'), ('t', 'what it says')
    begin = 'CustomCommandAction typed "exitFailure" was triggered by the '
    for conditions, want in (((), begin + 'Condition (.StartTrigger.ConditionGroup[2])'),
                             (((Sx(''), D),), (begin + 'anonymous Condition (.StartTrigger.ConditionGroup[2].Condition[0]): ', D)),
                             (((Sx('c'), D),), (begin + 'Condition named "c": ', D))):
        def base(ip, st, e, o, args, f):
            for x in FAIL, PASS, 'common::Error':
                ip.throw(st.event('base'), mkobj(x, ('t', 'thrown', x), {}))
            return [(st.event('base'), ('ptr', ('t', 'result'), ()))]
        hooks = [(r'StoryboardElement::evaluate$', base), (r'Trigger::activeConditionGroupIndex$', lambda ip, st, e, o, a, f: [(st, I(2))]),
                 (r'Trigger::activeConditionGroupDescription$', lambda ip, st, e, o, a, f: [(st, ('list', tuple(pair(*c) for c in conditions)))])]
        st = State().put(TH, play.element(NS + 'Event', 'runningState', TH, 1, **{NAME: ('t', 'name')}))
        ip, rets, throws = play.go('Event::evaluate', st, hooks=hooks)
        rep.require(bool(rets) and all(ip.load(s, v) == ('ptr', ('t', 'result'), ()) and len(play.said(s, 'base')) == 1 for s, v in rets), 'C28:event', 'the evaluation of an event is not that of the element', W)
        left = {FAIL, PASS, 'common::Error'}
        for s, x in throws:
            left.discard(x[1])
            if x[1] != FAIL:
                rep.require(x[2] == ('t', 'thrown', x[1]), 'C28:event', 'another error gets out of an event', W)
                continue
            f = lambda n: shown(ip.load(s, of_get(x, FAIL + '::' + n))) if of_get(x, FAIL + '::' + n) is not None else None
            rep.require((f('source_name'), f('path')) == ((('t', 'name'),), ('.StartTrigger.ConditionGroup[2]',)), 'C28:path:Event', 'a failure of an event is not reported with the group of conditions that started it: %s, %s' % (f('source_name'), f('path')), W)
            what = dict(x[3]).get(('base', 'std::runtime_error'))
            what = dict(what[3]).get('what') if what is not None and what[0] == 'obj' else None
            got = words(ip, s, what) if what is not None else None
            want = (want,) if isinstance(want, str) else want
            rep.require(got == want, 'C28:message', 'the failure of an event started by %d conditions is explained as %s' % (len(conditions), got), C)
        rep.require(not left, 'C28:event', 'an error of the element does not get out of an event: %s' % sorted(left), W)
    st = State().put(TH, mkobj(NS + 'Init', TH, {}))
    def thrown(ip, st, e, o, args, f):
        ip.throw(st, mkobj(FAIL, ('t', 'thrown'), {FAIL + '::source_name': ('t', 'source'), FAIL + '::path': ('t', 'path'), FAIL + '::make_message': ('t', 'make')}))
        return [(st.event('start'), VOID)]
    ip, rets, throws = play.go('Init::evaluateInstantaneousActions', st, hooks=[(r'InitActions::startInstantaneousActions$', thrown), (r'InitActions::runInstantaneousActions$', lambda ip, st, e, o, a, f: [(st.event('run'), VOID)])])
    rep.require(bool(rets) and all(play.said(s, 'start', 'run') == [('start',), ('run',)] for s, v in rets), 'C28:init', 'the initial actions are not started and then run', SYN + 'init.cpp')
    rep.require(bool(throws) and all(failure(ip, s, x, (), (('OpenSCENARIO.Storyboard.Init', ('t', 'path')), ('OpenSCENARIO.Storyboard.Init.', ('t', 'source'), ('t', 'path'))), ('t', 'make')) for s, x in throws),
                'C28:path:Init', 'a failure of the initial actions is not reported as one of Init', SYN + 'init.cpp')
    for name in ('startNonInstantaneousActions', 'runNonInstantaneousActions'):
        hooks = [(r'InitActions::(start|run)(Non)?InstantaneousActions$', lambda ip, st, e, o, a, f: [(st.event('asked', f['n'].split('::')[-1]), VOID)])]
        ip, rets, throws = play.go('Init::' + name, st, hooks=hooks)
        rep.require(bool(rets) and not throws and all(play.said(s, 'asked') == [('asked', name)] for s, v in rets), 'C28:init', 'Init does not %s of its actions' % name, SYN + 'init.cpp')


def watched(rep, play):
    """a condition on the state of an element, over all short histories of the element and of the evaluations"""
    W = SYN + 'storyboard_element_state_condition.cpp'
    C = NS + 'StoryboardElementStateCondition'
    el, node, scope, queue = ('t', 'element'), ('t', 'node'), ('t', 'scope'), ('g', NS + 'Storyboard::thunks')
    ctor = [f for f in play.prog.by_name.get(C + '::StoryboardElementStateCondition', []) if len(f.x['p']) == 2]
    rep.need(len(ctor) == 1, 'the state condition vanished')
    for k, n in sorted(play.names.items()):
        def attribute(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                a = ip.load(s, vs[0])
                out.append((s, mkobj(SES, None, {play.value: I(k)}) if a == Sx('state') else ('t', 'attribute', a)))
            return out
        def ref(ip, st, e, o, args, f):
            return [(s.gset(asked=s.g('asked', frozenset()) | {ip.load(s, vs[0])}), ('alias', el, ())) for s, vs in ip.args(args, f, st)]
        hooks = [(r'^openscenario_interpreter::readAttribute$', attribute), (r'^openscenario_interpreter::Scope::ref$', ref)]
        st = State().put(TH, mkobj(C, TH, {})).put(node, mkobj('pugi::xml_node')).put(scope, mkobj(SCOPE)).put(queue, ('list', ()))
        st = st.put(el, play.element(SE, 'standbyState', el, 0))
        ip, rets, throws = play.go(ctor[0], st, [('alias', node, ()), ('alias', scope, ())], hooks=hooks)
        if not rep.require(len(rets) == 1 and not throws, 'C28:condition', 'a state condition cannot be read', W):
            return
        s = rets[0][0]
        thunks = ip.load(s, ('alias', queue, ()))
        if not rep.require(thunks[0] == 'list' and len(thunks[1]) == 1, 'C28:condition', 'a state condition does not put off once that it watches its element', W):
            return
        r = ip.call_closure(thunks[1][0], s, [], {})
        if not rep.require(len(r) == 1, 'C28:condition', 'watching an element fails', W):
            return
        s = r[0][0].put(queue, ('list', ()))
        rep.require({x for x in s.g('asked', ())} == {('t', 'attribute', Sx('storyboardElementRef'))}, 'C28:condition', 'a state condition watches another element than the one it names', W)
        to, evaluate = play.prog.one(SE + '::transitionTo'), play.prog.one(C + '::evaluate')
        others = [q for q in ('runningState', 'completeState', 'standbyState') if q != n][:2]
        todo = [(s, (), False)]                              # state, history, whether the watched state was entered since the last evaluation
        while todo:
            s, past, entered = todo.pop()
            if len(past) == 5:
                continue
            for q in [n] + others:
                if past and past[-1] == q:
                    continue
                ip, r, t = play.go(to, s, [play.shared[q]], hooks=hooks, this=('ptr', el, ()))
                if not rep.require(len(r) == 1 and not t, 'C28:condition', 'telling a state condition fails', W):
                    return
                todo.append((r[0][0], past + (q,), entered or q == n))
            if past and past[-1] == 'evaluate' and past[-2:-1] == ('evaluate',):
                continue
            ip, r, t = play.go(evaluate, s, hooks=hooks)
            want = entered or play.now(ip, s, el) == n
            got = {b for s2, v in r for s3, b in ip.truth(s2, truth(ip, s2, v))}
            if not rep.require(bool(r) and not t and got == {want}, 'C28:condition', 'a condition on %s is %s at the end of the history %s, although the element %s' % (
                    n, ' or '.join(map(str, got)), ', '.join(past + ('evaluate',)), 'was in it since the last evaluation' if want else 'was not in it since the last evaluation'), W):
                return
            todo.append((r[0][0], past + ('evaluate',), False))


def truth(ip, s, v):
    v = ip.load(s, v)
    o = ip.loadraw(s, v[1:]) if v[0] == 'ptr' else v
    return of_get(o, osc.bool_field(ip))


NODE, INNER, MAN = ('t', 'node'), ('t', 'scope'), ('t', 'maneuver')
COMPOSITES = {
    # class: (children that are read, whether it may run several times, start trigger, stop trigger)
    'Storyboard': (['Story'], None, 'now', 'read'), 'Story': (['Act'], None, 'now', 'never'), 'Act': (['ManeuverGroup'], None, 'read', 'read'),
    'ManeuverGroup': (['Maneuver'], 'read', 'now', 'never'), 'Maneuver': (['Event'], None, 'now', 'never'), 'Event': (['Action'], 'read', 'read', 'never'),
}


def built(rep, play):
    """what a composite element consists of after it was read"""
    for cls, (kinds, limit, start, stop) in COMPOSITES.items():
        ctor = [f for f in play.prog.by_name.get(NS + cls + '::' + cls, []) if len(f.x['p']) >= 2 and 'xml_node' in f.x['p'][0]['t']]
        rep.need(len(ctor) == 1, '%s cannot be read any more' % cls)
        W = where(cls)

        def reads(kind, known={}):
            def h(ip, st, e, o, args, f):
                out = []
                for s, vs in ip.args(args, f, st):
                    n = ip.load(s, vs[0])
                    n = n[1] if n[0] == 's' else n
                    rest = tuple(ip.load(s, v) for v in vs[3:])
                    out.append((s.event('read', kind, n, vs[1][1] == NODE if vs[1][0] == 'alias' else None, rest), known.get(n, ('t', kind, n))))
                return out
            return h

        def traverse(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                n = ip.load(s, vs[1])
                branches = [s]
                for i in range(2):
                    branches = [s2 for b in branches for s2, v in ip.call_closure(ip.load(b, vs[2]), b, [('alias', ('n', n[1], i), ())], e)]
                out += [(b, VOID) for b in branches]
            return out

        def one(ip, st, e, o, args, f):
            return [(s.event('child', vs[0][1], strip_type((f.get('ta') or ['?'])[0])), ('ptr', ('read', vs[0][1]), ())) for s, vs in ip.args(args, f, st)]

        for p in (('override', 'parallel', 'skip') if cls == 'Event' else (None,)):
            known = {'priority': mkobj(NS + 'Priority', None, {NS + 'Priority::value': priority(play, p)})} if p else {}
            hooks = [(r'^openscenario_interpreter::readAttribute$', reads('attribute', known)), (r'^openscenario_interpreter::readElement$', reads('element')), (r'^openscenario_interpreter::traverse$', traverse),
                     (r'StoryboardElement::read(Cataloged)?StoryboardElement$', one), (r'Trigger::truthy$', lambda ip, st, e, o, a, f: [(st, ('t', 'truthy'))])]
            st = State().put(TH, mkobj(NS + cls, TH, {})).put(NODE, mkobj('pugi::xml_node')).put(INNER, mkobj(SCOPE)).put(MAN, mkobj(NS + 'Maneuver', MAN, {}))
            queue = ('g', NS + 'Storyboard::thunks')
            st = st.put(queue, ('list', tuple(('cb', TH, 'thunk', i) for i in range(3))))
            ip, rets, throws = play.go(ctor[0], st, [('alias', NODE, ()), ('alias', INNER, ())] + ([('alias', MAN, ())] if cls == 'Event' else []), hooks=hooks)
            if not rep.require(bool(rets) and not throws, 'C28:read:' + cls, '%s cannot be read' % cls, W):
                continue
            for s, v in rets:
                o = ip.loadraw(s, (TH, ()))
                f = lambda n: of_get(o, SE + '::' + n)
                kids = f('elements')
                kids = list(kids[1]) if kids is not None and kids[0] == 'list' else None
                want = [(k, i) for k in (['CatalogReference'] if cls == 'ManeuverGroup' else []) + kinds for i in range(2)]
                if cls == 'Storyboard':
                    first = kids[0] if kids else None
                    first = ip.loadraw(s, first[1:]) if first is not None and first[0] == 'ptr' else first
                    rep.require(first is not None and first[0] == 'obj' and first[1] == NS + 'InitActions', 'C28:read:Storyboard', 'the first part of a storyboard is not its initial actions', W)
                    kids = kids[1:] if kids else kids
                    rep.require([x[2:4] for x in play.said(s, 'told')] == [('thunk', i) for i in range(3)] and ip.load(s, ('alias', queue, ())) == ('list', ()), 'C28:thunks',
                                'what was put off while the storyboard was read is not done once and in order at its end: %s' % [x[2:4] for x in play.said(s, 'told')], W)
                    trace = [x[0] for x in s.g('trace')]
                    rep.require('told' not in trace[:max([i for i, x in enumerate(trace) if x == 'child'] + [0])], 'C28:thunks', 'what was put off is done before the storyboard was read', W)
                rep.require(kids == [('ptr', ('read', ('n', k, i)), ()) for k, i in want] and [x[1:] for x in play.said(s, 'child')] == [(('n', k, i), NS + kinds[0]) for k, i in want], 'C28:read:' + cls,
                            'the children of %s are not its parts %s in order' % (cls, ' and '.join(sorted({k for k, i in want}))), W)
                read = {x[2]: x for x in play.said(s, 'read')}
                n = ip.load(s, f('maximum_execution_count'))
                if limit is None:
                    rep.require(n == I(1), 'C28:limit:' + cls, '%s can be executed %s times' % (cls, n), W)
                else:
                    rep.require(repr(('t', 'attribute', 'maximumExecutionCount')) in repr(n), 'C28:limit:' + cls, '%s is not executed as often as it says, but %s times' % (cls, n), W)
                    if cls == 'Event':
                        d = read.get('maximumExecutionCount', (None,) * 5)[4]
                        rep.require(bool(d) and repr(('i', 1)) in repr(d), 'C28:limit:' + cls, 'an event that does not say how often is not executed once', W)
                rep.require(f('current_execution_count') == I(0) and play.now(ip, s, TH) == 'standbyState', 'C28:read:' + cls, 'a new %s is not waiting, or was executed' % cls, W)
                b = f('start_trigger')
                if start == 'read':
                    rep.require(b == ('t', 'element', 'StartTrigger') and read['StartTrigger'][4] in ((('t', 'truthy'),),), 'C28:triggers:' + cls, 'a %s does not start on its trigger, or at once if it has none' % cls, W)
                else:
                    rep.require(dict(b[3]).get('<c>') == ('list', (mkobj(NS + 'ConditionGroup', None, {'<c>': ('list', ())}),)), 'C28:triggers:' + cls, 'a %s does not start at once' % cls, W)
                b = f('stop_trigger')
                rep.require(b == ('t', 'element', 'StopTrigger') and read['StopTrigger'][4] == () if stop == 'read' else dict(b[3]).get('<c>') == ('list', ()), 'C28:triggers:' + cls, 'a %s is not stopped by %s' % (cls, 'its trigger' if stop == 'read' else 'its parent only'), W)
                if cls != 'Event':
                    continue
                rep.require(o is not None and (of_get(o, NS + 'Event::parent_maneuver') or ())[:2] == ('alias', MAN) and of_get(o, NS + 'Event::priority') == known['priority'], 'C28:read:Event', 'an event does not keep its priority and its maneuver', W)
                for others in [()] + [(q,) for q in SHARED] + [('standbyState', 'runningState'), ('completeState', 'standbyState')]:
                    s2 = s
                    for i, q in enumerate(others):
                        s2 = s2.put(child(i), play.element(NS + 'Event', q, child(i), 0))
                    s2 = s2.put(MAN, play.element(NS + 'Maneuver', 'runningState', MAN, 0, **{ELEMENTS: ('list', tuple(('ptr', child(i), ()) for i in range(len(others))))}))
                    ip2, r2, t2 = play.go('StoryboardElement::transitionTo', s2, [play.shared['startTransition']], hooks=hooks)
                    skips = p == 'skip' and 'runningState' in others
                    rep.require(bool(r2) and not t2 and all(play.now(ip2, s3, TH) == ('standbyState' if skips else 'startTransition') and [b for s4, b in ip2.truth(s3, ip2.load(s3, v3))] == [not skips] for s3, v3 in r2),
                                'C28:skip', 'an event of priority %s that is to start beside others that are %s %s' % (p, ', '.join(others) or 'none', 'is not skipped' if skips else 'is skipped'), W)


def named(rep, play):
    """parts of an element have different names, by which they are found"""
    W = INC + 'storyboard_element.hpp'
    fn = [f for f in play.prog.by_name.get(SE + '::readStoryboardElement', [])]
    rep.need(len(fn) >= 6, 'reading of parts vanished')
    for f in fn:
        for name, before in (('a', ()), ('a', ('b',)), ('a', ('a',)), ('a', ('b', 'a')), ('', ('a',))):
            hooks = [(r'^openscenario_interpreter::readAttribute$', lambda ip, st, e, o, a, f: [(s.event('attribute', ip.load(s, vs[0])), Sx(name)) for s, vs in ip.args(a, f, st)]),
                     (r'^openscenario_interpreter::make$', lambda ip, st, e, o, a, f: [(s.event('make', strip_type((f.get('ta') or ['?'])[0]), tuple(v[1] for v in vs[:2])), ('ptr', ('t', 'made'), ())) for s, vs in ip.args(a, f, st)]),
                     (r'^std::(__cxx11::)?to_string$', lambda ip, st, e, o, a, f: [(s, Sx(''.join(c for c in repr(ip.load(s, vs[0])) if c.isalnum()))) for s, vs in ip.args(a, f, st)]),
                     (r'openscenario_interpreter::Scope::insert$', lambda ip, st, e, o, a, f: [(s.event('insert', o[1] if o[0] == 'alias' else ip.load(s, o)[1], ip.load(s, vs[0]), ip.load(s, vs[1])), VOID) for s, vs in ip.args(a, f, st)])]
            st = State().put(TH, mkobj(SE, TH, {SE + '::names': ('list', tuple(Sx(x) for x in before))})).put(NODE, mkobj('pugi::xml_node')).put(INNER, mkobj(SCOPE)).put(('t', 'made'), mkobj(NS + 'Act', ('t', 'made'), {}))
            st = st.put(MAN, mkobj(NS + 'Maneuver', MAN, {}))
            ip, rets, throws = play.go(f, st, [('alias', NODE, ()), ('alias', INNER, ())] + [('alias', MAN, ())] * (len(f.x['p']) - 2), hooks=hooks)
            if name in before:
                rep.require(not rets and bool(throws) and all(x[1] == 'common::SyntaxError' for s, x in throws), 'C28:name', 'two parts of one element can have the same name', W)
                continue
            ok = bool(rets) and not throws
            for s, v in rets:
                ins, made, names = play.said(s, 'insert'), play.said(s, 'make'), ip.load(s, ('alias', TH, (SE + '::names',)))
                called = ins[0][2] if ins else None
                called = next((v for k, v in called[3] if isinstance(k, tuple) and k[0] == 'base'), called) if called is not None and called[0] == 'obj' else called
                ok = ok and ip.load(s, v) == ('ptr', ('t', 'made'), ()) and len(ins) == 1 and len(made) == 1 and made[0][2] == (NODE, INNER) and ins[0][1] == INNER and ins[0][3] == ('ptr', ('t', 'made'), ())
                ok = ok and play.said(s, 'attribute') == [('attribute', Sx('name'))] and (called == Sx(name) if name else called not in (Sx(''), Sx('a')) and 'anonymous-' in repr(called)) and names == ('list', tuple(Sx(x) for x in before) + (called,))
                if not name:
                    ip2, r2, t2 = play.go(f, s, [('alias', NODE, ()), ('alias', INNER, ())] + [('alias', MAN, ())] * (len(f.x['p']) - 2), hooks=hooks)
                    ok = ok and bool(r2) and not t2 and all(len(play.said(s2, 'insert')) == 2 for s2, v2 in r2)
            rep.require(ok, 'C28:name', 'a part with the %s name %r beside %s is not made once, and found by its name' % ('new' if name else 'empty', name, ', '.join(before) or 'none'), W)

    fn = play.prog.by_name.get(SE + '::readCatalogedStoryboardElement', [])
    rep.need(fn, 'reading of parts from a catalog vanished')
    for f in fn:
        for name, before in (('a', ()), ('a', ('b',)), ('a', ('a',)), ('a', ('b', 'a'))):
            hooks = [(r'openscenario_interpreter::CatalogReference::CatalogReference$', lambda ip, st, e, o, a, f: [(s.event('refer', tuple(v[1] for v in vs[:2])), mkobj(NS + 'CatalogReference', ('t', 'reference'), {})) for s, vs in ip.args(a, f, st)] if len(a) == 2 else None),
                     (r'openscenario_interpreter::CatalogReference::make$', lambda ip, st, e, o, a, f: [(st.event('make'), ('ptr', ('t', 'made'), ()))]),
                     (r'openscenario_interpreter::Scope::insert$', lambda ip, st, e, o, a, f: [(s.event('insert', o[1] if o[0] == 'alias' else ip.load(s, o)[1], ip.load(s, vs[0]), ip.load(s, vs[1])), VOID) for s, vs in ip.args(a, f, st)])]
            st = State().put(TH, mkobj(SE, TH, {SE + '::names': ('list', tuple(Sx(x) for x in before))})).put(NODE, mkobj('pugi::xml_node')).put(INNER, mkobj(SCOPE))
            st = st.put(('t', 'made'), mkobj(NS + 'Maneuver', ('t', 'made'), {NAME: Sx(name)}))
            ip, rets, throws = play.go(f, st, [('alias', NODE, ()), ('alias', INNER, ())], hooks=hooks)
            if name in before:
                rep.require(not rets and bool(throws) and all(x[1] == 'common::SyntaxError' for s, x in throws), 'C28:name', 'a part from a catalog can have the name of another part', W)
                continue
            ok = bool(rets) and not throws
            for s, v in rets:
                ins = play.said(s, 'insert')
                called = ins[0][2] if ins else None
                called = next((v for k, v in called[3] if isinstance(k, tuple) and k[0] == 'base'), called) if called is not None and called[0] == 'obj' else called
                ok = ok and play.said(s, 'refer', 'make') == [('refer', (NODE, INNER)), ('make',)] and len(ins) == 1 and ins[0][1] == INNER and called == Sx(name) and ins[0][3] == ip.load(s, v) == ('ptr', ('t', 'made'), ())
                ok = ok and ip.load(s, ('alias', TH, (SE + '::names',))) == ('list', tuple(Sx(x) for x in before + (name,)))
            rep.require(ok, 'C28:name', 'a part from a catalog beside %s is not made once, and found by its name' % (', '.join(before) or 'none'), W)


def act(ends, done, throws=False):
    """hooks for the actions themselves: each says what it is asked for"""
    def which(st, o):
        return (o[1],) + tuple(x for x in o[2] if x[0] != 'base')

    def do(what):
        def h(ip, st, e, o, args, f):
            s = st.event(what, which(st, o))
            if throws:
                ip.throw(s, mkobj(FAIL, ('t', 'thrown'), {FAIL + '::source_name': ('t', 'source'), FAIL + '::path': ('t', 'path'), FAIL + '::make_message': ('t', 'make')}))
                return []
            return [(s, VOID)]
        return h

    def say(f0):
        return lambda ip, st, e, o, args, f: [(st, ('b', f0(which(st, o))))]

    K = r'openscenario_interpreter::(GlobalAction|UserDefinedAction|PrivateAction)::'
    return [(K + 'start$', do('start')), (K + 'run$', do('run')), (K + 'endsImmediately$', say(ends)), (K + 'accomplished$|openscenario_interpreter::Pointer<.*>::accomplished$', say(done))]


def initial(rep, play):
    """the initial actions: those that end immediately happen before the others, each of them once"""
    I_, P_ = NS + 'InitActions', NS + 'Private'
    W, WP = SYN + 'init_actions.cpp', SYN + 'private.cpp'
    fields = {'g': I_ + '::global_actions', 'u': I_ + '::user_defined_actions', 'p': I_ + '::privates'}
    rep.need(all(any(x['q'] == q for x in play.prog.records[I_]['f']) for q in fields.values()), 'the lists of initial actions vanished')
    PA = P_ + '::private_actions'

    def scene(ng, us, ps):
        st = State()
        g = [('g', i) for i in range(ng)]
        u = [('u', i, q) for i, q in enumerate(us)]
        for r in g:
            st = st.put(r, mkobj(NS + 'GlobalAction', r, {}))
        for r in u:
            st = st.put(r, mkobj(NS + 'UserDefinedAction', r, {}))
        p = []
        for i, qs in enumerate(ps):
            r = ('p', i, qs)
            st = st.put(r, mkobj(P_, r, {PA: ('list', tuple(mkobj(NS + 'PrivateAction', ('pa', i, j), {}) for j in range(len(qs))))}))
            p.append(r)
        o = {q: ('list', tuple(('ptr', r, ()) for r in x)) for q, x in ((fields['g'], g), (fields['u'], u), (fields['p'], p))}
        st = st.put(TH, play.element(I_, 'runningState', TH, 0, **o))
        flat = {'G': [(r,) for r in g], 'U': [((r,), r[2]) for r in u], 'P': [((r, PA, ('ix', j)), q) for r in p for j, q in enumerate(r[2])]}
        return st, flat

    def ends(w):
        r = w[0]
        return True if r[0] == 'g' else r[2] if r[0] == 'u' else r[2][w[-1][1]]

    scenes = [(ng, us, ps) for ng in (0, 1, 2) for us in ((), (True,), (False,), (True, False), (False, True)) for ps in ((), ((True,),), ((False, True),), ((True, False), (False,)))]
    for ng, us, ps in scenes:
        st, flat = scene(ng, us, ps)
        now = flat['G'] + [w for w, q in flat['U'] if q] + [w for w, q in flat['P'] if q]
        later = [w for w, q in flat['U'] if not q] + [w for w, q in flat['P'] if not q]
        for name, what, want in (('startInstantaneousActions', 'start', now), ('runInstantaneousActions', 'run', now), ('startNonInstantaneousActions', 'start', later), ('runNonInstantaneousActions', 'run', later),
                                 ('start', 'start', later), ('run', 'run', later)):
            ip, rets, throws = play.go('InitActions::' + name, st, hooks=act(ends, None))
            rep.require(bool(rets) and not throws and all([x for x in play.said(s, 'start', 'run')] == [(what, w) for w in want] for s, v in rets), 'C28:initial:' + name,
                        '%s of %d global, %d user-defined and %d private actions is not a %s of each that %s, once and in order' % (
                            name, ng, len(us), len(flat['P']), what, 'ends immediately' if want is now else 'takes time'), W)
        every = flat['G'] + [w for w, q in flat['U']] + [w for w, q in flat['P']]
        for undone in [None] + every:
            ip, rets, throws = play.go('InitActions::accomplished', st, hooks=act(ends, lambda w: w != undone))
            rep.require(bool(rets) and not throws and all({b for s2, b in ip.truth(s, ip.load(s, v))} == {undone is None} for s, v in rets), 'C28:initial:accomplished',
                        'the initial actions are %s although %s' % (('not done', 'all of them are') if undone is None else ('done', 'one of them is not')), W)
        for p_ in [w for w in {w[0] for w, q in flat['P']}]:
            mine = [(w, q) for w, q in flat['P'] if w[0] == p_]
            for name in ('endsImmediately',):
                ip, rets, throws = play.go('Private::' + name, st, hooks=act(ends, None), this=('ptr', p_, ()))
                rep.require(bool(rets) and not throws and all({b for s2, b in ip.truth(s, ip.load(s, v))} == {all(q for w, q in mine)} for s, v in rets), 'C28:initial:Private', 'private actions end immediately although one does not, or the reverse', WP)
    # an initial action that fails is named
    for us in ((True,), (False, True), (True, True)):
        st, flat = scene(0, us, ())
        ip, rets, throws = play.go('InitActions::startInstantaneousActions', st, hooks=act(ends, None, True))
        rep.require(not rets and bool(throws) and all(x[1] == FAIL for s, x in throws), 'C28:initial:failure', 'an initial user-defined action that fails lets the scenario go on', W)
    # what is read
    ctor = [f for f in play.prog.by_name.get(I_ + '::InitActions', []) if len(f.x['p']) == 2]
    rep.need(len(ctor) == 1, 'reading of the initial actions vanished')
    names = ('GlobalAction', 'Private', 'UserDefinedAction', 'comment')
    for order in [()] + [(x,) for x in names] + list(itertools.product(names[:3], repeat=2)) + [('Private', 'comment', 'GlobalAction', 'Private')]:
        hooks = [(r'^pugi::xml_node::children$', lambda ip, st, e, o, a, f: [(s, ('list', tuple(mkobj('pugi::xml_node', ('n', i, x), {}) for i, x in enumerate(order)))) for s, vs in ip.args(a, f, st)]),
                 (r'^pugi::xml_node::name$', lambda ip, st, e, o, a, f: [(st, Sx(node(ip, st, o)[2]))]),
                 (r'^openscenario_interpreter::make$', lambda ip, st, e, o, a, f: [(s, ('ptr', ('made', strip_type((f.get('ta') or ['?'])[0]), node(ip, s, vs[0]), vs[1][1]), ())) for s, vs in ip.args(a, f, st)] if len(a) == 2 else None)]
        st = State().put(TH, mkobj(I_, TH, {})).put(NODE, mkobj('pugi::xml_node', NODE, {})).put(INNER, mkobj(SCOPE))
        ip, rets, throws = play.go(ctor[0], st, [('alias', NODE, ()), ('alias', INNER, ())], hooks=hooks)
        ok = bool(rets) and not throws
        for s, v in rets:
            o = ip.loadraw(s, (TH, ()))
            for k, kind in (('g', 'GlobalAction'), ('u', 'UserDefinedAction'), ('p', 'Private')):
                want = tuple(('ptr', ('made', NS + kind, ('n', i, x), INNER), ()) for i, x in enumerate(order) if x == kind)
                got = of_get(o, fields[k])
                ok = ok and got is not None and got == ('list', want)
        rep.require(ok, 'C28:initial:read', 'the initial actions %s are not kept each, by kind and in order' % ', '.join(order), W)


def node(ip, st, o):
    """the identity of an xml node"""
    v = ip.load(st, o)
    return v[2] if v[0] == 'obj' else o[1]


REPORTS = {
    'Storyboard': {'currentState', 'Init', 'Story', 'StopTrigger'}, 'Story': {'name', 'currentState', 'Act'}, 'Act': {'name', 'currentState', 'ManeuverGroup', 'StartTrigger', 'StopTrigger'},
    'ManeuverGroup': {'name', 'currentState', 'currentExecutionCount', 'maximumExecutionCount', 'Maneuver'}, 'Maneuver': {'name', 'currentState', 'Event'},
    'Event': {'name', 'currentState', 'currentExecutionCount', 'maximumExecutionCount', 'Action', 'StartTrigger'},
}


def shown_state(rep, play):
    """the status that is published says the state of each element"""
    out = ('t', 'json')

    def put(ip, st, e, o, args, f):
        """a part that is written"""
        r = []
        for s, vs in ip.args(args, f, st):
            if len(vs) != 2 or vs[0][0] not in ('alias', 'ptr') or vs[0][1] == out and not vs[0][2] or vs[1][0] not in ('alias', 'ptr'):
                return None
            c = ip.loadraw(s, (vs[0][1], vs[0][2]))
            if c[0] != 'obj' or c[1] != OBJECT:
                return None
            who = (vs[1][1],) + tuple(x for x in vs[1][2] if x[0] != 'base')
            r.append((ip.store(s, (vs[0][1], vs[0][2]), mkobj(OBJECT, None, {**dict(c[3]), ('json', Sx('of')): ('t', 'of') + who})), vs[0]))
        return r

    def text(ip, st, e, o, args, f):
        return [(s, Sx(play.state(ip, s, vs[0]) or '?')) for s, vs in ip.args(args, f, st)]

    def kind(ip, st, e, o, args, f):
        return [(s, ('t', 'typename') + tuple(ip.load(s, v) for v in vs)) for s, vs in ip.args(args, f, st)]

    hooks = BOOST + [(r'operator<<$', put), (r'^boost::lexical_cast$', text), (r'openscenario_interpreter::makeTypename$', kind),
                     (r'openscenario_interpreter::Pointer<.*>::type$', lambda ip, st, e, o, a, f: [(st, ('t', 'typeof', (o[1],) + tuple(x for x in o[2] if x[0] != 'base')))]), (r'type_info::name$', lambda ip, st, e, o, a, f: [(st, ip.load(st, o))])]

    def write(cls, st):
        fn = [f for n in play.prog.by_name if n.endswith('::operator<<') for f in play.prog.by_name[n] if len(f.x['p']) == 2 and 'boost::json::object' in f.x['p'][0]['t'] and strip_type(f.x['p'][1]['t']) == NS + cls]
        rep.need(len(fn) == 1, 'the status of a %s vanished' % cls)
        ip, rets, throws = play.go(fn[0], st.put(out, mkobj(OBJECT, None, {})), [('alias', out, ()), ('alias', TH, ())], hooks=hooks, this=None)
        ok = len(rets) == 1 and not throws
        return ip, rets, members(ip.loadraw(rets[0][0], (out, ()))) or {} if ok else None

    def of(v):
        m = members(v) or {}
        return m['of'][2:] if set(m) == {'of'} else None

    for cls, keys in REPORTS.items():
        W = where(cls)
        part = dict(KIDS + [('Event', 'Action')])[cls]
        for q in SHARED:
            for kids in ((), ('standbyState',), ('runningState', 'completeState')):
                st = play.stage(cls, [(part, k) for k in kids], q, **{NAME: ('t', 'name'), SE + '::current_execution_count': ('t', 'now'), SE + '::maximum_execution_count': ('t', 'limit')})
                if cls == 'Storyboard':
                    st = st.put(('t', 'init'), mkobj(NS + 'InitActions', ('t', 'init'), {}))
                    old = dict(ip_raw(play, st, TH)[3])
                    st = st.put(TH, mkobj(NS + cls, TH, {**old, ELEMENTS: ('list', (('ptr', ('t', 'init'), ()),) + old[ELEMENTS][1])}))
                ip, rets, m = write(cls, st)
                if not rep.require(m is not None and set(m) == keys, 'C28:status:' + cls, 'the status of a %s says %s instead of %s' % (cls, sorted(m or ()), sorted(keys)), W):
                    continue
                s = rets[0][0]
                ok = m['currentState'] == Sx(q) and ('name' not in keys or m['name'] == ('t', 'name'))
                rep.require(ok, 'C28:status:' + cls, 'the status of a %s in %s says %s' % (cls, q, m['currentState']), W)
                if 'currentExecutionCount' in keys:
                    rep.require(m['currentExecutionCount'] == ('t', 'now') and m['maximumExecutionCount'] == ('t', 'limit'), 'C28:status:' + cls, 'the status of a %s does not say how often it was and may be executed' % cls, W)
                rep.require([of(x) for x in items(m[part]) or ()] == [(child(i),) for i in range(len(kids))] and (bool(kids) or items(m[part]) == ()), 'C28:status:' + cls, 'the status of a %s does not say that of each of its parts, in order' % cls, W)
                for k, field in (('StartTrigger', SE + '::start_trigger'), ('StopTrigger', SE + '::stop_trigger'), ('Init', NS + 'Storyboard::init')):
                    if k in keys:
                        rep.require(of(m[k]) == (TH, field), 'C28:status:' + cls, 'the status of a %s shows %s as its %s' % (cls, of(m[k]), k), W)
    W = SYN + 'init_actions.cpp'
    IA_, P_ = NS + 'InitActions', NS + 'Private'
    for n in (0, 1, 2):
        f = {IA_ + '::' + k: ('list', tuple(('ptr', (k, i), ()) for i in range(n))) for k in ('global_actions', 'user_defined_actions', 'privates')}
        st = State().put(TH, mkobj(IA_, TH, f))
        for k, c in (('global_actions', 'GlobalAction'), ('user_defined_actions', 'UserDefinedAction'), ('privates', 'Private')):
            for i in range(n):
                st = st.put((k, i), mkobj(NS + c, (k, i), {}))
        ip, rets, m = write('InitActions', st)
        if rep.require(m is not None and set(m) == {'GlobalAction', 'UserDefinedAction', 'Private'}, 'C28:status:InitActions', 'the status of the initial actions does not say each kind', W):
            for k, c in (('global_actions', 'GlobalAction'), ('user_defined_actions', 'UserDefinedAction')):
                rep.require([(members(x) or {}).get('type') for x in items(m[c]) or ()] == [('t', 'typename', ('t', 'typeof', ((k, i),))) for i in range(n)], 'C28:status:InitActions', 'the status of the initial actions does not say the type of each %s' % c, W)
            rep.require([of(x) for x in items(m['Private']) or ()] == [(('privates', i),) for i in range(n)], 'C28:status:InitActions', 'the status of the initial actions does not show each Private', W)


def ip_raw(play, st, root):
    return Interp(play.prog).loadraw(st, (root, ()))
