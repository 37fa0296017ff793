"""Custom commands: the command a type text names, its arguments and its effect."""
from ..facts import load
from ..absint import Interp, State, mkobj, VOID, I, TRUE, FALSE, NIL, Sx, of_get
from .. import osc

NS = 'openscenario_interpreter::'
CC = NS + 'CustomCommand'
X, SC = ('t', 'x'), ('t', 'scope')
ME = ('ptr', X, ())
SRC = 'openscenario/openscenario_interpreter/src/syntax/custom_command_action.cpp'
MSG = 'tier4_simulation_msgs::msg::'

# type text -> arguments; the effect is looked up by the name
ARGUMENTS = [('', []), ('()', []), ('(a)', ['a']), ('(a,b)', ['a', 'b']), ('(a, b)', ['a', 'b']), ('(a,  b, c)', ['a', 'b', 'c']), ('("x, (y) z", b)', ['"x, (y) z"', 'b']), ('(1.5, -2, "")', ['1.5', '-2', '""'])]


class C(Interp):
    pass


def root_of(ip, s, v):
    v = ip.load(s, v) if v[0] != 'alias' else v
    return v[1] if v[0] in ('alias', 'ptr') else v


def named(what):
    def h(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            n = tuple(ip.load(s, v)[1] for v in vs if ip.load(s, v)[0] == 's')
            out.append((s, ('alias', ('t', (what,) + n), ())))
        return out
    return h


def pointer(what):
    def h(ip, st, e, o, args, f):
        return [(s, ('ptr', ('t', (what,)), ())) for s, vs in ip.args(args, f, st)]
    return h


def effect(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        obj = root_of(ip, s, o) if o is not None else None
        obj = obj[1] if isinstance(obj, tuple) and len(obj) == 2 and isinstance(obj[1], tuple) and 'core' not in str(obj) else ('core',)
        out.append((s.event('do', obj, f['n'].split('::')[-1], *[ip.load(s, v) for v in vs]), VOID))
    return out


def first_ego(ip, st, e, o, args, f):
    return [(st, ('obj', 'std::optional', None, (('some', Sx('ego')),)) if False else ('some', Sx('ego')))]


def publish(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        out.append((s.event('publish', ip.load(s, vs[0])), VOID))
    return out


def forked(ip, st, e, o, args, f):
    return [(s.event('fork_exec', *[ip.load(s, v) for v in vs]), I(4711)) for s, vs in ip.args(args, f, st)]


def actor_apply(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        a = ip.load(s, o)
        states = [s]
        for n in a[2][1]:
            states = [s3 for s2 in states for s3, _ in ip.call_closure(ip.load(s2, vs[0]), s2, [mkobj(NS + 'Entity', ('object', n))], e)]
        out += [(s2, VOID) for s2 in states]
    return out


def object_name(ip, st, e, o, args, f):
    v = ip.load(st, o)
    return [(st, Sx(v[2][1]))] if v[0] == 'obj' and v[2] and v[2][0] == 'object' else None


def lexical(ip, st, e, o, args, f):
    t = ip.prog and (f.get('ta') or ['?'])[0]
    out = []
    for s, vs in ip.args(args, f, st):
        v = ip.load(s, vs[0])
        if v[0] != 's':
            return None
        try:
            out.append((s, ('f', float(v[1])) if t == 'double' else I(int(v[1])) if 'int' in t or 'long' in t else None))
        except ValueError:
            ip.throw(s, mkobj('boost::bad_lexical_cast'))
        if out and out[-1][1] is None:
            return None
    return out


def clock(ip, st, e, o, args, f):
    return [(st, ('f', 10.0))]


HOOKS = [(r'^boost::lexical_cast$', lexical), (r'traffic_simulator::API::getEntity$', named('entity')), (r'traffic_simulator::API::getEgoEntity$', named('ego')),
         (r'traffic_simulator::API::getFirstEgoName$', first_ego), (r'::getConventionalTrafficLights$', pointer('conventional')), (r'::getV2ITrafficLights$', pointer('v2i')),
         (r'^traffic_simulator::.*::(requestWalkStraight|setTrafficLightsState|setTrafficLightsConfidence|resetUpdate|sendCooperateCommand|setTrafficSignalV2IFeature|addTrafficLightsState|clearTrafficLightsState)$', effect),
         (r'ConditionEvaluation::evaluateSimulationTime$', clock), (r'^rclcpp::Publisher<.*>::publish$', publish), (r'^openscenario_interpreter::(posix::)?fork_exec$', forked),
         (r'openscenario_interpreter::(Entity|EntityRef)::apply$', actor_apply), (r'openscenario_interpreter::Entity::(operator .*|name)$', object_name)]


def fn_of(prog, name, pred=lambda f: True):
    fs = [f for f in prog.by_name.get(name, []) if pred(f)]
    return fs[0] if len(fs) == 1 else None


def new(prog, hooks=()):
    return osc.interp(C, prog, hooks=list(hooks) + HOOKS)


def do(obj, what, *args):
    return ('do', obj, what) + args


def ent(n):
    return ('entity', n)


def event(level, name):
    return (level, name)


def unquoted(s):
    return s[1:-1] if len(s) > 1 and s[0] == s[-1] == '"' else s


# name -> function from arguments to a list of effects, or the name of the exception; None: not claimed
def faults(args):
    return [('publish', tuple(('ERROR', a) for a in args))]


def faults2(args):
    if len(args) != 2:
        return 'Error'
    level = {'OK': 'OK', 'WARN': 'WARN', 'WARNING': 'WARN', 'ERROR': 'ERROR', 'STALE': 'STALE'}.get(args[0])
    return [('publish', ((level, args[1]),))] if level else 'Error'


def confidence(args):
    return [do(('conventional',), 'setTrafficLightsConfidence', I(int(args[0])), ('f', float(args[1])))] if len(args) == 2 else 'Error'


def cooperate(args):
    return [do(('ego', 'ego'), 'sendCooperateCommand', Sx(args[0]), Sx(args[1]))] if len(args) == 2 else 'Error'


def v2i(args):
    if len(args) not in (2, 3):
        return 'Error'
    out = [do(('v2i',), 'resetUpdate', ('f', float(args[2])))] if len(args) == 3 else []
    return out + [do(('v2i',), 'setTrafficLightsState', I(int(args[0])), Sx(unquoted(args[1])))]


def feature(on):
    return lambda args: [do(('core',), 'setTrafficSignalV2IFeature', I(int(a)), ('b', on)) for a in args] or 'Error'


def walk(args):
    return [do(ent(a), 'requestWalkStraight') for a in args + ['pedestrian', 'left', 'right']]


SPECIAL = NS + 'SpecialAction'
TABLE = {
    'DisableTrafficSignalV2IFeatureAction@v1': (feature(False), [[], ['1'], ['1', '22', '333']]),
    'EnableTrafficSignalV2IFeatureAction@v1': (feature(True), [[], ['1'], ['1', '22', '333']]),
    'FaultInjectionAction': (faults, [[], ['e'], ['e', 'f', 'e']]),
    'FaultInjectionAction@v1': (faults, [[], ['e'], ['e', 'f', 'e']]),
    'FaultInjectionAction@v2': (faults2, [[], ['ERROR'], ['e']] + [[l, 'e'] for l in ('OK', 'WARN', 'WARNING', 'ERROR', 'STALE', 'INFO', 'error')] + [['ERROR', 'e', 'f']]),
    'PseudoTrafficSignalDetectorConfidenceSetAction@v1': (confidence, [[], ['34'], ['34', '0.5'], ['34', '0.5', '1']]),
    'RequestToCooperateCommandAction@v1': (cooperate, [[], ['LANE_CHANGE_LEFT'], ['LANE_CHANGE_LEFT', 'ACTIVATE'], ['a', 'b', 'c']]),
    'V2ITrafficSignalStateAction': (v2i, [[], ['34'], ['34', '"red solidOn circle"'], ['34', 'green', '10.5'], ['34', 'green', '10', '1']]),
    'WalkStraightAction': (walk, [[], ['a'], ['a', 'b']]),
    'debugError': (lambda args: 'Error', [[]]),
    'exitFailure': (lambda args: SPECIAL + '<1>', [[]]),
    'exitSuccess': (lambda args: SPECIAL + '<0>', [[]]),
    'printParameter': (lambda args: [], [[]]),
    'test': (lambda args: [], [[], ['a', 'b']]),
}


def run(rep):
    rep.rule = 'abstract interpretation of the dispatch on the type of a custom command and of every command it names, compared with the documented commands'
    prog = load([SRC])
    mk = fn_of(prog, NS + 'makeCustomCommand')
    rep.need(mk, 'makeCustomCommand vanished')
    commands = dispatch(rep, prog, mk)
    effects(rep, prog, commands)
    action(rep, prog)


def made(prog, mk, text, content='content'):
    ip = new(prog)
    rets, throws = ip.run(mk, State({('t', 'type'): Sx(text), ('t', 'content'): Sx(content)}), None, [('alias', ('t', 'type'), ()), ('alias', ('t', 'content'), ())])
    return ip, [(s, ip.load(s, ('alias',) + v[1:]) if v[0] == 'ptr' else v) for s, v in rets], throws


def texts(v):
    return [x[1] for x in v[1]] if v is not None and v[0] == 'list' and all(x[0] == 's' for x in v[1]) else v


def dispatch(rep, prog, mk):
    """type text -> class of the command and its arguments"""
    found = {}
    P = CC + '::parameters'
    for name in TABLE:
        for suffix, want in ARGUMENTS:
            ip, rets, throws = made(prog, mk, name + suffix)
            rep.analysed(ip)
            rep.count('type texts')
            rep.require(not throws and rets and all(v[0] == 'obj' and CC in prog.bases(v[1]) for _, v in rets), 'C15:name:' + name, 'the custom command %s%s cannot be made: %s' % (name, suffix, [t[1][1] for t in throws]), mk.where)
            for s, v in rets:
                if v[0] != 'obj':
                    continue
                rep.require(found.setdefault(name, v[1]) == v[1], 'C15:name:' + name, '%s%s is a %s, but without arguments it is a %s' % (name, suffix, v[1], found[name]), mk.where)
                got = texts(of_get(v, P))
                rep.require(got == want, 'C15:arguments', 'the arguments of %s%s are %s instead of %s' % (name, suffix, got, want), mk.where)
    # everything else is a command of the system
    for text in ('echo', 'ls -l', './script.sh', 'exitSuccesss', 'exit', 'ExitSuccess', 'exitSuccess!', 'FaultInjectionAction@v3(a)', 'unknown(a, b)', 'exitSuccess (', 'xexitSuccess', ''):
        ip, rets, throws = made(prog, mk, text)
        rep.analysed(ip)
        rep.count('type texts')
        rep.require(not throws and rets, 'C15:system', 'the custom command %r cannot be made' % text, mk.where)
        for s, v in rets:
            fx, err = started(prog, ip, s, v, mk)
            rep.require(fx == [[('fork_exec', Sx(text), Sx('content'))]] and not err, 'C15:system', 'the custom command %r does %s instead of running it as a command of the system' % (text, fx or err), mk.where)
    for content in ('', 'x'):
        ip, rets, throws = made(prog, mk, ':', content)
        for s, v in rets:
            fx, err = started(prog, ip, s, v, mk)
            rep.require(fx == [[]] and not err, 'C15:nothing', 'the custom command ":" does %s' % (fx or err), mk.where)
    return found


def scope_state():
    S = NS + 'Scope'
    return mkobj(S, None, {S + '::actors': ('list', (mkobj(NS + 'Entity', ('actor', ('pedestrian',))), mkobj(NS + 'Entity', ('actor', ('left', 'right'))))), S + '::name': Sx('')})


def started(prog, ip0, s, v, mk):
    """(effects of each path, exceptions) of starting the command v"""
    cls = v[1]
    fn = None
    for c in [cls] + list(prog.bases(cls)):
        fn = fn_of(prog, c + '::start')
        if fn:
            break
    ip = new(prog)
    st = State(dict(s.mem)).put(X, v).put(SC, scope_state())
    rets, throws = ip.run(fn, st, ME, [('alias', SC, ())])
    return [effects_of(prog, ip, s2) for s2, _ in rets], [(t[1], effects_of(prog, ip, s2)) for s2, t in throws]


def effects_of(prog, ip, s):
    out = []
    for x in s.g('trace', ()):
        if x[0] == 'publish':
            evs = of_get(x[1], MSG + 'SimulationEvents::fault_injection_events') if x[1][0] == 'obj' else None
            evs = evs or field_named(x[1], 'fault_injection_events') or ('list', ())
            out.append(('publish', tuple((level(prog, field_named(v, 'level')), (field_named(v, 'name') or ('?',))[-1]) for v in evs[1]) if evs is not None and evs[0] == 'list' else evs))
        elif x[0] in ('do', 'fork_exec'):
            out.append(x[:2] + tuple(number(v) for v in x[2:]))
    return out


def number(v):
    """the value of a number read from a known text"""
    if isinstance(v, tuple) and v and v[0] in ('lexed', 'stoi', 'stol', 'stoll', 'stod', 'stof', 'stoul') and v[-1][0] == 's':
        real = 'double' in v[1] if v[0] == 'lexed' else v[0] in ('stod', 'stof')
        try:
            return ('f', float(v[-1][1])) if real else I(int(v[-1][1]))
        except ValueError:
            return v
    return v


def field_named(v, n):
    if v[0] != 'obj':
        return None
    for k, x in v[3]:
        if isinstance(k, str) and k.split('::')[-1] == n:
            return x
    return None


LEVELS = {}


def level(prog, v):
    return LEVELS.get(v[1] if v and v[0] == 'i' else v, v)


def effects(rep, prog, commands):
    LEVELS.clear()
    LEVELS.update({0: 'OK', 1: 'WARN', 2: 'ERROR', 3: 'STALE'})
    P = CC + '::parameters'
    for name, (oracle, lists) in TABLE.items():
        cls = commands.get(name)
        if cls is None:
            continue
        where = prog.records[cls]['file'] + ':%d' % prog.records[cls]['l'] if cls in prog.records else ''
        where = where.replace('/repo/', '')
        for args in lists:
            want = oracle(list(args))
            v = mkobj(cls, None, {P: ('list', tuple(Sx(a) for a in args))})
            fx, err = started(prog, None, State({}), v, None)
            rep.count('commands started')
            text = '%s(%s)' % (name, ', '.join(args))
            if isinstance(want, str):
                ok = not fx and err and all((t == want or t.split('::')[-1] in (want, 'SyntaxError', 'SemanticError') and want == 'Error') and not done for t, done in err)
                rep.require(ok, 'C15:effect:' + name, '%s does %s instead of failing with %s' % (text, fx or err, want), where)
            else:
                rep.require(fx and all(f == want for f in fx) and not err, 'C15:effect:' + name, '%s does %s instead of %s' % (text, fx or err, want), where)


def action(rep, prog):
    A = NS + 'CustomCommandAction'
    fn = fn_of(prog, A + '::CustomCommandAction', lambda f: len(f.x['p']) == 2)
    rep.need(fn, 'the constructor of CustomCommandAction vanished')

    def attribute(ip, st, e, o, args, f):
        return [(s, ('attribute', ip.load(s, vs[0]))) for s, vs in ip.args(args, f, st)]

    def content(ip, st, e, o, args, f):
        return [(s, ('content',)) for s, vs in ip.args(args, f, st)]

    def make(ip, st, e, o, args, f):
        return [(s.event('make', *[ip.load(s, v) for v in vs]), ('ptr', ('t', 'command'), ())) for s, vs in ip.args(args, f, st)]
    ip = new(prog, [(r'::readAttribute$', attribute), (r'::readContent$', content), (r'::makeCustomCommand$', make)])
    rets, throws = ip.run(fn, State({X: mkobj(A, None, {})}), ME, [('term', 'node'), ('term', 'scope')])
    rep.analysed(ip)
    rep.require(rets and not throws and all([x for x in s.g('trace', ()) if x[0] == 'make'] == [('make', ('attribute', Sx('type')), ('content',))] for s, _ in rets), 'C15:action:made',
                'a CustomCommandAction does not make the command that its type and content say', fn.where)
    st = rets[0][0] if rets else None
    for m in ('accomplished', 'endsImmediately', 'run', 'start'):
        fn = fn_of(prog, A + '::' + m)
        rep.need(fn, 'CustomCommandAction::%s vanished' % m)

        def asked(ip, st, e, o, args, f):
            return [(s.event('command', f['n'].split('::')[-1], o if o[0] == 'alias' else ip.load(s, o)), ('term', 'answer')) for s, vs in ip.args(args, f, st)]
        ip = new(prog, [(r'^openscenario_interpreter::CustomCommand::\w+$', asked)])
        rets, throws = ip.run(fn, st, ME, [])
        rep.analysed(ip)
        for s, v in rets:
            tr = [x for x in s.g('trace', ()) if x[0] == 'command']
            ok = len(tr) == 1 and tr[0][1] == m and tr[0][2][1] == ('t', 'command') and (m in ('run', 'start') or ip.load(s, v) == ('term', 'answer'))
            rep.require(ok, 'C15:action:' + m, '%s of a CustomCommandAction does not do what its command does' % m, fn.where)
    # whether a command is over at once
    for cls, one in ((CC, True), (NS + 'DummyLongRunningAction', False)):
        for m in ('accomplished', 'endsImmediately'):
            fn = fn_of(prog, cls + '::' + m)
            rep.need(fn, '%s::%s vanished' % (cls, m))
            for end in ((None,) if one else (9.0, 11.0)):
                ip = new(prog)
                rets, throws = ip.run(fn, State({X: mkobj(cls, None, {cls + '::end_time': ('f', end)} if end else {})}), ME, [])
                want = ('b', True if one else m == 'accomplished' and end == 9.0)
                rep.require(not throws and {ip.load(s, v) for s, v in rets} == {want}, 'C15:over:' + m, '%s of %s is not %s' % (m, cls, want[1]), fn.where)
    D = NS + 'DummyLongRunningAction'
    fn = fn_of(prog, D + '::start')
    ip = new(prog)
    rets, throws = ip.run(fn, State({X: mkobj(D, None, {CC + '::parameters': ('list', (Sx('2.5'),))}), SC: scope_state()}), ME, [('alias', SC, ())])
    rep.require(rets and not throws and all(ip.load(s, ('alias', X, (D + '::end_time',))) == ('f', 12.5) for s, _ in rets), 'C15:over:end', 'a long running action of 2.5 s started at 10 s does not end at 12.5 s', fn.where)
