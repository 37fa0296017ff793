"""The operator protocol: which request is made of Autoware in which state, and how requests and waits end."""
from ..facts import load
from ..absint import Interp, State, mkobj, VOID, I, Sx, TRUE, FALSE, NIL, of_get
from .. import osc

FO, LS = 'concealer::FieldOperatorApplication', 'concealer::LegacyAutowareState'
AD = 'autoware_adapi_v1_msgs::msg::'
X = ('t', 'x')
ME = ('ptr', X, ())
S = ['undefined', 'initializing', 'waiting_for_route', 'planning', 'waiting_for_engage', 'driving', 'arrived_goal', 'finalizing']


def deep(ip, s, v, n=0):
    v = ip.load(s, v)
    if v[0] == 'ptr' and n < 8:
        return deep(ip, s, ('alias',) + v[1:], n + 1)
    if v[0] == 'list':
        return ('list', tuple(deep(ip, s, x, n + 1) for x in v[1]))
    if v[0] == 'obj' and ('::msg::' in v[1] or '::srv::' in v[1]) and v[2] in (None, ('new', v[1])) and isinstance(v[3], tuple):
        # members that were never written keep the contents of a new message
        have = dict(v[3])
        for x in ip.prog.records.get(v[1], {}).get('f', ()):
            if x['q'] not in have:
                d = FALSE if x['t'] == 'bool' else ip.message_default(v[1], x['q'])
                if d is not None:
                    have[x['q']] = d
        return mkobj(v[1], v[2], have)
    return v


def of(o, *names):
    for n in names:
        if o[0] != 'obj':
            return None
        o = next((v for k, v in o[3] if k.split('::')[-1] == n), None)
        if o is None:
            return None
    return o


def void(ip, st, e, o, args, f):
    return [(st, VOID)]


def const(v):
    return lambda ip, st, e, o, args, f: [(st, v)]


def run(rep):
    rep.rule = 'abstract interpretation of every operation for every state of Autoware, of requests for every sequence of answers, and of waits for every sequence of states, against a reference table'
    prog = load(['external/concealer/src/field_operator_application.cpp'])
    rep.need(dict(prog.enums[LS + '::value_type']['e']) and [n for n, v in sorted(prog.enums[LS + '::value_type']['e'], key=lambda x: int(x[1]))] == S, 'the states of LegacyAutowareState changed')
    derived(rep, prog)
    operations(rep, prog)
    services(rep, prog)
    waits(rep, prog)


def one(rep, prog, name, n=None):
    fs = [f for f in prog.by_name.get(name, []) if n is None or len(f.x['p']) == n]
    rep.need(len(fs) == 1, '%s vanished' % name)
    return fs[0]


# the state derived from what Autoware reports
def expected(l, r, m, control, available, age):
    if not (l and r and m):
        return 'initializing'
    if l in (1, 2):
        return 'initializing'
    if l != 3:
        return 'undefined'
    if r == 3:
        return 'arrived_goal' if age < 2 else 'waiting_for_route'
    if r == 1:
        return 'waiting_for_route'
    if r not in (2, 4) or m not in (1, 2, 3, 4):
        return 'undefined'
    if m != 1 and control:
        return 'driving'
    return 'waiting_for_engage' if available else 'planning'


def derived(rep, prog):
    c4 = one(rep, prog, LS + '::LegacyAutowareState', 4)
    ln, rn, on = AD + 'LocalizationInitializationState', AD + 'RouteState', AD + 'OperationModeState'
    for l in range(5):
        for r in range(6):
            for m in range(6):
                for control in (False, True):
                    for available in (False, True):
                        for age in (0.0, 1.9, 2.0, 3.0):
                            if r != 3 and age:
                                continue

                            def sub(ip, st, e, o, args, f):
                                out = []
                                for s, vs in ip.args(args, f, st):
                                    a, b = [deep(ip, s, v) for v in (([o] if o is not None else []) + list(vs))[:2]]
                                    out.append((s, ('term', 'age') if a == ('term', 'now') and b != a else ('term', 'minus age')))
                                return out

                            def seconds(ip, st, e, o, args, f):
                                v = deep(ip, st, o)
                                return [(st, ('f', age if v == ('term', 'age') else -age))]
                            hooks = [(r'^rclcpp::(Time::)?operator-$', sub), (r'^rclcpp::Duration::seconds$', seconds)]
                            ip = Interp(prog, hooks=hooks)
                            st = State({X: mkobj(LS, None, {}), ('t', 'n'): ('term', 'now'), ('t', 'l'): mkobj(ln, None, {ln + '::state': I(l)}), ('t', 'r'): mkobj(rn, None, {rn + '::state': I(r), rn + '::stamp': ('term', 'stamp')}),
                                        ('t', 'o'): mkobj(on, None, {on + '::mode': I(m), on + '::is_autoware_control_enabled': ('b', control), on + '::is_autonomous_mode_available': ('b', available)})})
                            rets, throws = ip.run(c4, st, ME, [('alias', ('t', k), ()) for k in 'lron'])
                            rep.analysed(ip)
                            rep.count('reports', 1)
                            got = {of(ip.load(s, ('alias', X, ())), 'value') for s, _ in rets}
                            want = expected(l, r, m, control, available, age)
                            what = 'localization %d, route %d, mode %d, control %s, autonomous mode %s, arrived %.1f s ago' % (l, r, m, 'enabled' if control else 'disabled', 'available' if available else 'unavailable', age)
                            rep.require(not throws and got == {I(S.index(want))}, 'C13:state:%s' % want, 'with %s the state of Autoware is %s instead of %s' % (what, [S[g[1]] if g and g[0] == 'i' and g[1] < 8 else g for g in got], want), c4.where)
    c1 = [f for f in prog.by_name[LS + '::LegacyAutowareState'] if len(f.x['p']) == 1 and 'AutowareState &' in f.x['p'][0]['t']]
    rep.need(len(c1) == 1, 'the conversion from AutowareState vanished')
    an = 'autoware_system_msgs::msg::AutowareState'
    for k in range(1, 8):
        ip = Interp(prog)
        rets, throws = ip.run(c1[0], State({X: mkobj(LS, None, {}), ('t', 'a'): mkobj(an, None, {an + '::state': I(k)})}), ME, [('alias', ('t', 'a'), ())])
        got = {of(ip.load(s, ('alias', X, ())), 'value') for s, _ in rets}
        rep.require(not throws and got == {I(k)}, 'C13:state:legacy', 'the reported state %s becomes %s' % (S[k], got), c1[0].where)
    # and the application asks for it with what it received, and with the present time
    fn = one(rep, prog, FO + '::getLegacyAutowareState')

    def made(ip, st, e, o, args, f):
        return [(s.event('made', *[deep(ip, s, v) for v in vs]), ('term', 'state')) for s, vs in ip.args(args, f, st)]

    def received(ip, st, e, o, args, f):
        return [(st, ('term', o[2][-1].split('::')[-1] if o[0] in ('alias', 'ptr') and o[2] else 'other'))]
    ip = Interp(prog, hooks=[(r'^concealer::LegacyAutowareState::LegacyAutowareState$', made), (r'^concealer::Subscriber<.*>::operator\(\)$', received), (r'^rclcpp::Node::now$', const(('term', 'now')))])
    rets, throws = ip.run(fn, State({X: mkobj(FO, None, {})}), ME, [])
    rep.analysed(ip)
    want = tuple(('term', n) for n in ('getLocalizationState', 'getRouteState', 'getOperationModeState', 'now'))
    rep.require(bool(rets) and not throws and all([x[1:] for x in s.g('trace', ()) if x[0] == 'made'] == [want] for s, _ in rets), 'C13:state:inputs',
                'the state of Autoware is not derived from the received localization, route and operation mode and the present time', fn.where)


# the operations
class Ops:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        self.q = {f['q'].split('::')[-1]: f['q'] for f in prog.records[FO]['f']}
        self.now = None
        self.hooks = [(r'TaskQueue::delay$', self.delay), (r'waitForAutowareStateToBe$', self.wait), (r'^concealer::Service<.*>::operator\(\)$', self.request), (r'getLegacyAutowareState$', self.state),
                      (r'isPackageExists$', lambda ip, st, e, o, args, f: [(st, ('b', self.package))]), (r'::get_clock$', const(('ptr', ('t', 'clock'), ()))), (r'^rclcpp::Clock::now$', const(('term', 'now'))),
                      (r'chrono::time_point<.*>::max$', const(('term', 'never'))), (r'^concealer::Subscriber<.*>::operator\(\)$', lambda ip, st, e, o, args, f: [(st, ('alias', ('t', 'received'), ()))])]
        self.package = False

    def delay(self, ip, st, e, o, args, f):
        return [(s.event('delay', ip.load(s, vs[0])), VOID) for s, vs in ip.args(args, f, st)]

    def wait(self, ip, st, e, o, args, f):
        return [(s.event('wait', *[self.name(ip, s, v) for v in vs[:2]]), VOID) for s, vs in ip.args(args, f, st)]

    def name(self, ip, s, v):
        v = deep(ip, s, v)
        n = of(v, 'value') if v[0] == 'obj' else v
        return S[n[1]] if n and n[0] == 'i' and 0 <= n[1] < len(S) else str(n)

    def request(self, ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            n = o[2][-1].split('::')[-1] if o[0] in ('alias', 'ptr') and o[2] else str(o)
            c = deep(ip, s, vs[1])
            out.append((s.event('request', n, deep(ip, s, vs[0]), c if c[0] != 'i' else c[1]), VOID))
        return out

    def state(self, ip, st, e, o, args, f):
        return [(st, mkobj(LS, None, {LS + '::value': I(S.index(self.now))}))]

    def ip(self):
        return Interp(self.prog, hooks=self.hooks)

    def tasks(self, fn, st, vals, key, want=1, may_throw=False):
        """the states after the operation with the tasks it handed over"""
        ip = self.ip()
        rets, throws = ip.run(fn, st, ME, vals)
        self.rep.analysed(ip)
        self.rep.require(bool(rets) and (may_throw or not throws), key, '%s fails' % fn.name, fn.where)
        out = []
        for s, _ in rets:
            tr = s.g('trace', ())
            self.rep.require(len(tr) == want and all(x[0] == 'delay' for x in tr), key, '%s hands %d tasks to the task queue and does %s itself' % (fn.name, len(tr), [x[:2] for x in tr if x[0] != 'delay'] or 'nothing'), fn.where)
            out.append((s, [x[1] for x in tr if x[0] == 'delay']))
        return out

    def table(self, fn, st, vals, key, want, may_throw=False):
        """want: state -> None (an AutowareError, nothing requested) or the list of ('wait', from, to) / ('request', member, predicate)"""
        for s, tasks in self.tasks(fn, st, vals, key, 1, may_throw):
            for t in tasks:
                for n in S:
                    self.now = n
                    ip = self.ip()
                    rets, throws = ip.run_closure(t, s.gset(trace=()), [])
                    self.rep.analysed(ip)
                    self.rep.count('paths', len(rets) + len(throws))
                    w = want(n)
                    what = '%s in state %s' % (fn.name.split('::')[-1], n)
                    k = '%s:%s' % (key, n)
                    if w is None:
                        self.rep.require(not rets and bool(throws) and all(v[1].split('::')[-1] == 'AutowareError' and not s2.g('trace') for s2, v in throws), k,
                                         '%s is not refused with an AutowareError before anything is requested' % what, fn.where)
                        continue
                    self.rep.require(bool(rets) and not throws, k, '%s %s' % (what, 'throws' if throws else 'does not complete'), fn.where)
                    for s2, _ in rets:
                        tr = s2.g('trace', ())
                        got = [x[:3] if x[0] == 'wait' else x[:2] for x in tr]
                        self.rep.require(got == [x if x[0] == 'wait' else x[:2] for x in w], k, '%s does %s instead of %s' % (what, show(got), show(w)), fn.where)
                        if len(got) == len(w):
                            for x, y in zip(tr, w):
                                if y[0] == 'request' and x[0] == 'request':
                                    bad = y[2](x[2])
                                    self.rep.require(not bad, '%s:content' % key, '%s sends a request whose %s' % (what, bad), fn.where)
                                    self.rep.require(isinstance(x[3], int) and x[3] >= 1, '%s:attempts' % key, '%s makes %s attempts to send its request' % (what, x[3]), fn.where)
                        self.after(key, what, n, s2, ip, fn)

    def after(self, key, what, n, s, ip, fn):
        pass


def show(l):
    return ', '.join('wait %s -> %s' % x[1:3] if x[0] == 'wait' else x[1] for x in l) or 'nothing'


def eq(*pairs):
    def check(r):
        for names, want in pairs:
            got = of(r, *names)
            if got != want:
                return '%s is %s instead of %s' % ('.'.join(names), got, want)
    return check


def operations(rep, prog):
    ops = Ops(rep, prog)
    q = ops.q
    rep.need('initialized' in q and 'time_limit' in q, 'the members of FieldOperatorApplication changed')
    base = State({X: mkobj(FO, None, {q['initialized']: FALSE, q['time_limit']: ('term', 'limit')})})
    # engage
    fn = one(rep, prog, FO + '::engage', 0)
    chain = [('initializing', 'waiting_for_route'), ('waiting_for_route', 'planning'), ('planning', 'waiting_for_engage')]

    def engage(n):
        if n == 'driving':
            return []
        if n not in S[1:5]:
            return None
        return [('wait', a, b) for a, b in chain[S.index(n) - 1:]] + [('request', 'requestEngage', eq((('engage',), TRUE))), ('wait', 'waiting_for_engage', 'driving')]

    def limit(key, what, n, s, ip, fn):
        v = ip.load(s, ('alias', X, (q['time_limit'],)))
        rep.require(v == (('term', 'limit') if n == 'driving' else ('term', 'never')) or (n == 'driving' and v == ('term', 'never')), 'C13:engage:limit', 'the time limit of the initialization still applies after Autoware was engaged', fn.where)
    ops.after = limit
    ops.table(fn, base, [], 'C13:engage', engage)
    ops.after = lambda *a: None
    # initialize
    fn = one(rep, prog, FO + '::initialize', 1)
    pose = ('term', 'pose')
    st = base.put(('t', 'a0'), pose)

    def content(r):
        l = of(r, 'pose')
        if not l or l[0] != 'list' or len(l[1]) != 1:
            return 'list of poses is %s' % (l,)
        p = l[1][0]
        if of(p, 'pose', 'pose') != pose:
            return 'pose is %s' % (of(p, 'pose', 'pose'),)
        if of(p, 'header', 'frame_id') != Sx('map'):
            return 'frame is %s' % (of(p, 'header', 'frame_id'),)

    def initialize(n):
        if n not in S[:3]:
            return None
        return ([('wait', 'undefined', 'initializing')] if n == 'undefined' else []) + [('request', 'requestInitialPose', content), ('wait', 'initializing', 'waiting_for_route')]
    ops.table(fn, st, [('alias', ('t', 'a0'), ())], 'C13:initialize', initialize)
    for s, _ in ops.tasks(fn, st, [('alias', ('t', 'a0'), ())], 'C13:initialize'):
        ops.tasks(fn, s.gset(trace=()), [('alias', ('t', 'a0'), ())], 'C13:initialize:once', want=0)
    # plan
    plans = [f for f in prog.by_name.get(FO + '::plan', [])]
    rep.need(len(plans) == 3, 'the overloads of plan changed')
    RO = AD + 'RouteOption'
    for allow in (TRUE, FALSE):
        option = mkobj(RO, None, {RO + '::allow_goal_modification': allow})
        for f in plans:
            st = base
            if len(f.x['p']) == 3:
                points = [('term', 'w0'), ('term', 'w1')]
                segments = 'RouteSegment' in f.x['p'][1]['t']
                cases = []
                for n in range(3):
                    st = base.put(('t', 'goal'), ('term', 'goal')).put(('t', 'way'), ('list', tuple(points[:n]))).put(('t', 'option'), option)
                    cases.append((st, [('alias', ('t', k), ()) for k in ('goal', 'way', 'option')], points[:n]))
            else:
                segments = False
                PS = 'geometry_msgs::msg::PoseStamped'
                stamped = [mkobj(PS, None, {PS + '::pose': ('term', k)}) for k in ('w0', 'w1', 'w2')]
                cases = []
                for n in range(1, 4):
                    l = stamped[:n - 1] + [mkobj(PS, None, {PS + '::pose': ('term', 'goal')})]
                    st = base.put(('t', 'route'), ('list', tuple(l)))
                    cases.append((st, [('alias', ('t', 'route'), ()), allow], [('term', k) for k in ('w0', 'w1', 'w2')[:n - 1]]))
            for st, vals, way in cases:
                field = 'segments' if segments else 'waypoints'
                check = eq((('goal',), ('term', 'goal')), ((field,), ('list', tuple(way))), (('option', 'allow_goal_modification'), allow), (('header', 'frame_id'), Sx('map')))

                def plan(n):
                    if n not in ('initializing', 'arrived_goal', 'waiting_for_route'):
                        return None
                    return ([('wait', n, 'waiting_for_route')] if n != 'waiting_for_route' else []) + [('request', 'requestSetRoute' if segments else 'requestSetRoutePoints', check), ('wait', 'waiting_for_route', 'planning'), ('wait', 'planning', 'waiting_for_engage')]
                ops.table(f, st, vals, 'C13:plan', plan)
    # requests that do not depend on the state
    for name, member in (('clearRoute', 'requestClearRoute'), ('enableAutowareControl', 'requestEnableAutowareControl')):
        ops.table(one(rep, prog, FO + '::' + name, 0), base, [], 'C13:' + name, lambda n: [('request', member, lambda r: None)])
    fn = one(rep, prog, FO + '::setVelocityLimit', 1)
    ops.table(fn, base.put(('t', 'v'), ('term', 'v')), [('alias', ('t', 'v'), ())], 'C13:setVelocityLimit', lambda n: [('request', 'requestSetVelocityLimit', eq((('velocity',), ('term', 'v'))))])
    # the constructor brings Autoware to a stop
    fn = one(rep, prog, FO + '::FieldOperatorApplication', 1)
    ops.hooks += [(r'getParameter$', const(('term', 'parameter'))), (r'::get_node_base_interface$', const(('term', 'interface'))), (r'::add_node$', void)]
    ops.table(fn, State({X: mkobj(FO, None, {})}), [I(4711)], 'C13:stop', lambda n: [('request', 'requestChangeToStop', lambda r: None)], may_throw=True)
    cooperation(rep, prog, ops, base)


MODULES = ['NONE', 'LANE_CHANGE_LEFT', 'LANE_CHANGE_RIGHT', 'AVOIDANCE_LEFT', 'AVOIDANCE_RIGHT', 'GOAL_PLANNER', 'START_PLANNER', 'TRAFFIC_LIGHT', 'INTERSECTION', 'CROSSWALK', 'BLIND_SPOT', 'DETECTION_AREA', 'NO_STOPPING_AREA', 'OCCLUSION_SPOT',
           'EXT_REQUEST_LANE_CHANGE_LEFT', 'EXT_REQUEST_LANE_CHANGE_RIGHT', 'AVOIDANCE_BY_LC_LEFT', 'AVOIDANCE_BY_LC_RIGHT', 'NO_DRIVABLE_LANE']


def cooperation(rep, prog, ops, base):
    fn = one(rep, prog, FO + '::requestAutoModeForCooperation', 2)
    M = 'tier4_rtc_msgs::msg::Module'
    values = module_values(rep, prog)
    for name in MODULES:
        if name not in values:
            continue
        for enable in (TRUE, FALSE):
            st = base.put(('t', 'module'), Sx(name))
            ops.table(fn, st, [('alias', ('t', 'module'), ()), enable], 'C13:automode', lambda n: [('request', 'requestSetRtcAutoMode', eq((('module', 'type'), I(values[name])), (('enable',), enable)))] )
    for s, tasks in ops.tasks(fn, base.put(('t', 'module'), Sx('NO_SUCH_MODULE')), [('alias', ('t', 'module'), ()), TRUE], 'C13:automode:unknown'):
        for t in tasks:
            rets, throws = ops.ip().run_closure(t, s.gset(trace=()), [])
            rep.require(not rets and bool(throws) and all(not s2.g('trace') for s2, _ in throws), 'C13:automode:unknown', 'a cooperation of an unknown module is requested', fn.where)
    # sending a command for the first status that waits for it
    fn = one(rep, prog, FO + '::sendCooperateCommand', 2)
    T = 'tier4_rtc_msgs::msg::'
    C, A = T + 'CooperateStatus', T + 'CooperateStatusArray'

    def status(uuid, module, command, distance):
        return mkobj(C, None, {C + '::uuid': ('s', uuid), C + '::module': mkobj(M, None, {M + '::type': I(values[module])}), C + '::command_status': mkobj(T + 'Command', None, {T + 'Command::type': I(command)}),
                               C + '::finish_distance': ('f', distance), C + '::distance': ('f', distance)})
    left, right = 'LANE_CHANGE_LEFT', 'LANE_CHANGE_RIGHT'
    lists = [[], [('a', left, 0, 1.0)], [('a', left, 1, 1.0)], [('a', right, 0, 1.0)], [('a', right, 0, 1.0), ('b', left, 0, 1.0)], [('a', left, 0, 1.0), ('b', left, 0, 1.0)], [('a', left, 1, 1.0), ('b', left, 0, 1.0), ('c', left, 0, 1.0)],
             [('a', left, 0, -20.0)], [('a', left, 0, -20.1)], [('a', left, 0, -21.0), ('b', left, 1, 5.0), ('c', left, 0, -1.0)]]
    ops.hooks.insert(0, (r'operator==$', equal))
    for g in statics(prog, fn):
        base = base.put(('g', g), ('list', ()))
    for l in lists:
        for word, number in (('ACTIVATE', 1), ('DEACTIVATE', 0)):
            st = base.put(('t', 'module'), Sx(left)).put(('t', 'command'), Sx(word)).put(('t', 'received'), mkobj(A, None, {A + '::stamp': ('term', 'stamp'), A + '::statuses': ('list', tuple(status(*x) for x in l))}))
            vals = [('alias', ('t', 'module'), ()), ('alias', ('t', 'command'), ())]
            waiting = [x for x in l if x[1] == left and x[2] != number and x[3] >= -20]
            what = 'command %s for %s with %s' % (word, left, l)
            used = []
            # the same command again goes to the next status, as those used are not used again
            for k in range(len(waiting) + 1):
                ip = ops.ip()
                rets, throws = ip.run(fn, st, ME, vals)
                rep.analysed(ip)
                rep.count('paths', len(rets) + len(throws))
                if k == len(waiting):
                    rep.require(not rets and bool(throws) and all(not s.g('trace') for s, _ in throws), 'C13:cooperate:none', '%s is sent %d times although only %d statuses wait for it' % (what, k + 1, len(waiting)), fn.where)
                    break
                if not rep.require(len(rets) == 1 and not throws and len(rets[0][0].g('trace', ())) == 1, 'C13:cooperate:send', '%s is not handed to the task queue (attempt %d)' % (what, k + 1), fn.where):
                    break
                s = rets[0][0]
                t = s.g('trace')[0][1]
                r2, t2 = ops.ip().run_closure(t, s.gset(trace=()), [])
                reqs = [x for s2, _ in r2 for x in s2.g('trace', ())]
                ok = len(r2) == 1 and not t2 and len(reqs) == 1 and reqs[0][1] == 'requestCooperateCommands'
                rep.require(ok, 'C13:cooperate:request', '%s does not request it' % what, fn.where)
                if ok:
                    cs = of(reqs[0][2], 'commands')
                    want = (('s', waiting[k][0]), I(values[left]), I(number))
                    got = tuple(of(cs[1][0], *n) for n in (('uuid',), ('module', 'type'), ('command', 'type'))) if cs and cs[0] == 'list' and len(cs[1]) == 1 else cs
                    rep.require(got == want, 'C13:cooperate:content', '%s requests %s instead of %s' % (what, got, want), fn.where)
                st = s.gset(trace=())
    ip = ops.ip()
    rets, throws = ip.run(fn, st.put(('t', 'command'), Sx('OTHER')), ME, vals)
    rep.require(not rets and bool(throws) and all(not s.g('trace') for s, _ in throws), 'C13:cooperate:word', 'an unknown command is sent', fn.where)
    ops.hooks.pop(0)


def statics(prog, fn):
    """static local sequences of the functions of the file"""
    def walk(n):
        if isinstance(n, dict):
            if n.get('static') and n.get('g') and n.get('t', '').startswith('std::vector<'):
                yield n['g']
            for v in n.values():
                yield from walk(v)
        elif isinstance(n, list):
            for v in n:
                yield from walk(v)
    return sorted({g for f in prog.funcs.values() if f.x.get('file') == fn.x.get('file') for g in walk(f.x)})


def equal(ip, st, e, o, args, f):
    """messages are equal when their contents are"""
    out = []
    for s, vs in ip.args(args, f, st):
        a, b = ([o] if o is not None else []) + list(vs)
        a, b = deep(ip, s, a), deep(ip, s, b)
        if a[0] in ('obj', 's') and b[0] == a[0]:
            out.append((s, ('b', a == b)))
        else:
            return None
    return out


def module_values(rep, prog):
    """the numbers of the modules, from the message definition"""
    import os, re
    from ..facts import VERIF
    out, on = {}, False
    for l in open(os.path.join(VERIF, 'stubs', 'msgs.txt')):
        l = l.strip()
        if '/' in l.split(' ')[0] or l.startswith('srv '):
            on = l == 'tier4_rtc_msgs/Module'
        m = re.match(r'uint8 (\w+)=(\d+)$', l)
        if on and m:
            out[m.group(1)] = int(m.group(2))
    rep.need(out, 'the definition of tier4_rtc_msgs/Module vanished')
    return out


# requests
def clock(ip, st, e, o, args, f):
    """the first reading is 0; later ones are before or after every deadline"""
    n = st.g('clock', 0)
    if not n:
        return [(st.gset(clock=1), I(0))]
    late = I(10 ** 6)
    if n == 2:
        return [(st, late)]
    return [(st, I(0)), (st.gset(clock=2), late)]


def arith(ip, st, e, o, args, f):
    name = f['n'].split('::')[-1]
    out = []
    for s, vs in ip.args(args, f, st):
        l = [ip.load(s, v) for v in ([o] if o is not None else []) + list(vs)]
        if len(l) != 2 or any(v[0] not in ('i', 'f') for v in l):
            return None
        a, b = l[0][1], l[1][1]
        r = {'operator+': a + b, 'operator-': a - b, 'operator<': a < b, 'operator>': a > b, 'operator<=': a <= b, 'operator>=': a >= b, 'operator==': a == b}[name]
        out.append((s, ('b', r) if isinstance(r, bool) else I(r)))
    return out


CHRONO = [(r'chrono(::_V2)?::(steady_clock|system_clock)::now$', clock), (r'^std::chrono::operator(\+|-|<|>|<=|>=|==)$', arith)]


def services(rep, prog):
    names = [n for n in prog.by_name if n.startswith('concealer::Service<') and n.endswith('>::operator()')]
    rep.need(names, 'Service::operator() is not instantiated')
    for n in sorted(names):
        fn = prog.by_name[n][0]
        T = n[len('concealer::Service<'):-len('>::operator()')]
        qs = [f['q'] for f in prog.records['concealer::Service<%s>' % T]['f']]
        res = T + '_Response'
        fields = {f['n']: f['t'] for f in prog.records[res]['f']}

        def response(ok):
            """contents of responses that mean (no) success"""
            if 'status' in fields:
                t = fields['status']
                if 'tier4' in t:
                    return [mkobj(t, None, {t + '::code': I(k)}) for k in ((1,) if ok else (0, 2, 3, 4))], 'status'
                return [mkobj(t, None, {t + '::success': ('b', ok)})], 'status'
            if 'success' in fields:
                return [('b', ok)], 'success'
            t = 'tier4_rtc_msgs::msg::CooperateResponse'
            one = {b: mkobj(t, None, {t + '::success': ('b', b)}) for b in (True, False)}
            if ok:
                return [('list', ()), ('list', (one[True],)), ('list', (one[True], one[True]))], 'responses'
            return [('list', (one[False],)), ('list', (one[True], one[False])), ('list', (one[False], one[True]))], 'responses'
        for attempts in range(4):
            def ready(ip, st, e, o, args, f):
                k = st.g('waits', 0)
                return [(st.event('ready'), TRUE)] + ([(st.gset(waits=k + 1), FALSE)] if k < 2 else [])

            def send(ip, st, e, o, args, f):
                return [(s.event('send', deep(ip, s, vs[0])), ('term', 'future')) for s, vs in ip.args(args, f, st)]

            def wait_for(ip, st, e, o, args, f):
                return [(st.event('arrived'), I(0)), (st.event('late'), I(1))]

            def get(ip, st, e, o, args, f):
                out = []
                for ok in (True, False):
                    vals, m = response(ok)
                    for i, v in enumerate(vals):
                        root = ('t', 'response', st.g('n', 0))
                        out.append((st.put(root, mkobj(res, None, {res + '::' + m: v})).gset(n=st.g('n', 0) + 1).event('good' if ok else 'bad'), ('ptr', root, ())))
                return out
            hooks = [(r'^rclcpp::ok$', const(TRUE)), (r'::service_is_ready$', ready), (r'::async_send_request$', send), (r'(future|Future).*::wait_for$', wait_for), (r'(future|Future).*::get$', get), (r'Rate<?.*::sleep$', void), (r'::period$', const(('term', 'period'))),
                     (r'::count$', const(('term', 'count')))] + CHRONO
            ip = Interp(prog, hooks=hooks)
            st = State({X: ('term', 'me'), ('t', 'request'): ('ptr', ('t', 'content'), ()), ('t', 'content'): ('term', 'content')})
            rets, throws = ip.run(fn, st, ME, [('alias', ('t', 'request'), ()), I(attempts), I(100)])
            rep.analysed(ip)
            rep.count('paths', len(rets) + len(throws))
            what = 'a request of %s with %d attempts' % (T.split('::')[-1], attempts)
            for s, _ in rets:
                tr = [x[0] for x in s.g('trace', ())]
                sends = tr.count('send')
                rep.require(tr[-1:] == ['good'] and tr.count('good') == 1, 'C13:request:return', '%s returns although no attempt was answered with success (%s)' % (what, tr), fn.where)
                rep.require(tr[:1] == ['ready'], 'C13:request:unready', '%s is sent before the service is ready' % what, fn.where)
                rep.require(1 <= sends <= attempts, 'C13:request:attempts', '%s is sent %d times' % (what, sends), fn.where)
                rep.require(all(x[1] == ('term', 'content') for x in s.g('trace') if x[0] == 'send'), 'C13:request:content', '%s sends %s' % (what, [x[1] for x in s.g('trace') if x[0] == 'send'][:1]), fn.where)
            for k in range(1, attempts + 1):
                rep.require(any([x[0] for x in s.g('trace', ())].count('send') == k for s, _ in rets), 'C13:request:retry', '%s does not succeed when the attempt %d is answered with success' % (what, k), fn.where)
            timeout = failed = 0
            for s, v in throws:
                tr = [x[0] for x in s.g('trace', ())]
                rep.require(v[1].split('::')[-1] == 'AutowareError', 'C13:request:error', '%s fails with %s instead of an AutowareError' % (what, v[1]), fn.where)
                if 'ready' in tr:
                    failed += 1
                    rep.require(tr.count('send') == attempts and 'good' not in tr, 'C13:request:early', '%s fails after %d attempts%s' % (what, tr.count('send'), ', one of them successful' if 'good' in tr else ''), fn.where)
                else:
                    timeout += 1
                    rep.require(s.g('clock') == 2 and s.g('waits', 0) >= 1, 'C13:request:hasty', '%s fails before the service had its time to become ready' % what, fn.where)
            rep.require(timeout > 0, 'C13:request:availability', '%s waits forever for the service' % what, fn.where)
            rep.require(failed > 0, 'C13:request:forever', '%s never fails' % what, fn.where)


def waits(rep, prog):
    names = [n for n in prog.by_name if n.startswith(FO + '::waitForAutowareStateToBe')]
    fs = [f for n in names if n.endswith('waitForAutowareStateToBe') or n.endswith('>') for f in prog.by_name[n]]
    rep.need(fs, 'waitForAutowareStateToBe is not instantiated')
    q = {f['q'].split('::')[-1]: f['q'] for f in prog.records[FO]['f']}
    for fn in fs[:2]:
        for a, b in ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (6, 2)):
            def state(ip, st, e, o, args, f):
                n = st.g('asked', 0)
                if n > 2:
                    return []
                return [(st.gset(asked=n + 1, last=v), mkobj(LS, None, {LS + '::value': I(v)})) for v in range(8)]

            def final(ip, st, e, o, args, f):
                return [(st, FALSE)] + [(st.gset(finalized=True), TRUE)]
            ip = Interp(prog, hooks=[(r'getLegacyAutowareState$', state), (r'std::(atomic<bool>|__atomic_base<bool>|atomic_bool)::(load|operator bool|operator _Bool)$', final), (r'Rate<?.*::sleep$', void)] + CHRONO)
            st = State({X: mkobj(FO, None, {q['time_limit']: I(100)}), ('t', 'a'): mkobj(LS, None, {LS + '::value': I(a)}), ('t', 'b'): mkobj(LS, None, {LS + '::value': I(b)}), ('t', 'f'): ('fn', '', '$thunk')}, None, {'clock': 1})
            ip.call_closure = (lambda old: lambda c, s, vals, e, key=None: [(s, VOID)] if c[0] == 'fn' and c[2] == '$thunk' else old(c, s, vals, e, key))(ip.call_closure)
            rets, throws = ip.run(fn, st, ME, [('alias', ('t', 'a'), ()), ('alias', ('t', 'b'), ()), ('fn', '', '$thunk')])
            rep.analysed(ip)
            rep.count('paths', len(rets) + len(throws))
            what = 'the wait for Autoware to go from %s to %s' % (S[a], S[b])
            within = range(a, b)
            for s, _ in rets:
                if not s.g('finalized'):
                    rep.require(s.g('last') is not None and s.g('last') not in within, 'C13:wait:early', '%s ends in state %s' % (what, S[s.g('last')] if s.g('last') is not None else 'unknown'), fn.where)
            for v in range(8):
                if v not in within:
                    rep.require(any(s.g('last') == v and s.g('asked') == 1 and not s.g('finalized') for s, _ in rets), 'C13:wait:missed', '%s goes on in state %s' % (what, S[v]), fn.where)
            rep.require(any(s.g('finalized') for s, _ in rets), 'C13:wait:final', '%s does not end when the simulation is over' % what, fn.where)
            for s, v in throws:
                rep.require(v[1].split('::')[-1] == 'AutowareError' and s.g('clock') == 2, 'C13:wait:error', '%s fails %s' % (what, 'with %s' % v[1] if s.g('clock') == 2 else 'although the time is not up'), fn.where)
            if len(within):
                rep.require(bool(throws), 'C13:wait:forever', '%s never fails' % what, fn.where)
                rep.require(not any(s.g('clock') == 2 and not s.g('finalized') for s, _ in rets), 'C13:wait:late', '%s goes on although the time is up' % what, fn.where)
