"""Random test runs: what counts as a failure, what is drawn from what, and how a run is stored for its replay."""
from ..facts import load, sources, func_nodes
from ..absint import Interp, State, mkobj, I, Sx, TRUE, FALSE, VOID, NIL, of_get
from .. import osc
from ..zones import Zone

RT = 'test_runner/random_test_runner/'
INC = RT + 'include/random_test_runner/'
METRIC, RANDOM, EXEC, YAMLH = INC + 'metrics/ego_collision_metric.hpp', INC + 'randomizers.hpp', INC + 'test_executor.hpp', INC + 'file_interactions/yaml_test_params_saver.hpp'
M, ME, TC, DRAWN = ('t', 'm'), ('t', 'x'), ('t', 'tc'), ('t', 'drawn')
X = 'TestExecutor<traffic_simulator::API>'


def run(rep):
    rep.rule = ('abstract interpretation over symbolic times with difference bounds (collisions), with every answer of the simulator and every exception (verdicts), '
                'over symbolic parameters (drawing, storing); an effect analysis of everything that drawing reaches')
    probe = load([], probes=['random.cpp'])
    collisions(rep, probe)
    randomizers(rep, probe)
    prog = load([RT + 'src/random_test_runner.cpp', RT + 'src/test_randomizer.cpp', RT + 'src/data_types.cpp', RT + 'src/lanelet_utils.cpp']
                + sources('simulation/traffic_simulator/src/lanelet_wrapper/*.cpp', 'simulation/traffic_simulator/src/helper/*.cpp'))
    verdicts(rep, prog)
    replay(rep, prog)
    drawing(rep, prog)
    entropy(rep, prog)


# ------------------------------------------------------------------ collisions
def collisions(rep, prog):
    """a contact is a new collision exactly if there was none with the same NPC in the last half second"""
    ip = Interp(prog)
    rets, throws = ip.run(prog.one('probe::metric'), State(), None, [])
    if not rep.require(len(rets) == 1 and not throws, 'C19:collision', 'making a collision metric has %d results' % len(rets), METRIC):
        return
    start = rets[0][0].put(M, ip.load(*rets[0]))
    half = ('f', 0.5)
    n = 4 if rep.tier == 'thorough' else 3
    for names in (('a', 'a', 'a', 'a'), ('a', 'b', 'a', 'b'), ('a', 'b', 'a', 'a'), ('a', 'a', 'b', 'a'), ('a', 'b', 'b', 'a'), ('a', 'b', 'c', 'a')):
        names = names[:n]
        before = len(rep.violations)
        level = [(start, ())]
        for i, name in enumerate(names):
            now = ('sym', 't%d' % i)
            nxt = []
            for st, said in level:
                ip = Interp(prog)
                rets, throws = ip.run(prog.one('probe::collides'), st, None, [('alias', M, ()), Sx(name), now])
                rep.analysed(ip)
                rep.count('paths', len(rets) + len(throws))
                last = [j for j in range(i) if names[j] == name]
                z0 = order(st, i)
                rep.require(not throws, 'C19:collision:error', 'a contact with %s fails with %s' % (name, [x[1] for _, x in throws][:1]), METRIC)
                for s, v in rets:
                    v = ip.load(s, v)
                    z = order(s, i)
                    if z.empty():
                        continue
                    for s2, b in ip.truth(s, v):
                        z = order(s2, i)
                        if z.empty():
                            continue
                        if not last:
                            good = b
                        elif b:
                            good = not z.admits(('op', '-', now, ('sym', 't%d' % last[-1])), half, '<=')
                        else:
                            good = not z.admits(('op', '-', now, ('sym', 't%d' % last[-1])), half, '>')
                        rep.require(good, 'C19:collision', 'contacts with %s: the last one %s' % (', '.join(names[:i + 1]), (
                            'counts as a new collision though the one before was not more than 0.5 s ago' if b else 'does not count as a collision though there was none within 0.5 s') if last else 'is the first but does not count'), METRIC)
                        nxt.append((s2, said + (b,)))
            level = nxt
        if len(rep.violations) == before:
            rep.ok('contacts with %s' % ', '.join(names), METRIC)
    rep.count('sequences of contacts', 6)


def order(st, i):
    """what is known on the path, for contacts that are seen one after the other"""
    z = Zone(st.facts)
    for j in range(i):
        z.relate(('sym', 't%d' % j), ('sym', 't%d' % (j + 1)), '<=')
    return z.close()


# ------------------------------------------------------------------ randomizers
def randomizers(rep, prog):
    def draw(ip, st, e, o, args, f):
        v = ip.load(st, o)
        return [(s, ('drawn', v, vs[0] if vs[0][0] != 'alias' else vs[0])) for s, vs in ip.args(args, f, st)]
    hooks = [(r'^std::uniform_(int|real)_distribution<.*>::operator\(\)$', draw)]
    lo, hi, lo2, hi2 = [('sym', x) for x in ('lo', 'hi', 'lo2', 'hi2')]

    def bounds(s, ip, v):
        while v[0] in ('op', 'call') and len(v) == 3:
            v = v[2]
        if v[0] != 'drawn' or v[1][0] != 'obj':
            return None
        d = v[1]
        a = d[2][2:] if d[2] and d[2][0] == 'new' else ()
        if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'obj':
            a = a[0][2][2:]
        e = v[2]
        return d[1], tuple(a), e[1] if e[0] == 'alias' else e
    for kind, t in (('integer', 'std::uniform_int_distribution'), ('real', 'std::uniform_real_distribution')):
        for engine in (('ptr', ('h', 'e'), ()), NIL):
            ip = Interp(prog, hooks=hooks)
            rets, throws = ip.run(prog.one('probe::%ss' % kind), State(), None, [engine, lo, hi])
            if not rep.require(len(rets) == 1 and not throws, 'C19:draw', 'making a randomizer has %d results' % len(rets), RANDOM):
                continue
            s0 = rets[0][0].put(M, ip.load(*rets[0]))
            for changed in (False, True):
                s = s0
                want = (lo, hi)
                if changed:
                    ip = Interp(prog, hooks=hooks)
                    rets, throws = ip.run(prog.one('probe::range' if kind == 'integer' else 'probe::rangeOfReals'), s, None, [('alias', M, ()), lo2, hi2])
                    if not rep.require(len(rets) == 1 and not throws, 'C19:draw:range', 'changing the range of a randomizer has %d results' % len(rets), RANDOM):
                        continue
                    s, want = rets[0][0], (lo2, hi2)
                ip = Interp(prog, hooks=hooks)
                rets, throws = ip.run(prog.one('probe::%s' % kind), s, None, [('alias', M, ())])
                rep.analysed(ip)
                if engine == NIL:
                    rep.require(not rets and throws, 'C19:draw:engine', 'a randomizer without an engine draws', RANDOM)
                    continue
                got = [bounds(s, ip, ip.load(s, v)) for s, v in rets]
                ok = not throws and got and all(g is not None and g[0].startswith(t) and g[1] == want and g[2] == ('h', 'e') for g in got)
                if rep.require(ok, 'C19:draw', 'a randomizer of %ss for %s draws from %s' % (kind, [x[1] for x in want], str(got)[:150]), RANDOM):
                    rep.ok('randomizer of %ss%s' % (kind, ' with a new range' if changed else ''), RANDOM)


# ------------------------------------------------------------------ verdicts
def oracle(name):
    """an answer of the simulator, the same whenever it is asked the same in one frame"""
    def h(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            k = (name,) + tuple(ip.load(s, v)[1] for v in vs if ip.load(s, v)[0] == 's')
            known = dict(s.g('said', ()))
            for b in ((known[k],) if k in known else (True, False)):
                out.append((s.gset(said=tuple(sorted({**known, k: b}.items()))), ('b', b)))
        return out
    return h


def event(name, fails=()):
    def h(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            s = s.event(name, *[ip.load(s, v) for v in vs])
            for x in fails:
                ip.throw(s, mkobj(x, ('thrown',), {}))
            out.append((s, ('sym', name)))
        return out
    return h


def quiet(ip, st, e, o, args, f):
    return [(s, ('sym', 'text')) for s, _ in ip.args(args, f, st)]


ERROR = 'common::scenario_simulator_exception::Error'
FAILURES = ('common::AutowareError', 'common::SimulationError', ERROR, 'std::runtime_error', 'std::out_of_range', 'probe::AnyException')
NAMED = {'common::AutowareError': 'autoware error', 'common::SimulationError': 'scenario simulator error', ERROR: 'scenario simulator error'}


class R(Interp):
    """remembers the exception that was thrown"""
    def throw(self, st, val):
        return super().throw(st.gset(thrown=val[1] if val[0] == 'obj' else '?'), val)


def named(prog, x):
    """the type of error an exception is reported as, None where that is left open"""
    if x in NAMED:
        return NAMED[x]
    return NAMED[ERROR] if ERROR in prog.bases(x) else None


def errors(ip, st):
    """types of the errors reported for the test case"""
    v = ip.load(st, ('alias', TC, ()))
    es = [w for k, w in v[3] if k.endswith('::error')]
    out = []
    if not es:
        return []
    if es[0][0] != 'list':
        return ['?']
    for x in es[0][1]:
        t = [w for k, w in x[3] if k.endswith('::type')] if x[0] == 'obj' else []
        out.append(t[0][1] if t and t[0][0] == 's' else '?')
    return out


HOOKS = [(r'::isGoalReached$', oracle('goal')), (r'::isAlmostStandingStill$', oracle('still')), (r'::checkCollision$', oracle('collides')), (r'::isEntityExist$', oracle('exists')),
         (r'::isThereEgosCollisionWith$', oracle('new')), (r'::isNpcLogicStarted$', oracle('started')), (r'::isEngaged$', oracle('engaged')), (r'^(std::)?isnan$', oracle('nan')),
         (r'API::getCurrentTime$', event('time')), (r'API::startNpcLogic$', event('start')), (r'^rclcpp::|^fmt::|get_logger|sleep_for', quiet)]


def executor(prog, npcs):
    T = 'TestDescription::npcs_descriptions'
    return State({ME: mkobj(X, ('x',), {
        X + '::error_reporter_': mkobj('JunitXmlReporterTestCase', None, {'JunitXmlReporterTestCase::testcase_': ('alias', TC, ())}),
        X + '::scenario_completed_': FALSE, X + '::test_timeout_': ('sym', 'timeout'), X + '::ego_name_': Sx('ego'), X + '::architecture_type_': I(1),
        X + '::test_description_': mkobj('TestDescription', ('d',), {T: ('list', tuple(mkobj('NPCDescription', (n,), {'NPCDescription::name': Sx(n)}) for n in npcs))})}),
        TC: mkobj('common::SimpleTestCase', ('tc',), {'common::SimpleTestCase::error': ('list', ())})})


def verdicts(rep, prog):
    npcs = ('n1', 'n2')
    done = ('alias', ME, (X + '::scenario_completed_',))
    # one frame
    ip = osc.interp(R, prog, [(r'API::updateFrame$', event('frame', FAILURES))] + HOOKS)
    rets, throws = ip.run(prog.one(X + '::update'), executor(prog, npcs), ('ptr', ME, ()), [])
    rep.analysed(ip)
    rep.count('paths', len(rets) + len(throws))
    rep.require(not throws, 'C19:frame:escape', '%s leaves the update of a test' % [x[1] for _, x in throws][:1], EXEC)
    before = len(rep.violations)
    now, limit = ('sym', 'time'), ('sym', 'timeout')
    for s, _ in rets:
        said = dict(s.g('said', ()))
        thrown = s.g('thrown')
        z = Zone(s.facts)
        got, over = errors(ip, s), ip.load(s, done)
        unknown = said.get(('nan',))
        late = None
        if not unknown:
            late = False if not z.admits(now, limit, '>=') else True if not z.admits(now, limit, '<') else None
            if not rep.require(late is not None, 'C19:frame:timeout', 'a frame does not consider the time limit', EXEC):
                continue
        goal = said.get(('goal',))
        if late:
            rep.require(goal is not None, 'C19:frame:goal', 'at the time limit it is not considered whether the goal is reached', EXEC)
            rep.require(got == ([] if goal else ['timeout']), 'C19:frame:timeout', 'at the time limit, with the goal %s, the errors are %s' % ('reached' if goal else 'not reached', got), EXEC)
            rep.require(over == TRUE, 'C19:frame:end', 'a test does not end at its time limit', EXEC)
            continue
        want = []
        for n in npcs:
            hit = [said.get(k) for k in (('exists', n), ('collides', 'ego', n), ('new', n))]
            if any(h is False for h in hit):
                continue
            if rep.require(None not in hit, 'C19:frame:collision', 'a collision with an NPC that exists is not looked for', EXEC):
                want.append('collision')
        still = said.get(('still',))
        rep.require(still is not None, 'C19:frame:still', 'it is not considered whether the ego stands still', EXEC)
        if still and rep.require(goal is not None, 'C19:frame:goal', 'on standstill it is not considered whether the goal is reached', EXEC) and not goal:
            want.append('stand still')
        rest = list(got)
        for w in want:
            if rep.require(w in rest, 'C19:frame:%s' % w.replace(' ', ''), 'the error "%s" is not reported' % w, EXEC):
                rest.remove(w)
        if thrown:
            rep.require(len(rest) == 1 and rest[0] == (named(prog, thrown) or rest[0]), 'C19:frame:exception:%s:%s' % (thrown, '+'.join(map(str, rest))), 'when the simulation fails with %s the errors are %s' % (thrown, rest), EXEC)
        else:
            rep.require(not rest, 'C19:frame:invented', 'the errors %s are reported without cause' % rest, EXEC)
            rep.require(len([x for x in s.g('trace', ()) if x[0] == 'frame']) == 1, 'C19:frame:step', 'a frame of a running test does not advance the simulation once', EXEC)
        over_want = bool((not unknown and goal) or still or thrown)
        if not unknown:
            rep.require(goal is not None, 'C19:frame:goal', 'it is not considered whether the goal is reached', EXEC)
        rep.require(over == ('b', over_want), 'C19:frame:end', 'a test ends: %s, instead of %s (goal %s, standstill %s, exception %s)' % (over, over_want, goal, still, thrown), EXEC)
    if len(rep.violations) == before:
        rep.ok('verdict of a frame', EXEC)
    # beginning and end of a test
    def spawn(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            n = ip.load(s, vs[0])
            for x in FAILURES:
                ip.throw(s, mkobj(x, ('thrown',), {}))
            out.append((s.event('spawn', n), ('sym', 'entity')))
        return out

    def despawn(ip, st, e, o, args, f):
        return [(s.event('despawn', ip.load(s, vs[0])), TRUE) for s, vs in ip.args(args, f, st)]

    def pose(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            out += [(s, ('some', ('sym', 'pose'))), (s, ('none',))]
        return out

    hooks = [(r'API::spawn', spawn), (r'API::despawn$', despawn), (r'pose::toCanonicalizedLaneletPose$', pose), (r'API::updateFrame$', event('frame'))] + HOOKS
    before = len(rep.violations)
    for fn, kind in (('initialize', 'spawn'), ('deinitialize', 'despawn')):
        ip = osc.interp(R, prog, hooks)
        rets, throws = ip.run(prog.one(X + '::' + fn), executor(prog, npcs), ('ptr', ME, ()), [])
        rep.analysed(ip)
        rep.count('paths', len(rets) + len(throws))
        rep.require(rets and not throws, 'C19:%s:escape' % fn, '%s of a test fails with %s' % (fn, [x[1] for _, x in throws][:1]), EXEC)
        for s, _ in rets:
            thrown, got, over = s.g('thrown'), errors(ip, s), ip.load(s, done)
            if thrown:
                rep.require(len(got) == 1 and got[0] == (named(prog, thrown) or got[0]), 'C19:%s:exception:%s:%s' % (fn, thrown, '+'.join(map(str, got))), 'when it fails with %s the errors are %s' % (thrown, got), EXEC)
                rep.require(over == TRUE, 'C19:%s:end' % fn, 'a test goes on after %s' % thrown, EXEC)
            else:
                rep.require(not got, 'C19:%s:invented' % fn, 'the errors %s are reported without cause' % got, EXEC)
                who = sorted(x[1][1] for x in s.g('trace', ()) if x[0] == kind and x[1][0] == 's')
                rep.require(who == sorted(('ego',) + npcs), 'C19:%s:entities' % fn, '%s is for %s' % (kind, who), EXEC)
    if len(rep.violations) == before:
        rep.ok('beginning and end of a test', EXEC)


# ------------------------------------------------------------------ replay
def replay(rep, prog):
    """what is stored of a test is read back the same"""
    def at(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            k = ip.load(s, vs[0])
            if k[0] != 's':
                return None
            out.append((s, ('alias', o[1], o[2] + ('yaml:' + k[1],))))
        return out

    def put(ip, st, e, o, args, f):
        return [(ip.store(s, (o[1], o[2]), ('scalar', ip.load(s, vs[0]))), o) for s, vs in ip.args(args, f, st)]

    def get(ip, st, e, o, args, f):
        v = ip.load(st, o)
        return [(st, v[1] if v[0] == 'scalar' else ('missing', v))]

    def yes(ip, st, e, o, args, f):
        return [(st, TRUE)]
    hooks = [(r'^YAML::Node::operator\[\]', at), (r'^YAML::Node::operator=', put), (r'^YAML::Node::as', get), (r'^YAML::Node::IsMap$', yes)]
    A, N, B = ('t', 'a'), ('t', 'node'), ('t', 'b')
    for t in ('TestSuiteParameters', 'TestCaseParameters'):
        ip = osc.interp(Interp, prog, hooks)
        fields = [f['q'] for f in prog.records[t]['f']]
        st = State({A: mkobj(t, ('a',), {q: ('sym', q) for q in fields})})
        enc, dec = prog.one('YAML::convert<%s>::encode' % t), prog.one('YAML::convert<%s>::decode' % t)
        rets, throws = ip.run(enc, st, None, [('alias', A, ())])
        rep.analysed(ip)
        good = rep.require(len(rets) == 1 and not throws, 'C19:replay', 'storing %s has %d results' % (t, len(rets)), YAMLH)
        for s, v in rets:
            ip2 = osc.interp(Interp, prog, hooks)
            s = s.put(N, ip.load(s, v)).put(B, mkobj(t, ('b',), {}))
            rets2, throws2 = ip2.run(dec, s, None, [('alias', N, ()), ('alias', B, ())])
            rep.analysed(ip2)
            good &= rep.require(rets2 and not throws2 and all(ip2.load(s2, v2) == TRUE for s2, v2 in rets2), 'C19:replay', 'what is stored of %s is not read' % t, YAMLH)
            for s2, _ in rets2:
                for q in fields:
                    w = ip2.load(s2, ('alias', B, (q,)))
                    while w[0] in ('cast', 'trunc') or (w[0] == 'call' and len(w) == 3):
                        w = w[2] if w[0] == 'call' else w[-1]
                    good &= rep.require(w == ('sym', q), 'C19:replay:field', '%s is stored and read back as %s' % (q, str(w)[:80]), YAMLH)
        if good:
            rep.ok('%s: %d fields stored and read' % (t, len(fields)), YAMLH)


# ------------------------------------------------------------------ drawing
def drawing(rep, prog):
    """the parameters decide what is drawn from; one engine, seeded with the seed of the test, feeds everything"""
    src = RT + 'src/test_randomizer.cpp'
    C = 'TestRandomizer'
    SUITE, CASE = ('t', 'suite'), ('t', 'case')

    def ids(ip, st, e, o, args, f):
        return [(st, ('sym', 'ids'))]

    def size(ip, st, e, o, args, f):
        return [(st, ('sym', 'count'))] if ip.load(st, o) == ('sym', 'ids') else None

    def empty(ip, st, e, o, args, f):
        return [(st, FALSE)] if ip.load(st, o) == ('sym', 'ids') else None
    hooks = [(r'::getLaneletIds$', ids), (r'::size$', size), (r'::empty$', empty)] + HOOKS
    ctors = [f for f in prog.by_name.get(C + '::' + C, []) if len(f.raw['p']) == 4]
    if not rep.require(len(ctors) == 1, 'C19:drawing', 'there is no one way to make a test randomizer', src):
        return
    suite = {f['q']: ('sym', f['q'].split('::')[-1]) for f in prog.records['TestSuiteParameters']['f']}
    st = State({SUITE: mkobj('TestSuiteParameters', None, suite), CASE: mkobj('TestCaseParameters', None, {'TestCaseParameters::seed': ('sym', 'seed')}), ME: mkobj(C, ('x',), {}),
                ('h', 'u'): mkobj('LaneletUtils', ('u',), {})})
    ip = osc.interp(Interp, prog, hooks)
    rets, throws = ip.run(ctors[0], st, ('ptr', ME, ()), [('sym', 'logger'), ('alias', SUITE, ()), ('alias', CASE, ()), ('ptr', ('h', 'u'), ())])
    rep.analysed(ip)
    if not rep.require(len(rets) == 1 and not throws, 'C19:drawing', 'making a test randomizer has %d results' % len(rets), src):
        return
    s = rets[0][0]
    me = dict(s.mem[ME][3])
    engines = set()
    found = []
    for q, v in me.items():
        if v[0] == 'obj' and v[1].startswith('UniformRandomizer'):
            parts = {k.split('::')[-1]: w for k, w in v[3]}
            ptrs = [w for w in parts.values() if w[0] == 'ptr']
            for p in ptrs:
                x = ip.load(s, ('alias', p[1], p[2]))
                if x[0] == 'obj' and 'distribution' in x[1]:
                    found.append((x[1].split('<')[0].split('_')[1], tuple(x[2][2:])))
                else:
                    engines.add((p[1], x))
    want = {('int', (I(0), 'count-1')), ('real', (('f', 0.0), ('f', 1.0))), ('real', (('sym', 'npc_min_speed'), ('sym', 'npc_max_speed')))}
    got = {(k, tuple('count-1' if linear_count(a) else a for a in r)) for k, r in found}
    rep.require(got == want, 'C19:drawing:ranges', 'a test draws from %s' % str(sorted(map(str, got)))[:300], src)
    seeds = [x[2][2:] for _, x in engines if x[0] == 'obj' and x[2] and x[2][0] == 'new']
    if rep.require(len(engines) == 1 and len(seeds) == 1 and len(seeds[0]) == 1 and seed_of(seeds[0][0]), 'C19:drawing:seed', 'a test draws from %d engines with the seeds %s' % (len(engines), str(seeds)[:100]), src):
        rep.ok('one engine with the seed of the test', src)


def seed_of(v):
    while v[0] in ('cast', 'trunc', 'call', 'wrap') and len(v) >= 2 and v != ('sym', 'seed'):
        v = v[-1]
    return v == ('sym', 'seed') or (v[0] == 'op' and ('sym', 'seed') in v)


def linear_count(a):
    from ..zones import linear
    return linear(a) == ({('sym', 'count'): 1}, -1)


SOURCES = ('std::random_device', 'std::chrono::', 'rand', 'random', 'srand', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getenv', 'std::this_thread::get_id', 'rclcpp::Clock')


def entropy(rep, prog):
    """nothing that drawing a test reaches reads a clock, a random device or another engine"""
    src = RT + 'src/test_randomizer.cpp'
    roots = [f for n, fs in prog.by_name.items() if n.startswith('TestRandomizer::') for f in fs if f.x.get('body')]
    rep.need(len(roots) >= 2, 'the functions of TestRandomizer are not found')
    seen, work, calls = set(), list(roots), 0
    while work:
        f = work.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for n in func_nodes(f):
            name = (n.get('f') or {}).get('n') if isinstance(n.get('f'), dict) else None
            t = n.get('t', '') if n.get('k') in ('ctor', 'new') else ''
            for what in (name or '', t):
                if not what:
                    continue
                calls += 1
                bad = any(what == x or (x.endswith('::') and what.startswith(x)) or what.startswith(x + '::') for x in SOURCES)
                if bad and what.startswith('std::chrono::') and 'now' not in what:
                    bad = False
                rep.require(not bad, 'C19:entropy', '%s, which draws for a test, uses %s' % (f.name if hasattr(f, 'name') else f.key, what), src)
            g = n.get('f') if isinstance(n.get('f'), dict) else None
            if g and g.get('k'):
                h = prog.func(g['k'])
                if h is not None and h.x.get('body'):
                    work.append(h)
    rep.count('functions reached by drawing', len(seen))
    rep.count('calls considered', calls)
    rep.ok('%d functions that drawing reaches' % len(seen), src)
