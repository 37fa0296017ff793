"""Closed vocabularies of the simulator: requests, routing graph types, transports, compatibility modes and routing options."""
from ..facts import load
from ..absint import Interp, State, mkobj, I, Sx, TRUE, FALSE
from .. import osc
from .c04_enum_text import interp as stream_interp

TS = 'simulation/traffic_simulator/src/'
INC = 'simulation/traffic_simulator/include/traffic_simulator/data_type/'
BEHAVIOR, GRAPH = TS + 'data_type/behavior.cpp', TS + 'data_type/routing_graph_type.cpp'
SI = 'simulation/simulation_interface/src/constants.cpp'
COMPAT = 'openscenario/openscenario_interpreter/src/compatibility.cpp'
LW = TS + 'lanelet_wrapper/lanelet_wrapper.cpp'
RC = 'traffic_simulator::RoutingConfiguration'
W = 'traffic_simulator::lanelet_wrapper::LaneletWrapper'
OS, A, B, IS, C, ME = ('o', 'os'), ('t', 'a'), ('t', 'b'), ('o', 'is'), ('t', 'c'), ('o', 'w')


def flat(v, numeric=(('sym', 'p'),)):
    """the parts of a text, joined where they are known"""
    out = []

    def go(v):
        if v[0] == 'cat':
            for x in v[1:]:
                go(x)
        elif v[0] == 'str' and v[1][0] == 'stream':
            for x in v[1][1]:
                go(x if x[0] in ('s', 'cat', 'str', 'tostr') else ('tostr', x) if numeric and x in numeric else x)
        elif v[0] == 's' and out and out[-1][0] == 's':
            out[-1] = Sx(out[-1][1] + v[1])
        elif v != ('s', ''):
            out.append(v)
    go(v)
    return out


class Use:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog

    def run(self, ip, fn, st, this, vals):
        rets, throws = ip.run(fn, st, this, list(vals))
        self.rep.analysed(ip)
        self.rep.count('paths', len(rets) + len(throws))
        return rets, throws

    def __call__(self, name, *vals, st=None, mk=None):
        ip = mk or osc.interp(Interp, self.prog)
        rets, throws = self.run(ip, self.prog.one('probe::' + name), st or State(), None, vals)
        return ip, rets, throws

    def values(self, name, *vals, st=None):
        ip, rets, throws = self(name, *vals, st=st)
        return list(dict.fromkeys(ip.load(s, v) for s, v in rets)), [x[1] for _, x in throws]

    def text(self, name, *vals):
        r, t = self.values(name, *vals)
        return [flat(v) for v in r], t

    def printed(self, name, v, st):
        ip, rets, throws = self(name, ('alias', OS, ()), v, st=st.put(OS, ('stream', ())))
        out = []
        for s, _ in rets:
            w = ip.load(s, ('alias', OS, ()))
            out.append(flat(('cat',) + w[1]) if w[0] == 'stream' else ['?'])
        return [(s, w) for (s, _), w in zip(rets, out)], [x[1] for _, x in throws]

    def fails(self, t, kind):
        return bool(t) and all(any(b.split('::')[-1] == kind for b in [x] + list(self.prog.bases(x))) for x in t)


def run(rep):
    rep.rule = 'abstract interpretation of the text and lookup functions on every enumerator and on a value outside of it, compared with the names of the enumerators in the source'
    prog = load([BEHAVIOR, GRAPH, SI, COMPAT, LW], probes=['labels.cpp'])
    use = Use(rep, prog)
    requests(rep, prog, use)
    graphs(rep, prog, use)
    endpoints(rep, prog, use)
    modes(rep, prog, use)
    options(rep, prog, use)
    wrapper(rep, prog, use)


def enumerators(prog, name):
    items = [(n, int(v)) for n, v in prog.enums[name]['e']]
    return items, max(v for _, v in items) + 9


def requests(rep, prog, use):
    items, bad = enumerators(prog, 'traffic_simulator::behavior::Request')
    for n, v in items:
        got, t = use.text('request', I(v))
        good = rep.require(got == [[Sx(n.lower())]] and not t, 'C18:request:string', 'the request string of %s is %s' % (n, got or t), BEHAVIOR)
        got, t = use.printed('printRequest', I(v), State())
        good &= rep.require([w for _, w in got] == [[Sx(n)]] and not t, 'C18:request:print', 'the request %s prints as %s' % (n, [w for _, w in got] or t), BEHAVIOR)
        if good:
            rep.ok('request %s' % n, BEHAVIOR)
    got, t = use.text('request', I(bad))
    rep.require(not got and use.fails(t, 'SemanticError'), 'C18:request:unknown', 'a value that is no request has the request string %s' % got, BEHAVIOR)


def graphs(rep, prog, use):
    items, bad = enumerators(prog, 'traffic_simulator::RoutingGraphType')
    seen = set()
    for n, v in items:
        got, t = use.text('graph', I(v))
        if rep.require(got == [[Sx(n)]] and not t, 'C18:graph', 'the routing graph type %s is called %s' % (n, got or t), GRAPH):
            rep.ok('routing graph type %s' % n, GRAPH)
        seen.add(n)
    got, t = use.text('graph', I(bad))
    rep.require(t or (len(got) == 1 and got[0] not in [[Sx(n)] for n in seen]), 'C18:graph:unknown', 'a value that is no routing graph type is called %s' % got, GRAPH)


def endpoints(rep, prog, use):
    port, host = ('sym', 'p'), ('sym', 'h')
    decimal = ('tostr', port)
    hosts, bad = enumerators(prog, 'simulation_interface::HostName')
    text = {'LOCALHOST': 'localhost', 'ANY': '*'}
    for n, v in hosts:
        if not rep.require(n in text, 'C18:host', 'the host name %s is not known to this rule' % n, SI):
            continue
        got, t = use.text('endpointOf', I(v), port)
        if rep.require(got == [[Sx('tcp://%s:' % text[n]), decimal]] and not t, 'C18:endpoint', 'the endpoint of host %s is %s' % (n, got or t), SI):
            rep.ok('endpoint of %s' % n, SI)
    got, t = use.text('endpointOf', I(bad), port)
    rep.require(not got and use.fails(t, 'SimulationError'), 'C18:endpoint:host', 'a value that is no host name has the endpoint %s' % got, SI)
    protocols, bad = enumerators(prog, 'simulation_interface::TransportProtocol')
    for n, v in protocols:
        got, t = use.text('endpointBy', I(v), port)
        rep.require(got == [[Sx('%s://*:' % n.lower()), decimal]] and not t, 'C18:endpoint', 'the endpoint by protocol %s is %s' % (n, got or t), SI)
    got, t = use.text('endpointBy', I(bad), port)
    rep.require(not got and use.fails(t, 'SimulationError'), 'C18:endpoint:protocol', 'a value that is no protocol has the endpoint %s' % got, SI)
    got, t = use.text('endpoint', host, port)
    if rep.require(got == [[Sx('tcp://'), host, Sx(':'), decimal]] and not t, 'C18:endpoint', 'the endpoint of a named host is %s' % (got or t), SI):
        rep.ok('endpoint of a named host', SI)


def modes(rep, prog, use):
    t = 'openscenario_interpreter::Compatibility'
    items, _ = enumerators(prog, t)
    value = dict(items)
    ip = stream_interp(prog)
    st = State({IS: ('stream0',), C: ('x0',)})
    _, rets, throws = use('mode', ('alias', IS, ()), ('alias', C, ()), st=st, mk=ip)
    got, err = {}, {}
    for s, v in rets:
        w = ip.resolve(s, ('text', 0))
        got.setdefault(w[1] if w[0] == 's' else None, set()).add(ip.load(s, ('alias', C, ())))
    for s, v in throws:
        w = ip.resolve(s, ('text', 0))
        err.setdefault(w[1] if w[0] == 's' else None, set()).add(v[1])
    for n in value:
        rep.require(got.get(n) == {I(value[n])} and n not in err, 'C18:mode', 'the word "%s" is read as %s' % (n, got.get(n, err.get(n))), COMPAT)
    rep.require(got.get('', {I(value['legacy'])}) == {I(value['legacy'])} and '' not in err, 'C18:mode:default', 'without a word the mode is %s' % got.get(''), COMPAT)
    other = (set(got) | set(err)) - set(value) - {''}
    if rep.require(None in err and not set(got) - set(value) - {''}, 'C18:mode:other', 'a word that names no mode is read as %s' % got.get(None), COMPAT):
        rep.ok('compatibility modes', COMPAT)
    rep.require(other == {None} and all(any(b.split('::')[-1] == 'Error' for b in [x] + list(prog.bases(x))) for x in err.get(None, ())), 'C18:mode:other', 'the words %s are special' % other, COMPAT)


def members(v):
    return {k.split('::')[-1]: w for k, w in v[3]} if v[0] == 'obj' else {}


def options(rep, prog, use):
    wh = INC + 'routing_configuration.hpp'
    types, bad = enumerators(prog, 'traffic_simulator::RoutingGraphType')
    value = dict(types)
    for fn, args, want in (('configuration', [('sym', 'b')], ('sym', 'b')), ('configuration0', [], FALSE)):
        got, t = use.values(fn, *args)
        m = members(got[0]) if len(got) == 1 else {}
        rep.require(not t and m.get('allow_lane_change') == want and m.get('routing_graph_type') == I(value['VEHICLE_WITH_ROAD_SHOULDER']), 'C18:configuration', 'a routing configuration starts as %s' % str(m), wh)
    fields = {f['n']: f['q'] for f in prog.records[RC]['f']} if 'n' in prog.records[RC]['f'][0] else {f['q'].split('::')[-1]: f['q'] for f in prog.records[RC]['f']}

    def conf(b, g):
        return mkobj(RC, None, {fields['allow_lane_change']: ('b', b), fields['routing_graph_type']: I(g)})
    grid = [(b, g) for b in (False, True) for _, g in types]
    for x in grid:
        for y in grid:
            got, t = use.values('equal', ('alias', A, ()), ('alias', B, ()), st=State({A: conf(*x), B: conf(*y)}))
            rep.require(got == [('b', x == y)] and not t, 'C18:configuration:equal', 'routing configurations %s and %s are equal: %s' % (x, y, got), wh)
        got, t = use.printed('print', ('alias', A, ()), State({A: conf(*x)}))
        name = {v: n for n, v in types}[x[1]]
        want = [Sx('{ allow_lane_change: %s, routing_graph_type: %s }' % ('true' if x[0] else 'false', name))]
        rep.require([w for _, w in got] == [want] and not t, 'C18:configuration:print', 'the routing configuration %s prints as %s' % (x, [w for _, w in got] or t), wh)
    # every field takes part: an unknown one must not make two configurations equal
    extra = set(fields) - {'allow_lane_change', 'routing_graph_type'}
    rep.require(not extra, 'C18:configuration:fields', 'routing configurations have fields this rule does not know: %s' % sorted(extra), wh)
    rep.ok('routing configurations', wh)
    wh = INC + 'route_option.hpp'
    for fn, names in (('option', ['allow_goal_modification', 'use_lane_ids_for_routing']), ('option1', ['allow_goal_modification'])):
        got, t = use.values(fn)
        m = members(got[0]) if len(got) == 1 else {}
        rep.require(not t and m == {n: FALSE for n in names}, 'C18:option', 'a route option starts as %s' % str(m), wh)
    v1 = 'traffic_simulator::v1::RouteOption'
    q = prog.records[v1]['f'][0]['q']
    for b in (TRUE, FALSE):
        got, t = use.values('convert', ('alias', A, ()), st=State({A: mkobj(v1, None, {q: b})}))
        m = members(got[0]) if len(got) == 1 else {}
        rep.require(not t and m == {'allow_goal_modification': b, 'use_lane_ids_for_routing': FALSE}, 'C18:option:convert', 'a route option of the first version with goal modification %s becomes %s' % (b[1], str(m)), wh)
    rep.ok('route options', wh)


def wrapper(rep, prog, use):
    """the graph, the rules and the cache looked up for a routing graph type are those of that type"""
    def instance(ip, st, e, o, args, f):
        return [(st, ('alias', ME, ()))]
    path = ('sym', 'path')
    ctors = [f for f in prog.by_name[W + '::LaneletWrapper'] if len(f.raw['p']) == 1 and not f.raw.get('defaulted')]
    if not rep.require(len(ctors) == 1, 'C18:map', 'there is no one way to make a map of a path', LW):
        return
    ip = osc.interp(Interp, prog)
    rets, throws = use.run(ip, ctors[0], State({ME: mkobj(W, ('w',), {})}), ('ptr', ME, ()), [path])
    if not rep.require(len(rets) == 1 and not throws, 'C18:map', 'a map of a path is made in %d ways' % len(rets), LW):
        return
    st = rets[0][0]
    de, shoulder = ('global', 'lanelet::Locations::Germany'), Sx('de_road_shoulder_passable')
    car, walker = ('global', 'lanelet::Participants::Vehicle'), ('global', 'lanelet::Participants::Pedestrian')
    want = {'VEHICLE': (de, car), 'VEHICLE_WITH_ROAD_SHOULDER': (shoulder, car), 'PEDESTRIAN': (de, walker)}
    types, bad = enumerators(prog, 'traffic_simulator::RoutingGraphType')

    def rules(v):
        v = strip(v)
        return v[2:4] if v[0] == 'call' and v[1].endswith('TrafficRulesFactory::create') else None

    def strip(v):
        while isinstance(v, tuple) and v and v[0] in ('deref', 'move', 'addr'):
            v = v[1]
        return v

    caches = {}
    for n, v in types + [(None, bad)]:
        got = {}
        for fn in ('routingGraph', 'trafficRules', 'routeCache'):
            ip = osc.interp(Interp, prog, [(r'::getInstance$', instance)])
            rets, throws = use.run(ip, prog.one(W + '::' + fn), st, None, [I(v)])
            if n is None:
                rep.require(not rets and use.fails([x[1] for _, x in throws], 'Error'), 'C18:map:unknown', '%s of a value that is no routing graph type succeeds' % fn, LW)
                continue
            vs = list(dict.fromkeys(v if v[0] == 'alias' else ip.load(s, v) for s, v in rets))
            if rep.require(len(vs) == 1 and not throws, 'C18:map:%s' % fn, '%s for %s has %d results, %d failures' % (fn, n, len(vs), len(throws)), LW):
                got[fn] = vs[0]
        if n is None or len(got) < 3:
            continue
        if not rep.require(n in want, 'C18:map', 'the routing graph type %s is not known to this rule' % n, LW):
            continue
        good = rep.require(rules(got['trafficRules']) == want[n], 'C18:map:rules', 'the traffic rules for %s are those of %s' % (n, rules(got['trafficRules'])), LW)
        g = strip(got['routingGraph'])
        made = g[0] == 'call' and g[1].endswith('RoutingGraph::build')
        good &= rep.require(made and rules(g[3]) == want[n], 'C18:map:graph', 'the routing graph for %s is built by the rules of %s' % (n, rules(g[3]) if made else '?'), LW)
        good &= rep.require(made and strip(g[2])[0] == 'call' and strip(g[2])[1].endswith('::load') and strip(g[2])[2:] == (path,), 'C18:map:loaded', 'the routing graph for %s is not that of the loaded map' % n, LW)
        c = got['routeCache']
        good &= rep.require(c[0] == 'alias' and c[1] == ME and c[2] not in caches, 'C18:map:cache', 'the route cache for %s is that for %s' % (n, caches.get(c[2])), LW)
        caches[c[2]] = n
        if good:
            rep.ok('map data for %s' % n, LW)
