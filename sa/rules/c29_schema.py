"""The elements of a scenario are read as the schema says: names, types, cardinalities, alternatives, and where they are kept."""
import glob
import os
import re
import xml.etree.ElementTree as ET
from ..facts import load, REPO
from ..absint import Interp, State, Sx, I, NIL, VOID, Undecided, mkobj, of_get, strip_type
from .. import osc

OSI = 'openscenario/openscenario_interpreter/'
SYN, INC = OSI + 'src/syntax/', OSI + 'include/openscenario_interpreter/syntax/'
NS = 'openscenario_interpreter::'
XSD = 'openscenario/openscenario_validator/schema/OpenSCENARIO-%s.xsd'
NODE, INNER, TH = ('t', 'node'), ('t', 'scope'), ('t', 'this')
MANY = 10 ** 9

# names of types in the code that differ from the schema's
SAME = {'String': 'std::basic_string', 'UnsignedInt': 'UnsignedInteger', 'Int': 'Integer', 'EntityRef': 'Entity', 'ByObjectType': 'ByType', 'DateTime': 'std::basic_string'}

# what docs/developer_guide/OpenSCENARIOSupport.md says is ignored, not supported or (the whole class) unimplemented
UNREAD = {k: set(v.split()) for k, v in {
    'AccelerationCondition': 'direction', 'SpeedCondition': 'direction', 'RelativeSpeedCondition': 'direction',
    'AssignControllerAction': 'activateAnimation activateLateral activateLighting activateLongitudinal ObjectController',
    'ByValueCondition': 'TimeOfDayCondition VariableCondition', 'Catalog': 'Trajectory', 'Controller': 'controllerType', 'ControllerAction': 'OverrideControllerValueAction ActivateControllerAction',
    'DistanceCondition': 'alongRoute', 'DistributionRange': 'stepWidth', 'EntityObject': 'ExternalObjectReference', 'FollowTrajectoryAction': 'Trajectory CatalogReference',
    'GlobalAction': 'TrafficAction VariableAction SetMonitorAction', 'ObjectController': 'name', 'OverrideControllerValueAction': 'Brake Clutch Gear ParkingBrake SteeringWheel Throttle',
    'Pedestrian': 'role model', 'Phase': 'TrafficSignalGroupState TrafficeSignalGroupState', 'PrivateAction': 'AppearanceAction TrailerAction', 'Properties': 'CustomContent',
    'RelativeClearanceCondition': 'oppositeLanes', 'RoadNetwork': 'UsedArea', 'RoutingAction': 'RandomRouteAction', 'ScenarioDefinition': 'MonitorDeclarations VariableDeclarations',
    'ScenarioObject': 'ExternalObjectReference', 'Shape': 'ClothoidSpline', 'StochasticDistribution': 'LogNormalDistribution', 'StochasticDistributionType': 'LogNormalDistribution',
    'TimeHeadwayCondition': 'coordinateSystem relativeDistanceType routingAlgorithm', 'TimeToCollisionCondition': 'alongRoute', 'TransitionDynamics': 'followingMode',
    'Vehicle': 'mass role Trailer TrailerCoupler TrailerHitch', 'Weather': 'cloudState'}.items()}
# alternatives that are rejected as not supported
REFUSED = {k: set(v.split()) for k, v in {
    'ByValueCondition': 'TimeOfDayCondition', 'EntityCondition': 'AngleCondition EndOfRoadCondition OffroadCondition RelativeAngleCondition TraveledDistanceCondition', 'GlobalAction': 'TrafficAction',
    'LateralAction': 'LaneOffsetAction LateralDistanceAction', 'LongitudinalAction': 'LongitudinalDistanceAction',
    'Position': 'GeoPosition RelativeLanePosition RelativeRoadPosition RoadPosition RoutePosition TrajectoryPosition',
    'PrivateAction': 'ActivateControllerAction SynchronizeAction VisibilityAction', 'Shape': 'Clothoid Nurbs'}.items()}
# attributes that the schema demands but the simulator makes up (a relaxation: what is valid reads the same)
RELAXED = {('Actors', 'selectTriggeringEntities'), ('Condition', 'delay'), ('LanePosition', 'roadId'), ('ManeuverGroup', 'maximumExecutionCount'), ('Performance', 'maxAcceleration'),
           ('Performance', 'maxDeceleration'), ('Performance', 'maxSpeed'), ('Phase', 'duration'), ('RelativeTargetSpeed', 'continuous'), ('RelativeTargetSpeed', 'speedTargetValueType'), ('Route', 'closed')}
# optional only in favour of a deprecated alternative that is not supported
INSTEAD = {('FollowTrajectoryAction', 'TrajectoryRef')}
# the value a property may have (OpenSCENARIO XML 1.3 model documentation); (low, high, high included)
PI = 3.141592653589793
INF = float('inf')
RANGES = {('Sun', 'azimuth'): (0, 2 * PI), ('Sun', 'elevation'): (-PI, PI), ('Sun', 'illuminance'): (0, INF), ('Sun', 'intensity'): (0, INF), ('RoadCondition', 'frictionScaleFactor'): (0, INF),
          ('Fog', 'visualRange'): (0, INF), ('DomeImage', 'azimuthOffset'): (0, 2 * PI), ('Wind', 'direction'): (0, 2 * PI), ('Wind', 'speed'): (0, INF), ('Precipitation', 'intensity'): (0, 1),
          ('Precipitation', 'precipitationIntensity'): (0, INF), ('Weather', 'atmosphericPressure'): (80000, 120000), ('Weather', 'temperature'): (170, 340)}

# what is taken for a property that is left out
MISSING = {**{(c, 'max' + x): INF for c in ('Performance', 'DynamicConstraints') for x in ('Speed', 'Acceleration', 'AccelerationRate', 'Deceleration', 'DecelerationRate')},
           **{('Orientation', x): 0 for x in 'hpr'}, **{('WorldPosition', x): 0 for x in 'zhpr'}, ('RelativeWorldPosition', 'dz'): 0, ('RelativeObjectPosition', 'dz'): 0, ('LanePosition', 'offset'): 0,
           ('LaneChangeAction', 'targetLaneOffset'): 0, ('Condition', 'delay'): 0, ('FollowTrajectoryAction', 'initialDistanceOffset'): 0, ('Phase', 'duration'): INF, ('RelativeClearanceCondition', 'distanceForward'): 0,
           ('RelativeClearanceCondition', 'distanceBackward'): 0, ('Route', 'closed'): 0, ('RelativeTargetSpeed', 'continuous'): 0, ('TrafficSignalController', 'delay'): 'nan', ('Vertex', 'time'): 'nan',
           ('SpeedProfileEntry', 'time'): 'nan', ('Event', 'maximumExecutionCount'): 1, ('Stochastic', 'randomSeed'): 0, ('SpeedProfileAction', 'entityRef'): '', ('TrafficSignalController', 'reference'): ''}
# what a document is, told by the element it has, and the node it is read from
DOCUMENTS = {'Storyboard': ('ScenarioDefinition', None), 'Catalog': ('CatalogDefinition', None), 'ParameterValueDistribution': ('ParameterValueDistribution', 'ParameterValueDistribution')}


def camel(a):
    return re.sub(r'[A-Z]', lambda m: '_' + m.group(0).lower(), a[0].lower() + a[1:])


def schema(version):
    """class -> (attributes {name: (type, required)}, elements {name: (type, min, max)}, groups of alternatives)"""
    root = ET.parse(os.path.join(REPO, XSD % version)).getroot()
    X = '{http://www.w3.org/2001/XMLSchema}'
    types = {c.get('name'): c for c in root if c.tag in (X + 'complexType', X + 'group')}

    def particles(e, lo, hi, out):
        for c in e:
            a, b = int(c.get('minOccurs', '1')), c.get('maxOccurs', '1')
            b = MANY if b == 'unbounded' else int(b)
            if c.tag == X + 'element':
                out[c.get('name')] = (c.get('type'), min(lo, 1) * a, max(b, hi) if max(b, hi) > 1 else b)
            elif c.tag == X + 'group':
                particles(types[c.get('ref')], min(lo, a), max(hi, b), out)
            elif c.tag == X + 'choice':
                particles(c, 0, max(hi, b), out)
            elif c.tag in (X + 'sequence', X + 'all'):
                particles(c, min(lo, a), max(hi, b), out)
            elif c.tag in (X + 'complexContent', X + 'simpleContent', X + 'extension'):
                particles(c, lo, hi, out)
        return out

    return {n: ({a.get('name'): (a.get('type'), a.get('use') == 'required') for a in c.iter(X + 'attribute')}, particles(c, 1, 1, {})) for n, c in types.items()}


def both(s2, s3):
    """what either version has; what both demand, and what the newest leaves open"""
    out = {}
    for n in set(s2) | set(s3):
        versions = [s[n] for s in (s2, s3) if n in s]
        A, E = {}, {}
        for a in set().union(*[v[0] for v in versions]):
            has = [v[0][a] for v in versions if a in v[0]]
            last = versions[-1][0].get(a)
            A[a] = ({x[0] for x in has}, len(has) == len(versions) and all(x[1] for x in has), not (last and last[1]))
        for e in set().union(*[v[1] for v in versions]):
            has = [v[1][e] for v in versions if e in v[1]]
            last = versions[-1][1].get(e)
            E[e] = ({x[0] for x in has}, last[1] if last else 0, max(x[2] for x in has))
        out[n] = (A, E)
    return out


def xml(who):
    return mkobj('pugi::xml_node', who, {'pugi::xml_node::_root': ('t', 'xml', who)})


def number(v):
    return mkobj(NS + 'Double', None, {NS + 'Double::data': v})


def short(t):
    return (t or '?').replace(NS, '').split('<')[0]


def fits(types, code):
    return any(short(code) in (t, SAME.get(t)) for t in types)


class Reading:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        self.sch = both(schema('1.2'), schema('1.3'))
        self.ctors = {}
        for n, fs in prog.by_name.items():
            m = re.match(r'openscenario_interpreter::(\w+)::(\w+)$', n)
            if m and m.group(1) == m.group(2):
                for f in fs:
                    ps = f.x['p']
                    if len(ps) >= 2 and 'pugi::xml_node' in ps[0]['t']:
                        self.ctors.setdefault(m.group(1), []).append(f)
        self.empty, self.seen, self.defaults = {}, {}, {}

    def may_be_missing(self, t):
        """is readElement content with no such element, i.e. does it make a default?"""
        if t not in self.empty:
            n = NS + 'MustBeDefaultConstructible<%s, void>::makeItOrThrow' % t
            fs = self.prog.by_name.get(n)
            if not fs:
                fs = [f for f in self.prog.by_name.get(NS + 'MustBeDefaultConstructible::makeItOrThrow', ())]
            if not fs:
                return None
            ip = osc.interp(Interp, self.prog, [(r'^%s::%s$' % (re.escape(t), t.split('::')[-1]), lambda ip, st, e, o, a, f: [(st, mkobj(t, ('t', 'default'), {}))])], opaque=[r'::'])
            rets, _ = ip.run(fs[0], State(), None, [('t', 'error')])
            self.empty[t] = bool(rets)
        return self.empty[t]

    # ---- the reader, as seen by its callers
    def name_of(self, ip, s, v):
        v = ip.load(s, v)
        return v[1] if v[0] == 's' else v

    def node_of(self, ip, s, v):
        if v[0] in ('alias', 'ptr'):
            x = ip.loadraw(s, v[1:])
            while x[0] in ('alias', 'ptr'):
                v, x = x, ip.loadraw(s, x[1:])
            if x[0] != 'obj':
                return v[1]
        else:
            x = ip.load(s, v)
        w = of_get(x, 'pugi::xml_node::_root') if x[0] == 'obj' else None
        if w is not None and w[:2] == ('t', 'xml'):
            return w[2]
        return (x[2] if x[2] is not None else v[1]) if x[0] == 'obj' else x

    @staticmethod
    def plain(v):
        """the number, text or truth that a value is"""
        while v[0] == 'obj':
            if not v[3]:
                return 0  # value-initialized
            inner = [x for k, x in v[3] if x[0] in ('obj', 'f', 'i', 'b', 's', 'list', 'call')]
            if len(inner) != 1:
                return '?'
            v = inner[0]
        return v[1] if v[0] in ('f', 'i', 'b', 's', 'call') else str(v)[:60]

    def read(self, c, kind, values):
        def h(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                ta = [strip_type(x) if isinstance(x, str) else x for x in (f.get('ta') or [])]
                group = kind == 'groups'
                nm = '*' if group else self.name_of(ip, s, vs[0])
                nd = self.node_of(ip, s, vs[0 if group else 1])
                rest = () if kind in ('elements', 'groups') else tuple(ip.load(s, v) for v in vs[3:])
                default = 'none'
                if rest:
                    r = rest[0]
                    if kind == 'attribute' and isinstance(nm, str):
                        self.defaults.setdefault((c, nm), set()).add(self.plain(r))
                    default = 'extra' if kind == 'element' and not (r[0] == 'obj' and r[1] == ta[0]) else 'default'
                s = s.event('read', kind, nm, nd, ta[0] if ta else '?', default, tuple(int(str(x).rstrip('L')) for x in ta[1:3]) if kind in ('elements', 'groups') else ())
                v = values.get(nm)
                if v is None:
                    out.append((s, ('t', 'read', kind, nm)))
                else:
                    out.append((s, v if isinstance(v, tuple) else number(('f', v))))
            return out
        return h

    def traverse(self, ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            nm = self.name_of(ip, s, vs[1])
            s = s.event('read', 'traverse', nm, self.node_of(ip, s, vs[0]), '?', 'none', tuple(int(str(x).rstrip('L')) for x in (f.get('ta') or [])[:2]))
            s = s.put(('n', nm), xml(('n', nm)))
            out += [(x, VOID) for x, v in ip.call_closure(ip.load(s, vs[2]), s, [('alias', ('n', nm), ())], e)]
        return out

    def choice(self, ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            m = ip.load(s, vs[1])
            if m[0] != 'list':
                raise Undecided('alternatives are not listed')
            for x in m[1]:
                k = ip.load(s, of_get(x, 'std::pair::first'))[1]
                s1 = s.event('read', 'choice', k, self.node_of(ip, s, vs[0]), '?', 'none', ()).put(('n', k), xml(('n', k)))
                r = ip.call_closure(ip.load(s1, of_get(x, 'std::pair::second')), s1, [('alias', ('n', k), ())], e)
                out += [(s2, ip.load(s2, v)) for s2, v in r]
                if not r:
                    out.append((s1.event('unsupported', k), NIL))
        return out

    def make(self, ip, st, e, o, args, f):
        ta = [strip_type(x) for x in (f.get('ta') or []) if isinstance(x, str)]
        r = []
        for s, vs in ip.args(args, f, st):
            k = tuple(self.node_of(ip, s, v) for v in vs[:2])
            s = s.event('make', ta[0] if ta else '?', k)
            r.append((s, ('ptr', ('made', ta[0] if ta else '?', k), ())))
        return r

    def analyse(self, c, how='', values={}):
        if (c, how) in self.seen and not values:
            return self.seen[c, how]
        f = self.ctors[c][0]
        kids = self.sch.get(c, ({}, {}))[1]
        if c == 'InitActions':
            kids = {'GlobalAction': 1, 'UserDefinedAction': 1, 'Private': 1}
        scope = mkobj(NS + 'Scope', INNER, {NS + 'Scope::actors': ('list', ())})
        st = State().put(TH, mkobj(NS + c, TH, {})).put(NODE, xml(NODE)).put(INNER, scope)

        def children(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                ks = [self.name_of(ip, s, vs[0])] if vs else list(kids)
                for k in ks:
                    s = s.event('read', 'each' if vs else 'children', k, self.node_of(ip, s, o), '?', 'none', ())
                out.append((s, ('list', tuple(xml(('n', k)) for k in ks))))
            return out

        def name(ip, st, e, o, a, f):
            n = self.node_of(ip, st, o)
            return [(st, Sx(n[1]) if n[0] == 'n' else Sx(c))]

        def catalog(ip, st, e, o, a, f):
            if len(a) != 2 or c == 'CatalogReference':
                return None
            return [(s, mkobj(NS + 'CatalogReference', ('ref', self.node_of(ip, s, vs[0])), {})) for s, vs in ip.args(a, f, st)]

        def catalogued(ip, st, e, o, a, f):
            n = self.node_of(ip, st, o)
            return [(st.event('make', 'catalog', (n[1] if n[0] == 'ref' else n,)), ('ptr', ('catalog', n), ()))]

        def emplace(ip, st, e, o, a, f):
            if len(a) != 3:
                return None
            return [(s, VOID) for s, vs in ip.args(a, f, st)]  # key and value are made from the node; the value has an analysis of its own

        def child(ip, st, e, o, a, f):
            out = []
            for s, vs in ip.args(a, f, st):
                k = self.name_of(ip, s, vs[0])
                out.append((s, mkobj('pugi::xml_node', ('n', k), {'pugi::xml_node::_root': ('t', 'xml', ('n', k)), 'found': I(1)}) if isinstance(k, str) and self.node_of(ip, s, o) == NODE else ('t', 'child', k)))
            return out

        def there(ip, st, e, o, a, f):
            return [(st, ('sym', 'there is %s' % (self.node_of(ip, st, o),)))]

        def direct(ip, st, e, o, a, f):
            # an element made from the child that has been looked up, without readElement
            t = f['n'].rsplit('::', 1)[0]
            if len(a) != 2 or t == NS + c:
                return None
            out = []
            for s, vs in ip.args(a, f, st):
                x = ip.load(s, vs[0])
                if x[0] != 'obj' or x[1] != 'pugi::xml_node' or of_get(x, 'found') is None:
                    return None
                n = self.node_of(ip, s, vs[0])
                out.append((s.event('read', 'element', n[1], NODE, t, 'default', ()), ('t', 'read', 'element', n[1])))
            return out

        def drawn(ip, st, e, o, a, f):
            return [(s.event('drawn', f['n'].split('::')[-1], tuple(ip.load(s, v) for v in vs)), ('t', 'distribution')) for s, vs in ip.args(a, f, st)]

        A = r'^openscenario_interpreter::(reader::)?'
        hooks = [(r'^pugi::xml_node::children$', children), (r'^pugi::xml_node::name$', name), (r'CatalogReference::CatalogReference$', catalog), (r'CatalogReference::make$', catalogued),
                 (r'^boost::math::constants::pi$', lambda ip, st, e, o, a, f: [(st, ('f', PI))])]
        hooks.append((r'^std::(unordered_)?map<.*>::emplace$', emplace))
        hooks += [(r'^pugi::xml_node::child$', child), (r'^pugi::xml_node::(operator(?! ?[=!<>])|empty)', there), (r'^openscenario_interpreter::(\w+)::\1$', direct)]
        hooks.append((r'^std::(normal|uniform_real|poisson)_distribution<.*>::(normal|uniform_real|poisson)_distribution$', drawn))
        hooks += [(A + 'readAttribute$', self.read(c, 'attribute', values)), (A + 'readElement$', self.read(c, 'element', values)), (A + 'readElements$', self.read(c, 'elements', values)), (A + 'readGroups$', self.read(c, 'groups', values)),
                  (A + 'traverse$', self.traverse), (A + 'choice$', self.choice), (r'^openscenario_interpreter::make$', self.make)]
        ip = osc.interp(Interp, self.prog, hooks, opaque=[r'::resolve_reference$', r'boost::filesystem', r'^boost::'])
        ip.MAXREC = 8
        rets, throws = ip.run(f, st, ('ptr', TH, ()), [('alias', NODE, ()), ('alias', INNER, ())] + [('sym', 'x%d' % i) for i in range(len(f.x['p']) - 2)])
        self.rep.analysed(ip)
        seen = []
        for s, v in list(rets) + list(throws):
            for x in s.g('trace', ()):
                if x not in seen:
                    seen.append(x)
        if not values:
            self.seen[c, how] = ip, rets, throws, seen
        return ip, rets, throws, seen

    def judge(self, c):
        rep = self.rep
        W = self.where(c)
        ip, rets, throws, seen = self.analyse(c)
        if not rep.require(bool(rets), 'C29:read:%s' % c, 'no element %s can be read' % c, W):
            return
        A, E = self.sch[c]
        key = lambda x: 'C29:%s.%s' % (c, x)
        reads = [x for x in seen if x[0] == 'read' and x[3] == NODE]
        stray = [x[2] for x in seen if x[0] == 'read' and x[3] != NODE and not (isinstance(x[3], tuple) and x[3][0] == 'n')]
        rep.require(not stray, key('node'), '%s reads %s from another node than its own' % (c, stray), W)
        attrs = {x[2]: x for x in reads if x[1] == 'attribute'}
        elems = {}
        for x in reads:
            if x[1] != 'attribute':
                elems.setdefault(x[2], []).append(x)
        made = {}
        for x in seen:
            if x[0] == 'make' and x[2] and isinstance(x[2][0], tuple) and x[2][0][0] == 'n':
                made.setdefault(x[2][0][1], []).append(x[1])
        refused = {x[1] for x in seen if x[0] == 'unsupported'}
        ignored = UNREAD.get(c, set())
        if c == 'OpenScenarioCategory':
            for k, (t, n) in DOCUMENTS.items():
                ok = False
                for s, v in rets:
                    tr = [x for x in s.g('trace', ()) if x[0] in ('read', 'make')]
                    ok = ok or len(tr) == 2 and tr[0][1:3] == ('choice', k) and tr[1][1] == NS + t and tr[1][2][0] == (NODE if n is None else ('n', n))
                rep.require(ok, key(k), 'a document with %s is not read as a %s' % (k, t), W)
                made.setdefault(k, [])
        for a in sorted(set(A) | set(attrs), key=str):
            rep.count('attributes')
            if a not in A:
                rep.require(attrs[a][5] != 'none', key(a), '%s demands the attribute %s, which the schema does not have' % (c, a), W)
                continue
            types, required, open_ = A[a]
            if not rep.require(a in attrs or a in ignored, key(a), '%s does not read its attribute %s' % (c, a), W) or a not in attrs:
                continue
            x = attrs[a]
            rep.require(fits(types, x[4]), key(a), '%s reads its attribute %s as %s instead of %s' % (c, a, short(x[4]), ' or '.join(sorted(types))), W)
            if open_:
                rep.require(x[5] != 'none' or self.skipped(rets, x), key(a), '%s demands the attribute %s, which the schema makes optional' % (c, a), W)
            if required and (c, a) not in RELAXED:
                rep.require(x[5] == 'none', key(a), '%s makes up the attribute %s, which the schema demands' % (c, a), W)
        if '*' in elems:
            return self.group(c, elems['*'][0], E, W)
        for k in sorted(set(E) | set(elems), key=str):
            rep.count('elements')
            xs = elems.get(k, [])
            if k not in E:
                rep.require(all(self.optional(x) for x in xs), key(k), '%s demands the element %s, which the schema does not have' % (c, k), W)
                continue
            types, lo, hi = E[k]
            types = types | {k}
            if not rep.require(bool(xs) or k in ignored or c == 'OpenScenarioCategory' and k not in DOCUMENTS, key(k), '%s does not read its element %s' % (c, k), W):
                continue
            rep.require(hi == 1 or not xs or any(x[1] != 'element' for x in xs), key(k) + ':first', '%s reads only the first of the elements %s' % (c, k), W)
            for x in xs:
                if x[1] == 'element' or x[1] == 'elements':
                    rep.require(fits(types, x[4]), key(k), '%s reads its element %s as %s instead of %s' % (c, k, short(x[4]), ' or '.join(sorted(types))), W)
                if x[6]:
                    rep.require(x[6][1] >= hi and (x[6][0] <= lo or lo == 0 and self.skipped(rets, x)), key(k), '%s takes %s to %s elements %s, the schema %s to %s' % ((c,) + x[6] + (k, lo, hi)), W)
                    rep.require(x[6][0] >= lo, key(k), '%s takes %s elements %s, the schema demands %s' % (c, x[6][0], k, lo), W)
                if lo == 0:
                    rep.require(self.optional(x) or self.skipped(rets, x) or (c, k) in INSTEAD, key(k) + ':demanded', '%s demands the element %s, which the schema makes optional' % (c, k), W)
            if any(x[1] in ('choice', 'children') for x in xs) and c != 'OpenScenarioCategory':
                rep.require(bool(made.get(k)) or k in refused or any(x[1] in ('elements', 'traverse') for x in xs), key(k), '%s makes nothing of its alternative %s' % (c, k), W)
                rep.require(k not in refused or k in REFUSED.get(c, ()), key(k), '%s refuses its alternative %s' % (c, k), W)
            for t in made.get(k, ()):
                rep.require(fits(types, t) or t == 'catalog', key(k), '%s makes %s of its element %s' % (c, short(t), k), W)

    def optional(self, x):
        if x[1] in ('choice', 'children', 'each'):
            return True
        if x[6]:
            return x[6][0] == 0
        return x[5] == 'default' or bool(self.may_be_missing(x[4]))

    def skipped(self, rets, x):
        """can an element be read without this?"""
        return any(x not in s.g('trace', ()) for s, v in rets)

    def group(self, c, x, E, W):
        """members of the group one after another, whichever they are"""
        rep = self.rep
        lo = min([e[1] for e in E.values()] + [1])
        rep.require(x[6][1] >= max(e[2] for e in E.values()), 'C29:%s.*' % c, '%s takes at most %s of its elements' % (c, x[6][1]), W)
        rep.require(x[6][0] <= 1, 'C29:%s.*' % c, '%s demands %s of its elements' % (c, x[6][0]), W)
        member = short(x[4])
        if not rep.require(member in self.ctors, 'C29:%s.*' % c, '%s reads its elements as %s' % (c, member), W):
            return
        ip, rets, throws, seen = self.analyse(member, 'read as a member')
        have = {y[2] for y in seen if y[0] == 'read' and y[1] == 'choice'}
        for k in E:
            rep.require(k in have, 'C29:%s.%s' % (c, k), '%s does not read its element %s' % (c, k), W)

    def members(self, c):
        """what has the name of a property has its value"""
        rep = self.rep
        A, E = self.sch[c]
        names = {camel(a): a for a in list(A) + list(E)}
        ip, rets, throws, seen = self.analyse(c)
        for s, v in rets:
            for m, value in self.kept(ip.loadraw(s, (TH, ()))):
                m = m.split('::')[-1]
                if m in names or m in A or m in E:
                    rep.count('members')
                    own = names.get(m, m)
                    rep.require(value == own or value not in A and value not in E, 'C29:%s.%s' % (c, own), '%s keeps its %s as its %s' % (c, value, own), self.where(c))

    def kept(self, v, name=None, depth=0):
        if depth > 6 or not isinstance(v, tuple) or not v:
            return
        if v[0] == 't' and len(v) == 4 and v[1] == 'read':
            if name:
                yield name, v[3]
        elif v[0] == 'obj':
            for k, x in v[3]:
                yield from self.kept(x, name or (k if isinstance(k, str) and not k.startswith('<') else None), depth + 1)

    def ranges(self):
        """a property is accepted if it is in its range, and rejected otherwise"""
        rep = self.rep
        for (c, a), (lo, hi) in sorted(RANGES.items()):
            W = self.where(c)
            others = {b: sum(r if r[1] < INF else (0, 2)) / 2 for (d, b), r in RANGES.items() if d == c}
            low = [(lo - 1e-6, False), (lo, True), ((lo + min(hi, lo + 10)) / 2, True)]
            high = [(1e9, True)] if hi == INF else [(hi - 1e-6, True), (hi + 1e-6, False)]
            for x, ok in low + high:
                rep.count('ranges')
                ip, rets, throws, seen = self.analyse(c, values={**others, a: x})
                rep.need(len(rets) + len(throws) > 0, '%s is neither accepted nor rejected' % c)
                rep.require(not (throws if ok else rets), 'C29:%s.%s' % (c, a), '%s %s its %s of %s, which is %s its range' % (c, 'rejects' if ok else 'accepts', a, round(x, 6), 'in' if ok else 'out of'), W)

    def where(self, c):
        p = SYN + camel(c) + '.cpp'
        return p if os.path.exists(os.path.join(REPO, p)) else INC + camel(c) + '.hpp'


    def missing(self):
        for (c, a), want in sorted(MISSING.items()):
            got = self.defaults.get((c, a), set())
            self.rep.count('defaults')
            self.rep.require(got in (set(), {want}), 'C29:%s.%s' % (c, a), '%s takes %s for a missing %s instead of %s' % (c, sorted(got, key=str), a, want if want != '' else 'an empty text'), self.where(c))

    def distributions(self):
        """a distribution is drawn with the parameters that were read"""
        x, y, lo, hi = ('sym', 'expected value'), ('sym', 'variance'), ('sym', 'lower limit'), ('sym', 'upper limit')
        R = NS + 'Range'
        values = {'expectedValue': number(x), 'variance': number(y), 'Range': mkobj(R, None, {R + '::lower_limit': number(lo), R + '::upper_limit': number(hi)})}
        for c, how, what in (('UniformDistribution', 'uniform_real_distribution', lambda a: a == (lo, hi)), ('PoissonDistribution', 'poisson_distribution', lambda a: a == (x,)),
                             ('NormalDistribution', 'normal_distribution', lambda a: len(a) == 2 and a[0] == x and a[1][0] == 'call' and a[1][1].endswith(('sqrt', 'pow')) and a[1][2:] in (((y,), ((y,),)) if a[1][1].endswith('sqrt') else ((y, ('f', 0.5)),)))):
            ip, rets, throws, seen = self.analyse(c, values=values)
            got = [e[1:] for e in seen if e[0] == 'drawn']
            self.rep.count('distributions')
            self.rep.require(len(got) == 1 and got[0][0] == how and what(got[0][1]), 'C29:%s:drawn' % c, '%s is drawn with %s' % (c, str(got)[:160]), self.where(c))


def run(rep):
    rep.rule = ('abstract interpretation of the constructor of each syntax element over an opaque node: attributes, elements and alternatives read compared with the OpenSCENARIO 1.2 and 1.3 schemas in name, type and '
                'number, what is made of each alternative, in which member each value is kept, and which values are rejected')
    files = sorted(SYN + os.path.basename(x) for x in glob.glob(os.path.join(REPO, SYN, '*.cpp'))) + [OSI + 'src/reader/element.cpp']
    prog = load(files)
    rep.need(not prog.errors, 'the syntax elements do not parse: %s' % prog.errors[:3])
    reading = Reading(rep, prog)
    known = [c for c in sorted(reading.ctors) if c in reading.sch]
    rep.need(len(known) > 150, 'the syntax elements vanished')
    for c in known:
        reading.judge(c)
        reading.members(c)
    reading.missing()
    reading.ranges()
    reading.distributions()
