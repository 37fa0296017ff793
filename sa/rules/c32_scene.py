"""The other simulator keeps the scene it is told of, and its sensors see that scene."""
import itertools
import re
from ..facts import load
from ..absint import Interp, State, I, TRUE, FALSE, VOID, NIL, Sx, mkobj, of_get
from .. import osc, pb

SRC = 'simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp'
CONV = 'simulation/simulation_interface/src/conversions.cpp'
CLS, API, MSG, GEO = 'simple_sensor_simulator::ScenarioSimulator', 'simulation_api_schema::', 'traffic_simulator_msgs::', 'geometry_msgs::'
ME, REQ = ('o', 'this'), ('o', 'request')
KINDS = {'vehicle': ('spawnVehicleEntity', 'VehicleParameters', 'VEHICLE'), 'pedestrian': ('spawnPedestrianEntity', 'PedestrianParameters', 'PEDESTRIAN'), 'misc': ('spawnMiscObjectEntity', 'MiscObjectParameters', 'MISC_OBJECT'),
         'ego': ('spawnVehicleEntity', 'VehicleParameters', 'EGO')}


def message(cls, **fields):
    return mkobj(cls, None, {'%s::%s' % (cls, k): v for k, v in fields.items()})


def pose(name):
    return message(GEO + 'Pose', position=message(GEO + 'Point', x=('sym', 'x of ' + name), y=('sym', 'y of ' + name)), orientation=message(GEO + 'Quaternion', w=('sym', 'w of ' + name)))


def box(name):
    return message(MSG + 'BoundingBox', dimensions=message(GEO + 'Vector3', x=('sym', 'length of ' + name)))


class Scene:
    def __init__(self, rep, prog, wire):
        self.rep, self.prog, self.wire = rep, prog, wire
        self.kind = wire.enums[MSG + 'EntityType_Enum']
        self.manual = 4

    # ---- the parts that are not the scene itself
    def hooks(self):
        def told(what, n=None, answer=VOID):
            def h(ip, st, e, o, args, f):
                out = []
                for s, vs in ip.args(args, f, st):
                    vs = [self.whole(ip, s, v) for v in vs]
                    out.append((s.event(what, tuple(vs[:n] if n else vs)), answer))
                return out
            return h

        def ego(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                r = ('ego', len([x for x in s.g('trace', ()) if x[0] == 'ego made']))
                s = s.event('ego made', tuple(self.whole(ip, s, v) for v in vs[:3]))
                aw = ('autoware', r[1])
                s = s.put(aw, mkobj('concealer::AutowareUniverse', ('autoware',), {})).put(r, mkobj('vehicle_simulation::EgoEntitySimulation', ('ego',), {'vehicle_simulation::EgoEntitySimulation::autoware': ('ptr', aw, ())}))
                out.append((s, ('ptr', r, ())))
            return out

        def mode(ip, st, e, o, args, f):
            R = 'autoware_vehicle_msgs::msg::ControlModeReport'
            fs = {x['q']: I(st.g('mode', 1)) for x in self.prog.records[R]['f'] if x['n'] == 'mode'}
            return [(st, mkobj(R, None, fs))]

        def status(ip, st, e, o, args, f):
            return [(st, ('t', 'status of the simulation'))]

        def translated(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                if self.whole(ip, s, vs[0]) != ('t', 'status of the simulation'):
                    return None
                out.append((ip.store(s, vs[1][1:], self.simulated()), VOID))
            return out
        return [(r'^std::make_shared$', lambda ip, st, e, o, a, f: ego(ip, st, e, o, a, f) if 'EgoEntitySimulation' in str(f.get('ta')) + f.get('rt', '') else None),
                (r'EgoEntitySimulation::overwrite$', told('overwrite')), (r'EgoEntitySimulation::update$', told('update')), (r'EgoEntitySimulation::getStatus$', status),
                (r'::getControlModeReport$', mode), (r'::setManualMode$', told('manual')), (r'^simulation_interface::toProto$', translated),
                (r'SensorSimulation::updateSensorFrame$', told('frame')), (r'SensorSimulation::attach\w+$', self.attach), (r'(lanelet_map|LaneletWrapper)::activate$', told('map')),
                (r'setConsiderPoseByRoadSlope$', lambda ip, st, e, o, a, f: [(st, VOID)]), (r'^common::getParameter$', lambda ip, st, e, o, a, f: [(st, FALSE)]),
                (r'get_node_parameters_interface$|get_parameter_or$', lambda ip, st, e, o, a, f: [(st, ('unk', 'parameters'))])]

    def attach(self, ip, st, e, o, args, f):
        return [(s.event('attach', f['n'].rsplit('::', 1)[1], self.whole(ip, s, vs[0]), self.whole(ip, s, vs[1])), VOID) for s, vs in ip.args(args, f, st)]

    def whole(self, ip, s, v):
        v = ip.load(s, v)
        while v[0] in ('ptr', 'alias'):
            v = ip.loadraw(s, v[1:])
        return v

    def simulated(self):
        return message(API + 'EntityStatus', name=Sx('ego'), type=message(MSG + 'EntityType', type=I(self.kind['EGO'])), pose=pose('the simulation'), action_status=message(MSG + 'ActionStatus', current_action=('sym', 'action of the simulation')))

    # ---- requests
    def ask(self, st, name, /, **fields):
        """([(state, response)], [(state, exception)]) of a request"""
        fn = self.prog.one('%s::%s' % (CLS, name))
        cls = API + name[0].upper() + name[1:] + 'Request'
        ip = osc.interp(Interp, self.prog, self.hooks() + self.wire.hooks(), opaque=[r'^google::', r'^rclcpp::Node', r'^concealer::', r'^vehicle_simulation::'])
        ip.MAXREC = 8
        s = st.gset(trace=()).put(REQ, message(cls, **fields))
        rets, throws = ip.run(fn, s, ('ptr', ME, ()), [('alias', REQ, ())])
        self.rep.analysed(ip)
        self.rep.count('paths', len(rets) + len(throws))
        return [(s, self.whole(ip, s, v)) for s, v in rets], throws

    def only(self, st, name, key, what, /, **fields):
        """the state and the response of a request that is granted"""
        rets, throws = self.ask(st, name, **fields)
        self.rep.require(len(rets) == 1 and not throws, key, '%s does not simply end: %d ways, %s' % (what, len(rets), [str(x[1])[:60] for s, x in throws]), SRC)
        return rets[0] if len(rets) == 1 and not throws else None

    def success(self, v, cls):
        r = of_get(v, '%s%sResponse::result' % (API, cls))
        return of_get(r, API + 'Result::success') if r is not None and r[0] == 'obj' else None

    def spawn(self, st, kind, name):
        fn, params, t = KINDS[kind]
        fs = dict(parameters=message(MSG + params, name=Sx(name), bounding_box=box(name)), pose=pose(name))
        if fn == 'spawnVehicleEntity':
            fs['is_ego'] = TRUE if kind == 'ego' else FALSE
        return self.ask(st, fn, **fs)

    def status(self, name, kind, at):
        return message(API + 'EntityStatus', name=Sx(name), type=message(MSG + 'EntityType', type=I(self.kind[KINDS[kind][2]])), subtype=message(MSG + 'EntitySubtype', value=I(0)), pose=pose(at),
                       action_status=message(MSG + 'ActionStatus', current_action=('sym', 'action of ' + at)))

    def seen(self, st, what):
        """what the sensors are given: (times, {name: (type, pose, box)}, lights)"""
        now = message('builtin_interfaces::Time', sec=('sym', 'sec'), nanosec=('sym', 'nanosec'))
        end = self.only(st, 'updateFrame', 'C32:frame', 'a frame (%s)' % what, current_simulation_time=('sym', 'now'), current_scenario_time=('sym', 'scenario now'), current_ros_time=now)
        if end is None:
            return None
        s, v = end
        fr = [x for x in s.g('trace', ()) if x[0] == 'frame']
        self.rep.require(len(fr) == 1 and self.success(v, 'UpdateFrame') == TRUE, 'C32:frame', 'in a frame (%s) the sensors are updated %d times and it is said to be %s' % (what, len(fr), self.success(v, 'UpdateFrame')), SRC)
        if len(fr) != 1:
            return None
        time, ros, entities, lights = fr[0][1]
        self.rep.require(time == ('sym', 'now') and all(str(('sym', t)) in str(ros) for t in ('sec', 'nanosec')), 'C32:frame:time', 'the sensors are given the time %s, %s' % (time, ros), SRC)
        got = []
        for x in entities[1] if entities[0] == 'list' else [None]:
            if x is None:
                return None
            g = lambda k: self.wire.get(x, k) if k in self.wire.msgs[x[1]] else None
            got.append((g('name'), g('type'), g('pose'), g('bounding_box'), g('action_status')))
        return s, got, lights

    def expect(self, st, want, what, key='C32:scene'):
        """the sensors see exactly the entities of {name: (kind, pose, action or None)}"""
        r = self.seen(st, what)
        self.rep.require(r is not None, key, 'what the sensors see is not understood (%s)' % what, SRC)
        if r is None:
            return
        s, got, lights = r
        names = sorted(x[0][1] for x in got if x[0][0] == 's')
        self.rep.require(names == sorted(want) and len(got) == len(want), key, '%s the sensors see %s instead of %s' % (what, names, sorted(want)), SRC)
        for n, t, p, b, a in got:
            if n[0] == 's' and n[1] in want:
                kind, at, act = want[n[1]]
                self.rep.require(self.wire.get(t, 'type') == I(self.kind[KINDS[kind][2]]), key + ':type', '%s the %s %s is seen as a %s' % (what, kind, n[1], t), SRC)
                self.rep.require(p == pose(at), key + ':pose', '%s the %s %s is seen at %s' % (what, kind, n[1], p), SRC)
                self.rep.require(b == box(n[1]), key + ':box', '%s the bounding box of the %s %s is %s' % (what, kind, n[1], b), SRC)
                if act:
                    self.rep.require(self.wire.get(a, 'current_action') == ('sym', 'action of ' + act), key + ':action', '%s the action of %s is %s' % (what, n[1], a), SRC)

    # ---- the property
    def empty(self):
        ip = osc.interp(Interp, self.prog, [])
        fs = {}
        for f in self.prog.records[CLS]['f']:
            z = ('list', ()) if re.match(r'std::\w*(map|set|vector|list|deque)<', f['t']) else ip.zero(f['t'])
            fs[f['q']] = z if z[0] in ('list', 'nil', 'none', 's') else mkobj(f['t'], None, {}) if f['t'] in self.prog.records or f['t'] in self.wire.msgs else ('sym', 'old ' + f['n'])
            if f['n'] == 'initialized_':
                fs[f['q']] = FALSE
        return State().put(ME, mkobj(CLS, None, fs))

    def begin(self, st):
        now = message('builtin_interfaces::Time', sec=('sym', 'first sec'), nanosec=('sym', 'first nanosec'))
        end = self.only(st, 'initialize', 'C32:initialize', 'initializing', realtime_factor=('sym', 'factor'), step_time=('sym', 'step'), initialize_time=('sym', 'first'), initialize_ros_time=now, lanelet2_map_path=Sx('map'))
        if end is None:
            return None
        s, v = end
        self.rep.require(self.success(v, 'Initialize') == TRUE, 'C32:initialize', 'initializing is not told to have succeeded', SRC)
        self.rep.require([x[1][0] for x in s.g('trace', ()) if x[0] == 'map'] == [Sx('map')], 'C32:initialize:map', 'the map that is given is not used', SRC)
        return s

    def scene(self, st, kinds):
        """a state in which an entity of each kind is there"""
        want = {}
        for k in kinds:
            n = k if k not in want else k + "'"
            rets, throws = self.spawn(st, k, n)
            ok = len(rets) == 1 and not throws and self.success(rets[0][1], 'Spawn%sEntity' % {'vehicle': 'Vehicle', 'ego': 'Vehicle', 'pedestrian': 'Pedestrian', 'misc': 'MiscObject'}[k]) == TRUE
            self.rep.require(ok, 'C32:spawn:' + k, 'a %s is not spawned' % k, SRC)
            if len(rets) != 1:
                return None
            st = rets[0][0]
            if k == 'ego':
                made = [x for x in st.g('trace', ()) if x[0] == 'ego made']
                self.rep.require(len(made) == 1 and made[0][1][2] == ('sym', 'step'), 'C32:spawn:ego:simulation', 'the ego is not simulated, once and at the step that was given', SRC)
                if made:
                    i = dict(made[0][1][0][3]) if made[0][1][0][0] == 'obj' else {}
                    self.rep.require({k.rsplit('::', 1)[-1]: v for k, v in i.items()}.get('name') == Sx(n) and 'x of ego' in str(i), 'C32:spawn:ego:status', 'the simulation of the ego does not begin with its name and pose', SRC)
                    self.rep.require('length of ego' in str(made[0][1][0]) and 'length of ego' in str(made[0][1][1]) and str(Sx(n)) in str(made[0][1][1]), 'C32:spawn:ego:box', 'the simulation of the ego does not begin with its parameters and its bounding box', SRC)
            want[n] = (k, n, None)
        return st, want

    def before(self):
        rets, throws = self.ask(self.empty(), 'updateFrame', current_simulation_time=('sym', 'now'))
        good = len(rets) == 1 and not throws and self.success(rets[0][1], 'UpdateFrame') in (FALSE, None) and not [x for x in rets[0][0].g('trace', ()) if x[0] == 'frame']
        self.rep.require(good, 'C32:frame:before', 'a frame is simulated before the simulation is initialized', SRC)

    def scenes(self, st):
        self.expect(st, {}, 'at the beginning')
        for kinds in (['vehicle'], ['pedestrian'], ['misc'], ['ego'], ['ego', 'vehicle', 'pedestrian', 'misc'], ['misc', 'vehicle', 'vehicle', 'ego'], ['pedestrian', 'pedestrian'], ['misc', 'pedestrian', 'misc']):
            r = self.scene(st, kinds)
            if r is None:
                continue
            s, want = r
            what = 'with ' + ', '.join(kinds)
            self.expect(s, want, what)
            # one is removed; the others stay
            for n in list(want) + ['nobody']:
                end = self.only(s, 'despawnEntity', 'C32:despawn', 'removing %s' % n, name=Sx(n))
                if end is None:
                    continue
                told = self.success(end[1], 'DespawnEntity')
                self.rep.require(told == (TRUE if n in want else FALSE), 'C32:despawn:told', '%s, removing %s is told to have %s' % (what, n, 'succeeded' if told == TRUE else 'failed'), SRC)
                held = [k.rsplit('::', 1)[-1] for k, v in end[0].mem[ME][3] if "('ptr', ('ego'," in str(v)]
                self.rep.require(bool(held) == ('ego' in want and n != 'ego'), 'C32:despawn:ego', '%s after %s is removed the simulation of the ego %s' % (what, n, 'goes on' if held else 'has ended'), SRC)
                self.expect(end[0], {k: v for k, v in want.items() if k != n}, '%s after %s is removed' % (what, n), 'C32:despawn')
                if n in want:
                    again = self.scene(end[0], [want[n][0]]) if n == want[n][0] else None
                    if again:
                        self.expect(again[0], want, '%s after %s is removed and spawned again' % (what, n), 'C32:respawn')
            # everything begins anew
            again = self.begin(s)
            if again is not None:
                self.expect(again, {}, '%s, after it is initialized again' % what, 'C32:initialize')
                for n in want:
                    end = self.only(again, 'despawnEntity', 'C32:initialize', 'removing %s, forgotten' % n, name=Sx(n))
                    self.rep.require(end is None or self.success(end[1], 'DespawnEntity') == FALSE, 'C32:initialize:forgotten', '%s, after it is initialized again %s is still there to be removed' % (what, n), SRC)
                r2 = self.scene(again, ['ego', 'vehicle'])
                if r2:
                    self.expect(r2[0], r2[1], 'with ego, vehicle after it is initialized again', 'C32:initialize')
            # there is one ego
            rets, throws = self.spawn(s, 'ego', 'second')
            if 'ego' in kinds:
                self.rep.require(not rets and throws, 'C32:ego:one', '%s, a second ego is not rejected' % what, SRC)
                for t, x in throws:
                    self.expect(t, want, '%s and a second ego that is rejected' % what, 'C32:ego:one')

    def updates(self, st):
        r = self.scene(st, ['ego', 'vehicle', 'pedestrian'])
        if r is None:
            return
        s, want = r
        r = self.seen(s, 'before an update')
        if r is None:
            return
        s = r[0]
        step = ('op', '+', ('sym', 'scenario now'), ('sym', 'step'))
        U = API + 'UpdateEntityStatusResponse::status'
        for names, manual, over, started in itertools.product((['vehicle'], ['pedestrian', 'vehicle'], ['ego'], ['vehicle', 'ego', 'pedestrian'], []), (False, True), (False, True), (False, True)):
            what = 'when %s are updated%s%s' % (names or 'none', ', by hand' if manual else '', ', to overwrite' if over else '')
            stats = [self.status(n, n, n + ' moved') for n in names]
            end = self.only(s.gset(mode=self.manual if manual else 1), 'updateEntityStatus', 'C32:update', what, status=('list', tuple(stats)), overwrite_ego_status=TRUE if over else FALSE, npc_logic_started=TRUE if started else FALSE)
            if end is None:
                continue
            s2, v = end
            self.rep.require(self.success(v, 'UpdateEntityStatus') == TRUE, 'C32:update', '%s this is not told to have succeeded' % what, SRC)
            got = of_get(v, U)
            got = got[1] if got is not None and got[0] == 'list' else ()
            exp = []
            for n in names:
                at = 'the simulation' if n == 'ego' else n + ' moved'
                exp.append((Sx(n), pose(at), ('sym', 'action of ' + at)))
            g = [(self.wire.get(x, 'name'), self.wire.get(x, 'pose'), self.wire.get(self.wire.get(x, 'action_status'), 'current_action')) for x in got]
            self.rep.require(g == exp, 'C32:update:told', '%s the answer says %s instead of %s' % (what, g, exp), SRC)
            tr = [x for x in s2.g('trace', ()) if x[0] in ('update', 'overwrite', 'manual')]
            if 'ego' not in names:
                self.rep.require(not tr, 'C32:update:ego', '%s the ego moves' % what, SRC)
            elif over or manual:
                moved = [x for x in tr if x[0] in ('update', 'overwrite')]
                good = len(moved) == 1 and moved[0][0] == 'overwrite' and moved[0][1][1:] == (step, ('sym', 'step'), TRUE if started else FALSE) and 'x of ego moved' in str(moved[0][1][0])
                self.rep.require(good, 'C32:update:overwrite', '%s the ego is not overwritten once, with the status that is given, for the next step: %s' % (what, moved), SRC)
                self.rep.require([x[0] for x in tr][:1] == ['manual'], 'C32:update:manual', '%s the ego is overwritten while Autoware drives it' % what, SRC)
            else:
                good = len(tr) == 1 and tr[0][0] == 'update' and tr[0][1] == (step, ('sym', 'step'), TRUE if started else FALSE)
                self.rep.require(good, 'C32:update:simulate', '%s the ego is not simulated once, for the next step: %s' % (what, tr), SRC)
            w = {n: (k, ('the simulation' if n == 'ego' else n + ' moved') if n in names else at, ('the simulation' if n == 'ego' else n + ' moved') if n in names else None) for n, (k, at, a) in want.items()}
            self.expect(s2, w, what, 'C32:update')
        rets, throws = self.ask(s, 'updateEntityStatus', status=('list', (self.status('nobody', 'vehicle', 'nobody'),)))
        self.rep.require(not rets and throws and all('SemanticError' in str(x[1]) for t, x in throws), 'C32:update:nobody', 'the status of an entity that is not there is not rejected', SRC)
        for t, x in throws:
            self.expect(t, want, 'after the status of nobody', 'C32:update:nobody')

    def others(self, st):
        """steps, lights and sensors"""
        end = self.only(st, 'updateStepTime', 'C32:step', 'changing the step', simulation_step_time=('sym', 'other step'))
        self.rep.require(end is None or self.success(end[1], 'UpdateStepTime') == TRUE, 'C32:step:told', 'changing the step is not told to have succeeded', SRC)
        r = self.scene_of_ego(end[0]) if end else None
        if r:
            got = self.only(r, 'updateEntityStatus', 'C32:step', 'an update', status=('list', (self.status('ego', 'ego', 'ego'),)))
            tr = [x for x in got[0].g('trace', ()) if x[0] == 'update'] if got else []
            self.rep.require(len(tr) == 1 and tr[0][1][1] == ('sym', 'other step'), 'C32:step', 'the ego is simulated for %s after the step is changed' % ([x[1] for x in tr],), SRC)
        L = API + 'UpdateTrafficLightsRequest'
        s = st
        for k in (1, 2):
            lights = ('list', tuple(message(API + 'TrafficSignal', id=('sym', 'light %d of %d' % (i, k))) for i in range(3 - k)))
            end = self.only(s, 'updateTrafficLights', 'C32:lights', 'telling the traffic lights', states=lights)
            if end is None:
                break
            s = end[0]
            self.rep.require(self.success(end[1], 'UpdateTrafficLights') == TRUE, 'C32:lights:told', 'telling the traffic lights is not told to have succeeded', SRC)
            r = self.seen(s, 'with traffic lights')
            if r is None:
                break
            self.rep.require(self.wire.get(r[2], 'states') == lights, 'C32:lights', 'the sensors see the traffic lights %s, not those that were last told' % (r[2],), SRC)
        for n in ('ImuSensor', 'DetectionSensor', 'LidarSensor', 'OccupancyGridSensor', 'PseudoTrafficLightDetector'):
            req = API + 'Attach%sRequest' % n
            t = self.wire.msgs[req]['configuration'][0]
            f = next(f for f, x in self.wire.msgs[t].items() if x[0] == 'string')
            conf = message(t, **{f: ('sym', 'configuration')})
            end = self.only(st, 'attach' + n, 'C32:attach:' + n, 'attaching a ' + n, configuration=conf)
            if end is None:
                continue
            tr = [x for x in end[0].g('trace', ()) if x[0] == 'attach']
            good = len(tr) == 1 and tr[0][1].rstrip('s') in ('attach' + n, 'attach' + n.replace('LightDetector', 'LightsDetector')) and tr[0][2:] == (('sym', 'first'), conf) and self.success(end[1], 'Attach' + n) == TRUE
            self.rep.require(good, 'C32:attach:' + n, 'a %s is not attached once as it is configured: %s' % (n, tr), SRC)

    def scene_of_ego(self, st):
        rets, throws = self.spawn(st, 'ego', 'ego')
        return rets[0][0] if len(rets) == 1 and not throws else None

    # ---- the sensors
    def sensors(self, prog):
        """each sensor that is attached is given the frame once, and what the lidars detect goes to those that come after"""
        S, F = 'simple_sensor_simulator::', 'simulation/simple_sensor_simulator/src/sensor_simulation/sensor_simulation.cpp'
        fn = prog.one(S + 'SensorSimulation::updateSensorFrame')
        kinds = {'Imu': S + 'ImuSensorBase', 'Lidar': S + 'LidarSensorBase', 'Detection': S + 'DetectionSensorBase', 'Occupancy': S + 'OccupancyGridSensorBase', 'Traffic': S + 'traffic_lights::TrafficLightsDetector'}
        members = {}
        for f in prog.records[S + 'SensorSimulation']['f']:
            m = re.search(r'(Imu|Lidar|Detection|Occupancy|Traffic)', f['t'])
            self.rep.require(m is not None and f['t'].startswith('std::vector') and m.group(1) not in members, 'C32:sensors', 'the sensors %s are not understood' % f['q'], F)
            members[m.group(1) if m else f['q']] = f['q']

        def update(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                for s2, at in ([(s, o)] if o[0] in ('ptr', 'alias') else []):
                    out.append((s2.event('given', at[1], tuple(self.whole(ip, s2, v) for v in vs)), VOID))
            return out or None

        def detected(ip, st, e, o, args, f):
            return [(st, ('list', tuple(Sx(n) for n in sees[o[1][2]])))]
        entities, lights, time, ros = ('list', (message(MSG + 'EntityStatus', name=Sx('a')), message(MSG + 'EntityStatus', name=Sx('b')))), message(API + 'UpdateTrafficLightsRequest', states=('list', (('sym', 'light'),))), ('sym', 'now'), ('sym', 'ros now')
        for n, sees in itertools.product((0, 1, 2), (([], []), (['a'], []), (['a'], ['b']), (['a', 'b'], ['b', 'c']), (['b'], ['a', 'b']))):
            st, fs = State(), {}
            for k, q in members.items():
                roots = [('sensor', k, i) for i in range(n)]
                for r in roots:
                    st = st.put(r, mkobj(kinds[k], ('own',) + r, {}))
                fs[q] = ('list', tuple(('ptr', r, ()) for r in roots))
            st = st.put(ME, mkobj(S + 'SensorSimulation', None, fs)).put(('o', 'entities'), entities).put(('o', 'lights'), lights).put(('o', 'ros'), ros).gset(trace=())
            ip = osc.interp(Interp, prog, [(r'^simple_sensor_simulator::(traffic_lights::)?\w+::(update|updateFrame)$', update), (r'LidarSensorBase::getDetectedObjects$', detected)] + self.wire.hooks(), opaque=[r'^google::', r'^rclcpp::Node'])
            ip.MAXREC = 8
            rets, throws = ip.run(fn, st, ('ptr', ME, ()), [time, ('alias', ('o', 'ros'), ()), ('alias', ('o', 'entities'), ()), ('alias', ('o', 'lights'), ())])
            self.rep.analysed(ip)
            self.rep.count('paths', len(rets) + len(throws))
            what = 'with %d sensors of each kind of which the lidars see %s' % (n, sees[:n])
            self.rep.require(len(rets) == 1 and not throws, 'C32:sensors', '%s a frame does not simply end' % what, F)
            if len(rets) != 1:
                continue
            told = [x[1:] for x in rets[0][0].g('trace', ()) if x[0] == 'given']
            seen = sorted(set(sum(sees[:n], [])))
            for k in members:
                mine = [x for x in told if x[0][1] == k]
                self.rep.require(sorted(x[0][2] for x in mine) == list(range(n)), 'C32:sensors:' + k, '%s the sensors (%s) that are given the frame are %s' % (what, k, [x[0][2] for x in mine]), F)
                for r, vs in mine:
                    rest = [v for v in vs if v not in (time, ros, entities, lights)]
                    need = {'Imu': [ros, entities], 'Traffic': [ros, lights]}.get(k, [time, entities, ros])
                    good = all(v in vs for v in need) and (k not in ('Imu', 'Lidar', 'Traffic') or not rest)
                    if k in ('Detection', 'Occupancy'):
                        good = good and len(rest) == 1 and rest[0][0] == 'list' and sorted(set(x[1] for x in rest[0][1] if x[0] == 's')) == seen
                    self.rep.require(good, 'C32:sensors:' + k, '%s a sensor (%s) is given %s' % (what, k, vs), F)
            order = [x[0][1] for x in told]
            late = [i for i, k in enumerate(order) if k == 'Lidar']
            self.rep.require(not late or not [k for k in order[:max(late)] if k in ('Detection', 'Occupancy')], 'C32:sensors:order', '%s sensors are given what lidars detected before all of them have looked: %s' % (what, order), F)

    def rates(self, prog):
        """a sensor looks once each duration, and what a lidar saw is sent once, in order, after its delay"""
        S = 'simple_sensor_simulator::'
        D = 'simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/'
        for k, cls, base, conf, look, where in (('Lidar', S + 'LidarSensor<sensor_msgs::msg::PointCloud2>', S + 'LidarSensorBase', API + 'LidarConfiguration', 'raycast', D + 'lidar/lidar_sensor.hpp'),
                                                ('Occupancy', S + 'OccupancyGridSensor<nav_msgs::msg::OccupancyGrid>', S + 'OccupancyGridSensorBase', API + 'OccupancyGridSensorConfiguration', 'getOccupancyGrid', D + 'occupancy_grid/occupancy_grid_sensor.hpp')):
            fn = prog.one(cls + '::update')
            fields = prog.records[base]['f'] + prog.records[cls]['f']
            seen = [f['q'] for f in fields if re.match(r'(const )?std::(set|vector)<std::(__cxx11::)?basic_string', f['t'])]
            doubles = [f['q'] for f in fields if f['t'] == 'double']
            self.rep.require(len(seen) == 1 and len(doubles) == 1, 'C32:rates', 'what a sensor (%s) keeps is not understood' % k, where)
            if len(seen) != 1 or len(doubles) != 1:
                continue

            def looked(ip, st, e, o, args, f):
                out = []
                for s, vs in ip.args(args, f, st):
                    n = s.g('looks', 0)
                    s = ip.store(s.gset(looks=n + 1).event('look', tuple(self.whole(ip, s, v) for v in vs)), (ME, (seen[0],)), ('list', (Sx('seen %d' % n),)))
                    out.append((s, ('t', 'look %d' % n)))
                return out

            def publish(ip, st, e, o, args, f):
                return [(s.event('sent', self.whole(ip, s, vs[0])), VOID) for s, vs in ip.args(args, f, st)]
            for duration, delay, step in itertools.product((0.125, 0.126, 0.129, 0.3125), (0.0, 0.15625, 0.3), (0.0625, 0.125)):
                if k != 'Lidar' and delay:
                    continue
                cf = dict(scan_duration=('f', duration), lidar_sensor_delay=('f', delay)) if k == 'Lidar' else dict(update_duration=('f', duration))
                fs = {}
                for f in fields:
                    t = re.sub(r'^const ', '', f['t'])
                    fs[f['q']] = (('f', 1.0) if t == 'double' else message(conf, **cf) if t == conf else ('ptr', ('o', 'publisher'), ()) if 'rclcpp::Publisher' in t
                                  else ('list', ()) if re.match(r'std::(set|vector|queue|deque|list)<', t) else NIL if t.startswith('std::unique_ptr') else ('t', f['n']))
                st = State().put(ME, mkobj(cls, None, fs)).put(('o', 'publisher'), mkobj('rclcpp::Publisher', ('publisher',), {}))
                last, queue, looks, what = 1.0, [], 0, 'a sensor (%s) of duration %s, delay %s in frames of %s' % (k, duration, delay, step)
                for i in range(1, 14):
                    t, sent = 1.0 + i * step, []
                    new = t - last - duration >= -0.002
                    if new:
                        last = t
                        queue.append((looks, t))
                        looks += 1
                    if queue and t - queue[0][1] >= delay:
                        sent.append(queue.pop(0)[0])
                    entities, ros, lidar = ('list', (message(MSG + 'EntityStatus', name=Sx('at %d' % i)),)), ('sym', 'ros %d' % i), ('list', (Sx('by lidar'),))
                    s = st.gset(trace=()).put(('o', 'entities'), entities).put(('o', 'ros'), ros).put(('o', 'lidar'), lidar)
                    ip = osc.interp(Interp, prog, [(r'::%s$' % look, looked), (r'(^|::)publish$', publish)] + self.wire.hooks(), opaque=[r'^google::', r'^rclcpp::Node'])
                    ip.MAXREC = 8
                    args = [('f', t), ('alias', ('o', 'entities'), ()), ('alias', ('o', 'ros'), ())] + ([('alias', ('o', 'lidar'), ())] if k != 'Lidar' else [])
                    rets, throws = ip.run(fn, s, ('ptr', ME, ()), args)
                    self.rep.analysed(ip)
                    self.rep.count('paths', len(rets) + len(throws))
                    self.rep.require(len(rets) == 1 and not throws, 'C32:rates', '%s is not simply updated: %d ways, %s' % (what, len(rets), [str(x[1])[:60] for s, x in throws]), where)
                    if len(rets) != 1:
                        break
                    st = rets[0][0]
                    tr = st.g('trace', ())
                    want = (entities, ros) + ((lidar,) if k != 'Lidar' else ())
                    self.rep.require([x[1] for x in tr if x[0] == 'look'] == [want] * new, 'C32:rates:look:' + k, '%s looks %d times at %s' % (what, len([x for x in tr if x[0] == 'look']), t), where)
                    self.rep.require([x[1] for x in tr if x[0] == 'sent'] == [('t', 'look %d' % n) for n in sent], 'C32:rates:send:' + k, '%s sends %s at %s, not %s' % (what, [x[1] for x in tr if x[0] == 'sent'], t, sent), where)
                    if k == 'Lidar':
                        got = dict(st.mem[ME][3])[seen[0]]
                        self.rep.require(got == ('list', (Sx('seen %d' % (looks - 1)),) if new else ()), 'C32:rates:seen', '%s has detected %s at %s' % (what, got, t), where)


def run(rep):
    rep.rule = ('abstract interpretation of each request to the simulator of sensors, in sequences over scenes of each kind of entity, with numbers as symbols and the sensors and the simulation of the ego as events: '
                'what the sensors are given in a frame is the scene that was told')
    prog = load([SRC, CONV])
    rep.need(not prog.errors, 'the simulator does not parse: %s' % prog.errors[:3])
    wire = pb.Wire()
    c = Scene(rep, prog, wire)
    st = c.begin(c.empty())
    rep.need(st is not None, 'initializing is not understood')
    def part(r, which):
        if which in ('sensors', 'rates'):
            other = load(['simulation/simple_sensor_simulator/src/sensor_simulation/sensor_simulation.cpp'])
            r.need(not other.errors, 'the simulation of sensors does not parse: %s' % other.errors[:3])
            return getattr(Scene(r, other, wire), which)(other)
        x = Scene(r, prog, wire)
        getattr(x, which)(*([] if which == 'before' else [st]))
    rep.fan(part, ['before', 'scenes', 'updates', 'others', 'sensors', 'rates'])
