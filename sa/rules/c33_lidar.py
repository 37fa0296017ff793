"""A lidar tells of each hit whose body was hit."""
import itertools
import re
from ..facts import load
from ..absint import Interp, State, I, TRUE, FALSE, VOID, NIL, Sx, mkobj, of_get
from .. import osc, pb

DIR = 'simulation/simple_sensor_simulator/src/sensor_simulation/lidar/'
RAY, LIDAR, CONV = DIR + 'raycaster.cpp', DIR + 'lidar_sensor.cpp', 'simulation/simulation_interface/src/conversions.cpp'
N = 'simple_sensor_simulator::'
C, L = N + 'Raycaster', N + 'LidarSensor<sensor_msgs::msg::PointCloud2>'
API, MSG, GEO = 'simulation_api_schema::', 'traffic_simulator_msgs::', 'geometry_msgs::'
ME = ('o', 'this')


def message(cls, **fields):
    return mkobj(cls, None, {'%s::%s' % (cls, k): v for k, v in fields.items()})


def status(name):
    p = message(GEO + 'Pose', position=message(GEO + 'Point', **{k: ('sym', '%s of %s' % (k, name)) for k in 'xyz'}), orientation=message(GEO + 'Quaternion', **{k: ('sym', 'q%s of %s' % (k, name)) for k in 'xyzw'}))
    return message(MSG + 'EntityStatus', name=Sx(name), pose=p)


def whole(ip, s, v):
    v = ip.load(s, v)
    while v[0] in ('ptr', 'alias'):
        v = ip.loadraw(s, v[1:])
    return v


class Lidar:
    def __init__(self, rep, prog, wire):
        self.rep, self.prog, self.wire = rep, prog, wire

    def run(self, fn, st, args, hooks):
        ip = osc.interp(Interp, self.prog, hooks + self.wire.hooks(), opaque=[r'^google::', r'^rclcpp::Node', r'^pcl::', r'^Eigen::'])
        ip.MAXREC = 8
        rets, throws = ip.run(fn, st.gset(trace=()), ('ptr', ME, ()), args)
        self.rep.analysed(ip)
        self.rep.count('paths', len(rets) + len(throws))
        return ip, rets, throws

    # ---- the bodies in the scene, and the hits
    def bodies(self):
        fn = self.prog.one(C + '::raycast')
        for names, ids, stay in ((('a',), (5,), 1), (('a', 'b'), (9, 2), 1), (('b', 'a', 'c'), (1, 0, 4), 1), ((), (), 1), (('a', 'b'), (0, 1), 2), (('a', 'b', 'c'), (2, 0, 1), 2)):
            for hits in itertools.chain([()], itertools.product(ids, repeat=1), itertools.product(ids, repeat=2), [ids + (77,), (77,)]):
                self.cast(fn, names, ids, hits, 'when the bodies of %s are in the scene as %s and the rays hit %s' % (list(names), list(ids), list(hits)))

    def cast(self, fn, names, ids, hits, what):
        def add(ip, st, e, o, args, f):
            r = o[1] if o[0] in ('ptr', 'alias') else None
            if r is None or r[0] != 'body':
                return None
            return [(s.event('added', r[1], tuple(whole(ip, s, v) for v in vs)), I(ids[r[1]])) for s, vs in ip.args(args, f, st)]

        def told(kind):
            def h(ip, st, e, o, args, f):
                return [(s.event(kind, *[whole(ip, s, v) for v in vs]), VOID) for s, vs in ip.args(args, f, st)]
            return h

        def intersect(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                at = [v for v in vs if v[0] == 'alias' and whole(ip, s, v)[0] == 'list']
                if len(at) != 1:
                    return None
                s = s.event('looked', tuple(whole(ip, s, v) for v in vs if v is not at[0]))
                out.append((ip.store(s, at[0][1:], ('list', tuple(I(h) for h in hits))), VOID))
            return out
        st = State()
        elems = []
        E = C + '::Entity'
        for i, n in enumerate(names):
            st = st.put(('status', i), status(n)).put(('body', i), mkobj(N + 'primitives::Box', ('body', i), {}))
            elems.append(mkobj(E, None, {E + '::entity_status': ('alias', ('status', i), ()), E + '::primitive': ('ptr', ('body', i), ()), E + '::geometry_id': ('none',)}))
        origin = mkobj('geometry_msgs::msg::Pose', None, {'geometry_msgs::msg::Pose::position': ('sym', 'origin')})
        fs = {f['q']: ('sym', 'scene') if 'RTCScene' in f['t'] else ('sym', 'device') if 'RTCDevice' in f['t'] else ('list', ()) if f['t'].startswith('std::vector') else ('t', f['n']) for f in self.prog.records[C]['f']}
        st = st.put(ME, mkobj(C, None, fs)).put(('o', 'entities'), ('list', tuple(elems))).put(('o', 'origin'), origin)
        ip, rets, throws = self.run(fn, st, [('alias', ('o', 'origin'), ()), ('alias', ('o', 'entities'), ()), ('sym', 'far'), ('sym', 'near')],
                                    [(r'::addToScene$', add), (r'^rtcDetachGeometry$', told('removed')), (r'^rtcCommitScene$', told('ready')), (r'Raycaster::intersect$', intersect)])
        self.rep.require(len(rets) == 1 and not throws, 'C33:cast', '%s a scan does not simply end: %d ways, %s' % (what, len(rets), [str(x[1])[:50] for s, x in throws]), RAY)
        if len(rets) != 1:
            return
        s, v = rets[0]
        tr = s.g('trace', ())
        self.rep.require(sorted(x[1] for x in tr if x[0] == 'added') == list(range(len(names))), 'C33:cast:added', '%s the bodies that are put into the scene are %s' % (what, [x[1] for x in tr if x[0] == 'added']), RAY)
        self.rep.require(sorted(x[2][1] for x in tr if x[0] == 'removed') == sorted(ids), 'C33:cast:removed', '%s the bodies that are taken out of the scene again are %s' % (what, [x[2] for x in tr if x[0] == 'removed']), RAY)
        order = [x[0] for x in tr]
        good = order.count('looked') == 1 and [k for k in order if k in ('ready', 'looked')][:2] == ['ready', 'looked'] and 'added' not in order[order.index('ready'):] and 'removed' not in order[:order.index('looked')]
        self.rep.require(good, 'C33:cast:order', '%s the rays do not meet a scene that is ready and has every body in it: %s' % (what, order), RAY)
        look = [x[1] for x in tr if x[0] == 'looked']
        self.rep.require(bool(look) and origin in look[0] and look[0].count(('sym', 'far')) == 1 and look[0].index(('sym', 'far')) < look[0].index(('sym', 'near')), 'C33:cast:origin', '%s the rays do not begin where they should: %s' % (what, look), RAY)
        # whose body was hit
        R = C + '::RaycastResult'
        s = s.put(('o', 'result'), v)
        ip2 = osc.interp(Interp, self.prog, self.wire.hooks(), opaque=[r'^google::', r'^pcl::'])
        ip2.MAXREC = 8
        r2, t2 = ip2.run(self.prog.one(R + '::getDetectedEntityNames'), s, ('ptr', ('o', 'result'), ()), [])
        self.rep.analysed(ip2)
        want = sorted(set(names[ids.index(h)] for h in hits if h in ids))
        got = [sorted(x[1] for x in whole(ip2, q, d)[1] if x[0] == 's') if whole(ip2, q, d)[0] == 'list' else None for q, d in r2]
        self.rep.require(got == [want] and not t2, 'C33:cast:hits', '%s those that are detected are %s, not %s' % (what, got, want), RAY)

    # ---- what a sensor looks at
    def looks(self):
        fn = self.prog.one(L + '::raycast')
        base = N + 'LidarSensorBase'
        fields = self.prog.records[base]['f'] + self.prog.records[L]['f']
        seen = [f['q'] for f in fields if f['t'].startswith('std::set')]
        self.rep.require(len(seen) == 1, 'C33:looks', 'what a lidar has detected is not understood', LIDAR)
        for names in (('me',), ('me', 'a'), ('a', 'me', 'b'), ('b', 'a', 'me'), ('a', 'b'), (), ('me', 'me too', 'not me')):
            def cast(ip, st, e, o, args, f):
                return [(s.event('cast', whole(ip, s, vs[0]), whole(ip, s, vs[1])), ('alias', ('o', 'result'), ())) for s, vs in ip.args(args, f, st)]

            def made(ip, st, e, o, args, f):
                return [(s, whole(ip, s, vs[0])) for s, vs in ip.args(args, f, st)]

            def cloud(ip, st, e, o, args, f):
                out = []
                for s, vs in ip.args(args, f, st):
                    out.append((s.event('points'), VOID))
                return out
            fs = {}
            for f in fields:
                t = re.sub(r'^const ', '', f['t'])
                fs[f['q']] = message(API + 'LidarConfiguration', entity=Sx('me')) if t == API + 'LidarConfiguration' else ('list', (Sx('before'),)) if t.startswith('std::set') else NIL if t.startswith('std::unique_ptr') else mkobj(t, None, {}) if t == C else ('t', f['n'])
            st = State().put(ME, mkobj(L, None, fs)).put(('o', 'entities'), ('list', tuple(status(n) for n in names))).put(('o', 'ros'), ('sym', 'ros now')).put(('o', 'result'), mkobj(C + '::RaycastResult', None, {C + '::RaycastResult::cloud': ('ptr', ('o', 'cloud'), ())})).put(('o', 'cloud'), mkobj('pcl::PointCloud', None, {}))
            ip, rets, throws = self.run(fn, st, [('alias', ('o', 'entities'), ()), ('alias', ('o', 'ros'), ())],
                                        [(r'Raycaster::raycast$', cast), (r'Raycaster::Entity::Entity$', made), (r'getDetectedEntityNames$', lambda ip, st, e, o, a, f: [(st, ('list', (Sx('seen'),)))]), (r'^pcl::toROSMsg$', cloud)])
            what = 'a lidar of me in a frame with %s' % list(names)
            if 'me' not in names:
                self.rep.require(not rets and throws, 'C33:looks:nowhere', '%s looks' % what, LIDAR)
                continue
            self.rep.require(len(rets) == 1 and not throws, 'C33:looks', '%s does not simply look: %d ways, %s' % (what, len(rets), [str(x[1])[:50] for s, x in throws]), LIDAR)
            if len(rets) != 1:
                continue
            s, v = rets[0]
            c = [x[1:] for x in s.g('trace', ()) if x[0] == 'cast']
            self.rep.require(len(c) == 1 and all(str(('sym', '%s of me' % k)) in str(c[0][0]) for k in ('x', 'y', 'z', 'qx', 'qy', 'qz', 'qw')), 'C33:looks:origin', '%s looks from %s' % (what, [x[0] for x in c]), LIDAR)
            got = sorted(str(self.wire.get(x, 'name')) for x in c[0][1][1]) if c and c[0][1][0] == 'list' and all(x[0] == 'obj' and x[1] in self.wire.msgs for x in c[0][1][1]) else c
            self.rep.require(got == sorted(str(Sx(n)) for n in names if n != 'me'), 'C33:looks:at', '%s looks at %s' % (what, got), LIDAR)
            self.rep.require(dict(s.mem[ME][3])[seen[0]] == ('list', (Sx('seen'),)), 'C33:looks:seen', '%s has detected %s, not what its rays hit' % (what, dict(s.mem[ME][3])[seen[0]]), LIDAR)
            v = whole(ip, s, v)
            h = str(v)
            self.rep.require('ros now' in h and "('s', 'base_link')" in h and any(x[0] == 'points' for x in s.g('trace', ())), 'C33:looks:message', '%s does not tell of the points, at the time and in the frame of the entity: %s' % (what, h[:200]), LIDAR)


def run(rep):
    rep.rule = ('abstract interpretation of a scan over scenes of up to three entities, with the geometry library as events: each body is in the scene for that scan and only then, and a hit is of the entity whose body was hit')
    prog = load([RAY, LIDAR, CONV])
    rep.need(not prog.errors, 'the lidar does not parse: %s' % prog.errors[:3])
    wire = pb.Wire()
    def part(r, which):
        getattr(Lidar(r, prog, wire), which)()
    rep.fan(part, ['bodies', 'looks'])
