"""Traffic lights show what they are set to, and whoever is told of them is told that."""
import itertools
import re
from ..facts import load
from ..absint import Interp, State, I, TRUE, FALSE, VOID, NIL, Sx, mkobj, of_get, strip_type
from .. import osc, pb, rosmsg
from .c30_wire import names_of

T = 'simulation/traffic_simulator/'
SRC = [T + 'src/traffic_lights/%s.cpp' % x for x in ('traffic_light', 'traffic_lights_base', 'traffic_lights', 'traffic_light_publisher')] + [T + 'src/utils/traffic_lights.cpp']
LIGHT = T + 'include/traffic_simulator/traffic_lights/traffic_light.hpp'
TL, W = 'traffic_simulator::TrafficLight::', 'traffic_simulator::lanelet_wrapper::traffic_lights::'
NODE, LIGHTS, A, B = ('o', 'node'), ('o', 'lights'), ('o', 'a'), ('o', 'b')

# the map the lights stand in: the regulatory elements each traffic light (way) belongs to, and the ways each of them refers to
WAYS = {11: (21,), 12: (21, 22), 13: (22,), 14: ()}
GROUPS = {21: (11, 12), 22: (12, 13)}


class Lights:
    def __init__(self, rep, prog):
        self.rep, self.prog, self.wire = rep, prog, pb.Wire()

    # ---- the map
    def number(self, answer):
        def h(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                v = ip.load(s, vs[0])
                if v[0] != 'i':
                    return None
                out += answer(ip, s, v[1])
            return out
        return h

    @staticmethod
    def group(ip, s, i):
        r = ('o', ('group', i))
        return [(s.put(r, mkobj('lanelet::TrafficLight', None, {'id': I(i)})), ('ptr', r, ()))] if i in GROUPS else [(s, NIL)]

    @staticmethod
    def ident(ip, st, o):
        v = ip.loadraw(st, o[1:]) if o[0] in ('ptr', 'alias') else o
        while v[0] in ('ptr', 'alias'):
            v = ip.loadraw(st, v[1:])
        return dict(v[3]).get('id') if v[0] == 'obj' else None

    def members(self, ip, st, e, o, args, f):
        i = self.ident(ip, st, o)
        return None if i is None else [(st, ('list', tuple(mkobj('lanelet::ConstLineString3d', None, {'id': I(w)}) for w in GROUPS[i[1]])))]

    def theid(self, ip, st, e, o, args, f):
        i = self.ident(ip, st, o)
        return None if i is None else [(st, i)]

    @staticmethod
    def text(ip, st, e, o, args, f):
        v = ip.load(st, o) if o[0] != 'ptr' else ip.loadraw(st, o[1:])
        if args or v[0] not in ('stream', 'obj'):
            return None
        ps = v[1] if v[0] == 'stream' else ()
        return [(st, Sx(''.join(p[1] for p in ps)))] if all(p[0] == 's' for p in ps) else None

    def hooks(self):
        n = self.number
        return [(W + 'isTrafficLight$', n(lambda ip, s, i: [(s, ('b', i in WAYS))])), (W + 'isTrafficLightRegulatoryElement$', n(lambda ip, s, i: [(s, ('b', i in GROUPS))])),
                (W + 'toTrafficLightRegulatoryElement$', n(self.group)), (W + 'trafficLightRegulatoryElementIDsFromTrafficLight$', n(lambda ip, s, i: [(s, ('list', tuple(map(I, WAYS.get(i, ())))))])),
                (W + 'trafficLightBulbPosition$', n(lambda ip, s, i: [(s, ('none',))])),
                (r'^lanelet::.*::(getParameters|trafficLights)$', self.members), (r'^lanelet::.*::id$', self.theid),
                (r'^std::(__cxx11::)?basic_(o|i)?stringstream<.*>::str$', self.text)]

    def interp(self, hooks=()):
        ip = osc.interp(Interp, self.prog, list(hooks) + self.hooks() + self.wire.hooks(), opaque=[r'^google::', r'^rclcpp::'])
        ip.MAXREC = 12
        return ip

    def probe(self, name, vals, st=None, ta=None, hooks=()):
        fs = [f for f in self.prog.by_name['probe::' + name] if ta is None or f.x.get('ta') == [ta]]
        ip = self.interp(hooks)
        rets, throws = ip.run(fs[0], st or State(), None, list(vals))
        self.rep.analysed(ip)
        self.rep.count('paths', len(rets) + len(throws))
        return ip, rets, throws

    def begin(self, architecture='awf/universe/20240605'):
        st = State().put(NODE, ('ptr', ('o', 'thenode'), ())).put(('o', 'thenode'), mkobj('rclcpp::Node', ('node',), {}))
        ip, rets, throws = self.probe('all', [('alias', NODE, ()), Sx(architecture)], st)
        done = []
        for s, v in rets:
            v = ip.load(s, v)
            for root, x in list(s.mem.items()):
                s = s.put(root, self.complete(ip, x))
            done.append((s.put(LIGHTS, v), ('alias',) + tuple(v[1:])))
        return ip, done, throws

    def complete(self, ip, v):
        """a member that nothing initializes is as its default constructor leaves it"""
        if v[0] != 'obj':
            return v
        fs = {k: self.complete(ip, x) for k, x in v[3]}
        for c in [v[1]] + sorted(self.prog.bases(v[1])):
            for f in (self.prog.records.get(c) or {}).get('f', []):
                z = ip.zero(f['t'])
                if f['q'] not in fs and z[0] in ('list', 'nil', 'none', 's'):
                    fs[f['q']] = z
        return mkobj(v[1], v[2], fs)

    # ---- what a light can show
    def enum(self, name):
        """{enumerator: value}"""
        return {k: int(v) for k, v in self.prog.enums[TL + name + '::Value']['e']}

    def value(self, v):
        """the number in a Color, a Status or a Shape"""
        if v[0] == 'i':
            return v[1]
        x = [y for k, y in v[3]] if v[0] == 'obj' else []
        return x[0][1] if len(x) == 1 and x[0][0] == 'i' else None

    def shown(self, v):
        """(color, status, shape) of a bulb, as numbers"""
        t = of_get(v, TL + 'Bulb::value') if v[0] == 'obj' else None
        return tuple(self.value(x) for x in t[1]) if t is not None and t[0] == 'list' else None

    def one(self, rets, ip, throws=()):
        """the only result there is, or None"""
        vs = {ip.load(s, v) for s, v in rets}
        return vs.pop() if len(vs) == 1 and not throws else None

    def names(self):
        rep, where = self.rep, SRC[0]
        for kind, table in NAMES.items():
            values = self.enum(kind)
            for word, name in table.items():
                ip, rets, throws = self.probe('read', [Sx('')], State().gset(input=(Sx(word),)), ta=TL + kind)
                v = self.one(rets, ip, throws)
                rep.require(v is not None and self.value(v) == values.get(name), 'C31:%s:%s' % (kind, word), 'the %s %r is not understood as %s' % (kind.lower(), word, name), where)
            for word in ('', 'blue', 'Red ', 'solid', 'redgreen', 'upper_left'):
                ip, rets, throws = self.probe('read', [Sx('')], State().gset(input=(Sx(word),)), ta=TL + kind)
                rep.require(not rets and throws and all(x[1] == 'common::scenario_simulator_exception::SyntaxError' or 'SyntaxError' in str(x[1]) for s, x in throws), 'C31:%s:unknown' % kind,
                            'a %s %r, which there is none of, is not rejected' % (kind.lower(), word), where)
            for name, v in values.items():
                ip, rets, throws = self.probe('word', [('alias', A, ())], State().put(A, mkobj(TL + kind, None, {TL + kind + '::value': I(v)})), ta=TL + kind)
                w = self.one(rets, ip, throws)
                rep.require(w is not None and w[0] == 's' and w[1] in table and table[w[1]] == name, 'C31:%s:%s:said' % (kind, name), 'the %s %s is written as %r, which is not read as it' % (kind.lower(), name, w and w[1]), where)

    def bulbs(self):
        """every combination of names is the bulb it says; it is told to others by the same names"""
        rep, where = self.rep, SRC[0]
        E = {k: self.enum(k) for k in NAMES}
        made = {}
        for c, st, sh in itertools.product(NAMES['Color'], (None,) + tuple(NAMES['Status']), (None,) + tuple(NAMES['Shape'])):
            if st is None and sh == 'unknown':
                continue        # it may be either of them
            text = ' '.join(x for x in (c, st, sh) if x)
            want = (E['Color'][NAMES['Color'][c]], E['Status'][NAMES['Status'][st] if st else 'solid_on'], E['Shape'][NAMES['Shape'][sh] if sh else 'circle'])
            ip, rets, throws = self.probe('bulb', [Sx(text)])
            v = self.one(rets, ip, throws)
            got = self.shown(v) if v is not None else None
            rep.require(got == want, 'C31:bulb', 'the state %r is understood as %s instead of %s' % (text, self.named(got), self.named(want)), where)
            if got == want:
                made[want] = v
        for text in ('blue', 'red solid', 'red circle solidOn', 'left green', 'red solidOn circle left', 'red green', 'red, green', ' red'):
            ip, rets, throws = self.probe('bulb', [Sx(text)])
            rep.require(not rets and throws, 'C31:bulb:unknown', 'the state %r, which is not <color> [<status>] [<shape>], is not rejected' % text, where)
        wire = {k: {n: v for n, v in self.wire.enums['simulation_api_schema::TrafficLight::' + k].items()} for k in NAMES} if 'simulation_api_schema::TrafficLight::Color' in self.wire.enums else self.numbers()
        v1 = names_of('traffic_simulator_msgs::msg::TrafficLightBulbV1')
        back = {k: {v: n for n, v in E[k].items()} for k in NAMES}
        for (c, st, sh), v in made.items():
            c, st, sh = back['Color'][c], back['Status'][st], back['Shape'][sh]
            ip, rets, throws = self.probe('said', [('alias', A, ())], State().put(A, v))
            p = self.one(rets, ip, throws)
            for k, f, n in (('Color', 'color', c), ('Status', 'status', st), ('Shape', 'shape', sh)):
                got = of_get(p, 'simulation_api_schema::TrafficLight::' + f) if p is not None else None
                rep.require(got == I(wire[k][SAID[k][n]]), 'C31:said:%s:%s' % (k, n), 'the %s %s is not sent as %s' % (f, n, SAID[k][n]), LIGHT)
            ip, rets, throws = self.probe('told', [('alias', A, ())], State().put(A, v))
            p = self.one(rets, ip, throws)
            for k, f, n in (('Color', 'color', c), ('Status', 'status', st), ('Shape', 'shape', sh)):
                got = of_get(p, 'traffic_simulator_msgs::msg::TrafficLightBulbV1::' + f) if p is not None else None
                rep.require(got == I(v1[plainly(SAID[k][n])]), 'C31:told:%s:%s' % (k, n), 'the %s %s is not told as %s' % (f, n, plainly(SAID[k][n])), LIGHT)
        # two bulbs are one only if they look the same
        rows = [sorted(x) for x in (E['Color'].values(), E['Status'].values(), E['Shape'].values())]
        pairs = set()
        for i in range(3):
            for base in ((0, 0, 0), (1, 2, 5), (4, 3, 10), (2, 1, 1)):
                for a, b in itertools.combinations(range(len(rows[i])), 2):
                    x, y = list(base), list(base)
                    x[i], y[i] = a, b
                    pairs.add((tuple(x), tuple(y)))
        for i, j in itertools.permutations(range(3), 2):
            for a, b in itertools.combinations(range(4), 2):
                for k in range(3, len(rows[j])):
                    x, y = [0, 0, 0], [0, 0, 0]
                    x[i], y[i], x[j], y[j] = a, b, k, k - 1
                    pairs.add((tuple(x), tuple(y)))
        for x, y in sorted(pairs):
            x, y = (tuple(r[i] for r, i in zip(rows, z)) for z in (x, y))
            if x in made and y in made:
                got = []
                for p, q in ((x, y), (y, x)):
                    ip, rets, throws = self.probe('less', [('alias', A, ()), ('alias', B, ())], State().put(A, made[p]).put(B, made[q]))
                    got.append(self.one(rets, ip, throws))
                rep.require(sorted(map(str, got)) == sorted(map(str, (TRUE, FALSE))), 'C31:less', 'the bulbs %s and %s are not told apart' % (self.named(x), self.named(y)), LIGHT)
        return made

    def numbers(self):
        return {k: {n.split('TrafficLight_%s_' % k)[-1]: int(v) for n, v in self.prog.enums['simulation_api_schema::TrafficLight_' + k]['e']} for k in NAMES}

    def named(self, b):
        if b is None:
            return 'nothing'
        return ' '.join(({v: n for n, v in self.enum(k).items()}).get(x, '?') for k, x in zip(NAMES, b))

    # ---- what a scenario does to the lights
    def light(self, text):
        """the bulbs of a state, as (color, status, shape) by the names of the interface"""
        out = set()
        for t in text.split(', ') if text else ():
            w = t.split()
            out.add((SAID['Color'][NAMES['Color'][w[0]]], SAID['Status'][NAMES['Status'][w[1]] if len(w) > 1 else 'solid_on'], SAID['Shape'][NAMES['Shape'][w[2]] if len(w) > 2 else 'circle']))
        return out

    def request(self, v):
        """{way: (relations, bulbs, confidences)} of a request to show lights, or None"""
        if v is None or v[0] != 'obj':
            return None
        P, n = 'simulation_api_schema::', self.numbers()
        back = {k: {x: m for m, x in n[k].items()} for k in n}
        out = {}

        def many(o, f):
            x = dict(o[3]).get(f)
            return () if x is None else x[1] if x[0] == 'list' else None
        for sig in many(v, P + 'UpdateTrafficLightsRequest::states'):
            i = of_get(sig, P + 'TrafficSignal::id')
            bulbs, sure = [], set()
            for b in many(sig, P + 'TrafficSignal::traffic_light_status') or ():
                d = {k.rsplit('::', 1)[1]: x for k, x in b[3]}
                zero = I(0)
                bulbs.append(tuple(back[k].get(d.get(f, zero)[1]) for k, f in (('Color', 'color'), ('Status', 'status'), ('Shape', 'shape'))))
                sure.add(d.get('confidence'))
            if i in out or i[0] != 'i' or len(set(bulbs)) != len(bulbs):
                return None
            out[i[1]] = (tuple(x[1] for x in many(sig, P + 'TrafficSignal::relation_ids')), set(bulbs), sure)
        return out

    def told(self, state, what='truth', sure=('f', 1.0)):
        """whether what is shown is {way: text}"""
        s, lights = state
        ip, rets, throws = self.probe(what, [lights], s)
        return self.request(self.one(rets, ip, throws))

    def does(self, state, steps):
        """the state after what a scenario does; None if it is rejected"""
        s, lights = state
        for name, *vals in steps:
            for i, v in enumerate(vals):
                if isinstance(v, tuple) and v[0] == 'obj':
                    s = s.put(('o', ('given', i)), v)
                    vals[i] = ('alias', ('o', ('given', i)), ())
            ip, rets, throws = self.probe(name, [lights] + [Sx(v) if isinstance(v, str) else TRUE if v is True else FALSE if v is False else I(v) if isinstance(v, int) else v for v in vals], s)
            if throws or not rets:
                return None
            self.answer = self.one(rets, ip, throws)
            s = rets[0][0]
        return s, lights

    def expect(self, key, state, steps, what, want, sure=None, where=None):
        """after the steps, what is told is want: {way: text}"""
        rep = self.rep
        end = self.does(state, steps)
        said = ', '.join('%s(%s)' % (n, ', '.join(str(v) for v in vs)) for n, *vs in steps)
        where = where or SRC[1]
        if not rep.require(end is not None, key, 'after %s: it is rejected' % said, where):
            return None
        got = self.told(end, what)
        ok = got is not None and set(got) == set(want) and all(got[w][1] == self.light(want[w]) and got[w][0] == WAYS[w] and got[w][2] <= {(sure or {}).get(w, ('f', 1.0))} for w in want)
        rep.require(ok, key, 'after %s the lights that are %s are %s' % (said, {'truth': 'there', 'conventional': 'detected', 'v2i': 'sent by V2I'}.get(what, what), self.show(got)), where)
        return end

    @staticmethod
    def show(got):
        return 'not known' if got is None else {w: sorted(' '.join(map(str, b)) for b in x[1]) for w, x in sorted(got.items())}

    def scenario(self, start):
        rep = self.rep
        E = lambda *a, **k: self.expect(*a, **k)
        for ch, what in (('conventional', 'truth'), ('v2i', 'v2i')):
            S, AD, CL, k = ch + '_set', ch + '_add', ch + '_clear', 'C31:%s' % ch
            E(k + ':set', start, [(S, 21, 'red')], what, {11: 'red', 12: 'red'})
            E(k + ':set', start, [(S, 13, 'yellow flashing')], what, {13: 'yellow flashing'})
            E(k + ':set', start, [(S, 21, 'red'), (S, 11, 'green flashing left')], what, {11: 'green flashing left', 12: 'red'})
            E(k + ':set', start, [(S, 21, 'red'), (S, 22, 'white solidOff cross')], what, {11: 'red', 12: 'white solidOff cross', 13: 'white solidOff cross'})
            E(k + ':set', start, [(S, 11, 'red, green flashing left, yellow solidOn upperRight')], what, {11: 'red, green flashing left, yellow solidOn upperRight'})
            E(k + ':set', start, [(S, 11, 'red, amber flashing up'), (S, 11, 'red')], what, {11: 'red'})
            E(k + ':set', start, [(S, 14, 'red')], what, {14: 'red'})
            E(k + ':add', start, [(S, 11, 'red'), (AD, 21, 'green solidOn left')], what, {11: 'red, green solidOn left', 12: 'green solidOn left'})
            E(k + ':add', start, [(S, 11, 'red'), (AD, 11, 'red'), (AD, 11, 'red solidOff')], what, {11: 'red, red solidOff'})
            E(k + ':clear', start, [(S, 21, 'red'), (CL, 12)], what, {11: 'red', 12: ''})
            E(k + ':clear', start, [(S, 21, 'red'), (S, 13, 'green'), (CL, 22), (AD, 12, 'yellow')], what, {11: 'red', 12: 'yellow', 13: ''})
            E(k + ':nothing', start, [], what, {})
            for st in ('blue', 'red solid', ',red', 'red, blue', 'red circle solidOn'):
                rep.require(self.does(start, [(S, 11, st)]) is None, k + ':invalid', 'the state %r is not rejected' % st, SRC[0])
            for op in ((S, 99, 'red'), (AD, 99, 'red'), (CL, 99)):
                rep.require(self.does(start, [op]) is None, k + ':stranger', '%s accepts an id that is not of a traffic light' % op[0], SRC[4])
        half = ('sym', 'confidence')
        E('C31:confidence', start, [('conventional_set', 21, 'red, green solidOn left'), ('conventional_set', 13, 'red'), ('conventional_confidence', 21, half)], 'truth',
          {11: 'red, green solidOn left', 12: 'red, green solidOn left', 13: 'red'}, {11: half, 12: half})
        E('C31:confidence', start, [('conventional_confidence', 11, half), ('conventional_set', 21, 'red')], 'truth', {11: 'red', 12: 'red'}, {11: half})
        end = self.does(start, [('conventional_color', 22, mkobj(TL + 'Color', None, {TL + 'Color::value': I(self.enum('Color')['yellow'])}))])
        if rep.require(end is not None, 'C31:color', 'a color cannot be set', SRC[1]):
            ip, rets, throws = self.probe('truth', [end[1]], end[0])
            for s, v in rets:
                got = self.request(ip.load(s, v))
                rep.require(got is not None and set(got) == {12, 13} and all(len(x[1]) == 1 and {b[0] for b in x[1]} == {'AMBER'} for x in got.values()), 'C31:color', 'lights that are set to yellow are %s' % self.show(got), SRC[1])
        # the two kinds of lights are not each other's
        E('C31:apart', start, [('conventional_set', 21, 'red')], 'v2i', {})
        E('C31:apart', start, [('v2i_set', 21, 'red')], 'truth', {})
        E('C31:apart', start, [('conventional_set', 11, 'red'), ('v2i_set', 11, 'green'), ('v2i_clear', 11)], 'truth', {11: 'red'})

    def questions(self, start):
        """what a light is asked"""
        rep = self.rep
        for c, st, sh in itertools.product(SAID['Color'], SAID['Status'], SAID['Shape']):
            say = {k: {n: w for w, n in NAMES[k].items()} for k in NAMES}
            text = '%s %s %s' % (say['Color'][c], say['Status'][st], say['Shape'][sh])
            stop = c in ('red', 'yellow') and st == 'solid_on' and sh == 'circle'
            for more in ('',) + (('green flashing left, ', ) if stop or st == 'solid_on' else ()):
                end = self.does(start, [('conventional_set', 12, more + text), ('stop', 12)])
                rep.require(end is not None and self.answer == ('b', stop), 'C31:stop', 'a light that is %s %s required to stop at' % (more + text, 'is not' if stop else 'is'), SRC[1])
        end = self.does(start, [('stop', 13)])
        rep.require(end is not None and self.answer == FALSE, 'C31:stop', 'a light that shows nothing is required to stop at', SRC[1])
        for steps, way, text, yes in ((('21 red',), 21, 'red', True), (('21 red', '11 green'), 21, 'red', False), (('21 red', '12 green'), 21, 'red', False), (('11 red, green solidOn left',), 11, 'green solidOn left', True),
                                      (('11 red',), 11, 'red flashing', False), (('11 red',), 11, '', False), (('11 red',), 11, 'none', False), ((), 11, '', True), ((), 21, 'none', True), (('12 red',), 21, 'none', False),
                                      (('11 red',), 21, '', False), ((), 11, 'red', False), (('22 yellow',), 22, 'amber solidOn circle', True), (('12 red',), 11, 'red', False)):
            end = self.does(start, [('conventional_set', int(x.split(' ', 1)[0]), x.split(' ', 1)[1]) for x in steps] + [('compare', way, text)])
            rep.require(end is not None and self.answer == ('b', yes), 'C31:compare', 'after %s the light %d %s %r' % (list(steps), way, 'is not' if yes else 'is', text), SRC[1])
        for steps, way, want in ((('11 red, green flashing left', '12 yellow solidOff down'), 21, ('red solidOn circle, green flashing left', 'yellow solidOff down')), (('11 red',), 11, ('red solidOn circle',)), (('11 red',), 21, ('red solidOn circle', ''))):
            end = self.does(start, [('conventional_set', int(x.split(' ', 1)[0]), x.split(' ', 1)[1]) for x in steps] + [('composed', way)])
            got = self.answer if end is not None else None
            ok = got is not None and got[0] == 's' and [set(x.split(', ')) for x in got[1].split('; ')] == [set(x.split(', ')) for x in want]
            rep.require(ok, 'C31:composed', 'after %s the state of %d is written as %s' % (list(steps), way, got and got[1]), SRC[1])

    def detection(self, start):
        rep = self.rep
        D = T + 'include/traffic_simulator/traffic_lights/traffic_lights.hpp'
        E = lambda key, steps, what, want: self.expect('C31:detected' + key, start, steps, what, want, where=D)
        E('', [('conventional_set', 21, 'red'), ('conventional_detected_set', 11, 'yellow')], 'conventional', {11: 'yellow', 12: 'red'})
        E('', [('conventional_set', 21, 'red'), ('conventional_detected_set', 21, 'yellow, green solidOn left')], 'conventional', {11: 'yellow, green solidOn left', 12: 'yellow, green solidOn left'})
        E('', [('conventional_set', 13, 'red'), ('conventional_detected_set', 22, 'white')], 'conventional', {12: 'white', 13: 'white'})
        E(':truth', [('conventional_set', 21, 'red'), ('conventional_detected_set', 21, 'yellow')], 'truth', {11: 'red', 12: 'red'})
        E('', [('conventional_detected_set', 12, 'yellow')], 'conventional', {12: 'yellow'})
        E(':add', [('conventional_set', 11, 'red'), ('conventional_detected_set', 11, 'yellow'), ('conventional_detected_add', 21, 'green solidOn left')], 'conventional', {11: 'yellow, green solidOn left', 12: 'green solidOn left'})
        E(':set', [('conventional_detected_set', 21, 'yellow'), ('conventional_detected_set', 12, 'green')], 'conventional', {11: 'yellow', 12: 'green'})
        E(':clear', [('conventional_set', 21, 'red'), ('conventional_detected_set', 21, 'yellow'), ('conventional_detected_clear', 21)], 'conventional', {11: 'red', 12: 'red'})
        E(':clear', [('conventional_set', 21, 'red'), ('conventional_detected_set', 21, 'yellow'), ('conventional_detected_clear', 12)], 'conventional', {11: 'yellow', 12: 'red'})
        E(':clear', [('conventional_set', 21, 'red'), ('conventional_detected_set', 11, 'yellow'), ('conventional_detected_clear', 21)], 'conventional', {11: 'red', 12: 'red'})
        E(':again', [('conventional_detected_set', 11, 'yellow'), ('conventional_set', 21, 'red')], 'conventional', {11: 'yellow', 12: 'red'})
        E(':apart', [('conventional_set', 11, 'red'), ('v2i_detected_set', 11, 'yellow')], 'conventional', {11: 'red'})
        for steps, yes in (((), False), ((('conventional_detected_set', 11, 'red'),), True), ((('conventional_detected_set', 12, 'red'),), True), ((('conventional_detected_set', 13, 'red'),), False)):
            end = self.does(start, list(steps) + [('conventional_detected_clear', 21)])
            rep.require(end is not None and self.answer == ('b', yes), 'C31:detected:cleared', 'after %s it is said that %s detected light was cleared' % (list(steps), 'no' if yes else 'a'), D)
        rep.require(self.does(start, [('conventional_detected_set', 99, 'red')]) is None, 'C31:detected:stranger', 'an id that is not of a traffic light is detected', D)

    def vehicle(self, start):
        """a light that speaks to vehicles follows the one that is seen, and no other does"""
        rep = self.rep
        D = T + 'include/traffic_simulator/traffic_lights/traffic_lights.hpp'
        E = lambda key, steps, what, want: self.expect('C31:v2i' + key, start, steps, what, want, where=D)
        on = ('feature', 21, True)
        for i, yes in ((11, True), (12, True), (13, False)):
            self.does(start, [on, ('enabled', i)])
            rep.require(self.answer == ('b', yes), 'C31:v2i:enabled', 'the light %d %s to vehicles though %s' % (i, 'does not speak' if yes else 'speaks', 'its relation does' if yes else 'only another does'), D)
        self.does(start, [on, ('feature', 11, False), ('enabled', 11)])
        rep.require(self.answer == FALSE, 'C31:v2i:enabled', 'a light speaks to vehicles after it was told not to', D)
        self.does(start, [on, ('feature', 11, False), ('enabled', 12)])
        rep.require(self.answer == TRUE, 'C31:v2i:enabled', 'a light does not speak to vehicles after another was told not to', D)
        self.does(start, [on, ('feature', 21, False), ('enabled', 12)])
        rep.require(self.answer == FALSE, 'C31:v2i:enabled', 'a light speaks to vehicles after its relation was told not to', D)
        E(':follow', [on, ('conventional_set', 11, 'red')], 'v2i', {11: 'red'})
        E(':follow', [on, ('conventional_set', 21, 'red')], 'v2i', {11: 'red', 12: 'red'})
        E(':follow', [on, ('conventional_set', 22, 'red')], 'v2i', {12: 'red'})
        E(':follow', [('feature', 12, True), ('conventional_set', 21, 'red')], 'v2i', {12: 'red'})
        E(':follow', [on, ('conventional_set', 21, 'red'), ('conventional_set', 12, 'green flashing')], 'v2i', {11: 'red', 12: 'green flashing'})
        E(':follow', [on, ('conventional_set', 21, 'red'), ('conventional_set', 13, 'green')], 'v2i', {11: 'red', 12: 'red'})
        E(':follow:add', [on, ('conventional_set', 21, 'red'), ('conventional_add', 21, 'green solidOn left')], 'v2i', {11: 'red, green solidOn left', 12: 'red, green solidOn left'})
        E(':follow:clear', [on, ('conventional_set', 21, 'red'), ('conventional_clear', 21)], 'v2i', {11: '', 12: ''})
        E(':follow:clear', [on, ('conventional_set', 21, 'red'), ('conventional_clear', 12)], 'v2i', {11: 'red', 12: ''})
        E(':follow:off', [on, ('conventional_set', 21, 'red'), ('feature', 21, False), ('conventional_set', 21, 'green')], 'v2i', {11: 'red', 12: 'red'})
        E(':follow:truth', [on, ('conventional_set', 21, 'red, green solidOn left')], 'truth', {11: 'red, green solidOn left', 12: 'red, green solidOn left'})
        E(':lead', [on, ('conventional_set', 21, 'red'), ('v2i_set', 11, 'green')], 'truth', {11: 'red', 12: 'red'})
        E(':lead', [on, ('conventional_set', 21, 'red'), ('v2i_set', 11, 'green')], 'v2i', {11: 'green', 12: 'red'})

    # ---- what is published
    @staticmethod
    def built(ip, st, e, o, args, f):
        """a message with one of its fields set"""
        out = []
        for s, vs in ip.args(args, f, st):
            v = ip.loadraw(s, o[1:]) if o[0] in ('ptr', 'alias') else o
            cls, fld = f['n'].rsplit('::', 1)
            if v[0] != 'obj':
                return None
            d = dict(v[3])
            d[cls + '::' + fld[len('set__'):]] = ip.load(s, vs[0])
            out.append((s, mkobj(v[1], v[2], d)))
        return out

    def clock(self, now):
        """the time is a number of nanoseconds"""
        ns = lambda v: v if v[0] == 'i' else I(round(v[1] * 1e9)) if v[0] == 'f' else None

        def duration(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                v = ns(ip.load(s, vs[0]))
                if v is None or len(vs) != 1:
                    return None
                out.append((s, v))
            return out

        def arith(op):
            def h(ip, st, e, o, args, f):
                out = []
                for s, vs in ip.args(args, f, st):
                    a = ip.loadraw(s, o[1:]) if o[0] in ('ptr', 'alias') else o
                    b = ip.load(s, vs[0])
                    while a[0] in ('ptr', 'alias'):
                        a = ip.loadraw(s, a[1:])
                    if a[0] != 'i' or b[0] != 'i':
                        return None
                    out.append((s, I(a[1] + op * b[1])))
                return out
            return h

        def itself(ip, st, e, o, args, f):
            v = ip.loadraw(st, o[1:]) if o[0] in ('ptr', 'alias') else o
            return [(st, v)] if v[0] == 'i' else None
        return [(r'^rclcpp::Clock::now$', lambda ip, st, e, o, args, f: [(st, I(now))]), (r'^rclcpp::Duration::Duration$', duration), (r'^rclcpp::Time::operator\+$', arith(1)), (r'^rclcpp::Time::operator-$', arith(-1)),
                (r'^rclcpp::Duration::nanoseconds$', itself), (r'^rclcpp::Time::Time$', duration)]

    def signal(self, way, bulbs, sure):
        n, P = self.numbers(), 'simulation_api_schema::'
        return mkobj(P + 'TrafficSignal', None, {P + 'TrafficSignal::id': I(way), P + 'TrafficSignal::relation_ids': ('list', tuple(I(x) for x in WAYS[way])),
                                                P + 'TrafficSignal::traffic_light_status': ('list', tuple(self.proto(b, sure) for b in bulbs))})

    def proto(self, b, sure):
        n, P = self.numbers(), 'simulation_api_schema::TrafficLight::'
        return mkobj('simulation_api_schema::TrafficLight', None, {P + 'color': I(n['Color'][b[0]]), P + 'status': I(n['Status'][b[1]]), P + 'shape': I(n['Shape'][b[2]]), P + 'confidence': sure})

    MESSAGES = {'traffic_simulator_msgs::msg::TrafficLightArrayV1': ('traffic_lights', 'TrafficLightV1', 'lanelet_way_id', 'traffic_light_bulbs', 'TrafficLightBulbV1'),
                'autoware_perception_msgs::msg::TrafficSignalArray': ('signals', 'TrafficSignal', 'traffic_signal_id', 'elements', 'TrafficSignalElement'),
                'autoware_perception_msgs::msg::TrafficLightGroupArray': ('traffic_light_groups', 'TrafficLightGroup', 'traffic_light_group_id', 'elements', 'TrafficLightElement')}

    def bulb_of(self, v, cls):
        return tuple(dict(v[3]).get('%s::%s' % (cls, f)) for f in ('color', 'status', 'shape', 'confidence')) if v[0] == 'obj' else None

    def must(self, b, sure, cls):
        """what a message says of a bulb: by the same names, but of the arrows up and aside, which no message is trusted to know"""
        n = names_of(cls)
        return tuple(I(n[plainly(x)] if x not in ('UP_LEFT_ARROW', 'UP_RIGHT_ARROW') else n['UNKNOWN']) for x in b) + (sure,)

    def messages(self, start):
        rep, where = self.rep, SRC[3]
        REQ, PRED = ('o', 'request'), ('o', 'predictions')
        every = [(c, s, sh) for c in SAID['Color'].values() for s in SAID['Status'].values() for sh in SAID['Shape'].values()]
        half, more, then, later = ('sym', 'confidence'), ('sym', 'confidence of another'), ('sym', 'then'), ('sym', 'later')
        a, b, c = ('RED', 'SOLID_ON', 'CIRCLE'), ('GREEN', 'FLASHING', 'LEFT_ARROW'), ('WHITE', 'SOLID_OFF', 'CROSS')
        pair = lambda x, y: mkobj('std::pair', None, {'std::pair::first': x, 'std::pair::second': y})
        for cls, (many, one, key, bulbs, elem) in self.MESSAGES.items():
            fn = self.prog.one('traffic_simulator::TrafficLightPublisher<%s>::generateMessage' % cls)
            pkg, short = cls.rsplit('::', 1)
            one, elem = '%s::%s' % (pkg, one), '%s::%s' % (pkg, elem)
            ways = key == 'lanelet_way_id'
            cases = [([(11, [x], half)], None) for x in every]
            cases += [([], None), ([(11, [], half)], None), ([(12, [a, b], half)], None), ([(11, [a], half), (12, [b, c], more), (13, [], more)], None), ([(14, [a], half)], None), ([(11, [c, b, a], half)], ())]
            cases += [([(11, [a], half), (12, [b], more)], ((12, ((then, (c,)), (later, (a, b)))),)), ([(11, [a], half), (12, [b], more)], ((13, ((then, (c,)),)), (11, ((later, (c,)),)))), ([(11, [], half)], ((11, ((then, (c,)),)),))]
            for lights, predicted in cases:
                st = State().put(A, ('sym', 'now')).put(REQ, mkobj('simulation_api_schema::UpdateTrafficLightsRequest', None,
                                                                 {'simulation_api_schema::UpdateTrafficLightsRequest::states': ('list', tuple(self.signal(*x) for x in lights))}))
                arg = NIL
                if predicted is not None:
                    st = st.put(PRED, ('list', tuple(pair(I(w), ('list', tuple(pair(t, ('list', tuple(self.proto(x, half) for x in bs))) for t, bs in ps))) for w, ps in predicted)))
                    arg = ('ptr', PRED, ())
                ip = self.interp(rosmsg.BUILD + [(r'^autoware_perception_msgs::msg::\w+::set__\w+$', self.built)])
                rets, throws = ip.run(fn, st, None, [('alias', A, ()), ('alias', REQ, ()), Sx(''), arg])
                rep.analysed(ip)
                rep.count('paths', len(rets))
                label = 'C31:%s' % short
                if not rep.require(rets and not throws, label, 'no message is made of %s' % (lights,), where):
                    continue
                want = []
                for w, bs, sure in lights:
                    says = [self.must(x, sure, elem) for x in bs]
                    ahead = [(t, [self.must(x, half, elem) for x in xs]) for k, ps in (predicted or ()) if k == w for t, xs in ps] if short == 'TrafficLightGroupArray' else []
                    if ways:
                        want.append((w, says, []))
                    elif says:
                        want += [(g, says, ahead) for g in WAYS[w]]
                for s, v in rets:
                    m = ip.loadraw(s, v[1:]) if v[0] == 'ptr' else v
                    d = dict(m[3])
                    ls = d.get('%s::%s' % (cls, many), ('list', ()))
                    got = []
                    for x in ls[1] if ls[0] == 'list' else [None]:
                        f = {k.rsplit('::', 1)[1]: y for k, y in x[3]} if x is not None and x[0] == 'obj' else {}
                        es, ps = f.get(bulbs, ('list', ())), f.get('predictions', ('list', ()))
                        said = []
                        for q in ps[1] if ps[0] == 'list' else [None]:
                            g = {k.rsplit('::', 1)[1]: y for k, y in q[3]} if q is not None and q[0] == 'obj' else {}
                            t = g.get('predicted_stamp')
                            said.append((t[2] if t and t[0] == 'call' else t, [self.bulb_of(y, elem) for y in g.get('simultaneous_elements', ('list', ()))[1]]))
                        got.append((f.get(key, I(0))[1], [self.bulb_of(y, elem) for y in es[1]] if es[0] == 'list' else None, said))
                    rep.require(sorted(map(str, got)) == sorted(map(str, want)), label, '%s of %s%s says %s' % (short, lights, ' with predictions' if predicted else '', str(got)[:300]), where)
                    if not ways:
                        t = d.get('%s::stamp' % cls)
                        rep.require(t is not None and (t[2] if t[0] == 'call' else t) == ('sym', 'now'), label + ':stamp', '%s is not stamped with the time it is given' % short, where)

    def predictions(self, start):
        rep, where = self.rep, SRC[2]
        s0, lights = start
        NOW = 100 * 10 ** 9
        clock = self.clock(NOW)
        base = 'traffic_simulator::V2ITrafficLights::predictions_'

        def holds(s):
            for x in s.mem.values():
                if x[0] == 'obj' and base in dict(x[3]):
                    ps = dict(x[3])[base]
                    if ps[0] != 'list':
                        return None
                    out = {}
                    for p in ps[1]:
                        k, v = of_get(p, 'std::pair::first'), of_get(p, 'std::pair::second')
                        if v[0] != 'list':
                            return None
                        out[k[1]] = [(of_get(q, 'std::pair::first'), [self.proto_names(b) for b in of_get(q, 'std::pair::second')[1]]) for q in v[1]]
                    return {k: v for k, v in out.items() if v}
        R, G, Y = (next(iter(self.light(x))) for x in ('red', 'green flashing left', 'yellow'))
        at = lambda x: I(NOW + round(x * 1e9))
        P = lambda w, text, x: ('predict', w, text, ('f', x))
        for steps, want in (((), {}), ((P(11, 'red', 1.0),), {11: [(at(1.0), [R])]}), ((P(21, 'red', 2.5),), {11: [(at(2.5), [R])], 12: [(at(2.5), [R])]}),
                            ((P(11, 'red', 1.0), P(11, 'green flashing left', 1.005)), {11: [(at(1.0), [R, G])]}), ((P(11, 'red', 1.0), P(11, 'green flashing left', 0.995)), {11: [(at(1.0), [R, G])]}),
                            ((P(11, 'red', 1.0), P(11, 'green flashing left', 1.02)), {11: [(at(1.0), [R]), (at(1.02), [G])]}), ((P(11, 'red', 1.0), P(11, 'green flashing left', 0.98)), {11: [(at(1.0), [R]), (at(0.98), [G])]}),
                            ((P(11, 'red', 1.0), P(12, 'green flashing left', 1.0)), {11: [(at(1.0), [R])], 12: [(at(1.0), [G])]}),
                            ((P(11, 'red', 1.0), P(22, 'green flashing left', 1.0), P(21, 'yellow', 1.0)), {11: [(at(1.0), [R, Y])], 12: [(at(1.0), [G, Y])], 13: [(at(1.0), [G])]}),
                            ((P(11, 'red', 1.0), P(11, 'green flashing left', 2.0), P(11, 'yellow', 2.001), P(11, 'yellow', 1.001)), {11: [(at(1.0), [R, Y]), (at(2.0), [G, Y])]}),
                            ((P(11, 'red', 1.0), ('forget',)), {}), ((P(11, 'red', 1.0), ('forget',), P(12, 'red', 1.0)), {12: [(at(1.0), [R])]})):
            s, bad = s0, False
            for name, *vals in steps:
                ip, rets, throws = self.probe(name, [lights] + [Sx(v) if isinstance(v, str) else I(v) if isinstance(v, int) else v for v in vals], s, hooks=clock)
                bad = bad or throws or not rets
                if bad:
                    break
                s = rets[0][0]
            got = None if bad else holds(s)
            rep.require(got == want, 'C31:predictions', 'after %s it is predicted %s instead of %s' % ([x[:-1] + (x[-1][1],) if len(x) > 1 else x for x in steps], got, want), where)
        for w, text in ((99, 'red'), (11, 'blue'), (11, 'red, green')):
            ip, rets, throws = self.probe('predict', [lights, I(w), Sx(text), ('f', 1.0)], s0, hooks=clock)
            rep.require(not rets and throws, 'C31:predictions:invalid', 'a prediction that %s is %r is not rejected' % (w, text), where)

    def proto_names(self, b):
        n = self.numbers()
        d = {k.rsplit('::', 1)[1]: x for k, x in b[3]} if b[0] == 'obj' else {}
        return tuple({v: m for m, v in n[k].items()}.get(d.get(f, I(0))[1]) for k, f in (('Color', 'color'), ('Status', 'status'), ('Shape', 'shape')))

    def updates(self, start):
        """what each kind of lights publishes, and where"""
        rep = self.rep
        D = T + 'include/traffic_simulator/traffic_lights/traffic_lights.hpp'

        def publish(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                req = ip.load(s, vs[1])
                me = ip.loadraw(s, o[1:]) if o[0] in ('ptr', 'alias') else o
                while me[0] in ('ptr', 'alias'):
                    me = ip.loadraw(s, me[1:])
                p = ip.load(s, vs[2]) if len(vs) > 2 else NIL
                while p[0] in ('ptr', 'alias'):
                    p = ip.loadraw(s, p[1:])
                out.append((s.event('published', (me, ip.load(s, vs[0]), p), req), VOID))
            return out
        hooks = [(r'TrafficLightPublisher(Base|<.*>)::publish$', publish), (r'TrafficLightMarkerPublisher::\w+$', lambda ip, st, e, o, args, f: [(st, VOID)])] + self.clock(5)
        on = [('conventional_set', 21, 'red'), ('v2i_set', 22, 'green flashing left'), ('conventional_detected_set', 11, 'yellow'), ('v2i_detected_set', 12, 'white')]
        end = self.does(start, on)
        rep.need(end is not None, 'what a scenario does is not understood')
        s, lights = end
        for cls, want, topics in (('ConventionalTrafficLights', {11: 'red', 12: 'red'}, {'/simulation/traffic_lights'}),
                                  ('V2ITrafficLights', {12: 'white', 13: 'green flashing left'}, {'/perception/traffic_light_recognition/external/traffic_signals', '/v2x/traffic_signals'})):
            fn = self.prog.one('traffic_simulator::%s::update' % cls)
            roots = [r for r, x in s.mem.items() if x[0] == 'obj' and x[1] == 'traffic_simulator::' + cls]
            rep.need(len(roots) == 1, 'the %s are not understood' % cls)
            s2 = s
            if cls == 'V2ITrafficLights':
                pred = ('list', (mkobj('std::pair', None, {'std::pair::first': I(12), 'std::pair::second': ('list', ())}),))
                x = s.mem[roots[0]]
                d = dict(x[3])
                d['traffic_simulator::V2ITrafficLights::predictions_'] = pred
                s2 = s.put(roots[0], mkobj(x[1], x[2], d))
            ip = self.interp(hooks)
            rets, throws = ip.run(fn, s2, ('ptr', roots[0], ()), [])
            rep.analysed(ip)
            rep.require(rets and not throws, 'C31:%s:update' % cls, 'the %s are not published' % cls, D)
            for s3, v in rets:
                seen = [x for x in s3.g('trace', ()) if x[0] == 'published']
                rep.require({t for x in seen for t in topics if t in str(x[1][0])} == topics and len(seen) == len(topics), 'C31:%s:topics' % cls, 'the %s are not published on each of %s' % (cls, sorted(topics)), D)
                for x in seen:
                    got = self.request(x[2])
                    ok = got is not None and set(got) == set(want) and all(got[w][1] == self.light(want[w]) for w in want)
                    rep.require(ok and x[1][1] == I(5), 'C31:%s:update' % cls, 'the %s publish %s instead of %s' % (cls, self.show(got), want), D)
                    if cls == 'V2ITrafficLights':
                        rep.require(x[1][2] == pred, 'C31:%s:predictions' % cls, 'the predictions are not published', D)
        # each kind at its own rate
        def timer(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                r = o[1:] if o[0] in ('ptr', 'alias') else None
                x = s.mem.get(r[0]) if r else None
                out.append((s.event('timer', x[1] if x and x[0] == 'obj' else None, ip.load(s, vs[0])), VOID))
            return out
        p, q = ('sym', 'rate'), ('sym', 'rate of V2I')
        ip, rets, throws = self.probe('start', [start[1], p, q], start[0], hooks=[(r'ConfigurableRateUpdater::startTimer$', timer)])
        want = [('timer', 'traffic_simulator::ConventionalTrafficLights', p), ('timer', 'traffic_simulator::V2ITrafficLights', q)]
        rep.require(rets and not throws and all(sorted(map(str, s.g('trace', ()))) == sorted(map(str, want)) for s, v in rets), 'C31:rates', 'the lights are not published at the rates they are given', SRC[2])

    def architectures(self, start):
        rep = self.rep
        D = T + 'include/traffic_simulator/traffic_lights/traffic_lights.hpp'
        for name, cls in (('awf/universe', None), ('awf/universe/20230906', 'TrafficSignalArray'), ('awf/universe/20240605', 'TrafficLightGroupArray'), ('awf/universe/20250130', 'TrafficLightGroupArray'), ('awf/universe/20240101', None)):
            ip, done, throws = self.begin(name)
            kinds = {k for s, v in done for x in s.mem.values() if x[0] == 'obj' for k in re.findall(r'TrafficLightPublisher<autoware_perception_msgs::msg::(\w+)>$', x[1])}
            rep.require((not done and throws) if cls is None else (done and not throws and kinds == {cls}), 'C31:architecture', 'for the architecture %s the lights are published as %s' % (name, sorted(kinds) or 'nothing'), D)

    def lines(self, start):
        """the stop line of a light that requires to stop: the nearest of those there is a way to"""
        rep = self.rep
        for on, far, want in (([], {11: 5.0}, None), ([('conventional_set', 11, 'red')], {}, None), ([('conventional_set', 11, 'red')], {11: 5.0}, 5.0),
                              ([('conventional_set', 11, 'red'), ('conventional_set', 12, 'yellow')], {11: 5.0, 12: 3.0}, 3.0),
                              ([('conventional_set', 11, 'red'), ('conventional_set', 12, 'yellow')], {11: 3.0, 12: 5.0}, 3.0),
                              ([('conventional_set', 11, 'red'), ('conventional_set', 12, 'yellow')], {11: None, 12: 5.0}, 5.0),
                              ([('conventional_set', 11, 'green'), ('conventional_set', 12, 'red')], {11: 3.0, 12: 5.0}, 5.0),
                              ([('conventional_set', 11, 'red'), ('conventional_set', 12, 'green')], {11: 0.0, 12: 5.0}, 0.0),
                              ([('conventional_set', 11, 'red'), ('conventional_set', 12, 'red'), ('conventional_set', 13, 'red')], {11: 4.0, 12: 2.0, 13: 3.0}, 2.0)):
            end = self.does(start, on)
            rep.need(end is not None, 'what a scenario does is not understood')
            hooks = [(r'trafficLightIdsOnPath$', lambda ip, st, e, o, args, f: [(st, ('list', tuple(map(I, sorted(far)))))]),
                     (r'distance::distanceToTrafficLightStopLine$', lambda ip, st, e, o, args, f: [(s, ('none',) if far.get(ip.load(s, vs[1])[1]) is None else ('some', ('f', far[ip.load(s, vs[1])[1]]))) for s, vs in ip.args(args, f, st)])]
            s = end[0].put(A, ('list', (I(1),))).put(B, mkobj('math::geometry::CatmullRomSpline', ('spline',), {}))
            ip, rets, throws = self.probe('line', [end[1], ('alias', A, ()), ('alias', B, ())], s, hooks=hooks)
            v = self.one(rets, ip, throws)
            ok = v == (('none',) if want is None else ('some', ('f', want)))
            rep.require(ok, 'C31:line', 'with the lights %s whose lines are %s ahead, the line to stop at is %s' % ([x[1:] for x in on], far, v), SRC[1])

    def marks(self, start):
        """each lamp there is in the map is drawn where it is, in its colour, and bright if and only if it is on"""
        rep = self.rep

        def place(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                w, c = ip.load(s, vs[0]), ip.load(s, vs[1])
                out.append((s, ('none',) if (w, c) == (I(11), Sx('yellow')) else ('some', ('sym', 'place', w, c))))
            return out

        def paint(ip, st, e, o, args, f):
            return [(s, mkobj('std_msgs::msg::ColorRGBA', None, {'std_msgs::msg::ColorRGBA_::' + k: ('call', k, ip.load(s, vs[0])) for k in 'rgb'})) for s, vs in ip.args(args, f, st)]
        hooks = [(r'trafficLightBulbPosition$', place), (r'makeColorMsg$', paint)]
        colors = self.enum('Color')
        for w, text in ((11, ''), (11, 'red'), (12, ''), (12, 'red'), (12, 'green flashing circle, red'), (12, 'yellow solidOn left'), (12, 'white'), (12, 'yellow, green, red')):
            ip, rets, throws = self.probe('light', [I(w)], hooks=hooks)
            rep.need(len(rets) == 1 and not throws, 'a traffic light is not understood')
            s, v = rets[0]
            s = s.put(A, ip.load(s, v)).put(B, ('sym', 'now'))
            if text:
                ip = self.interp(hooks)
                rets, throws = ip.run(self.prog.one('traffic_simulator::TrafficLight::set'), s, ('ptr', A, ()), [Sx(text)])
                rep.need(len(rets) == 1 and not throws, 'the state %r is not understood' % text)
                s = rets[0][0]
            ip, rets, throws = self.probe('marks', [('alias', A, ()), ('alias', B, ())], s, hooks=hooks)
            rep.require(rets and not throws, 'C31:marks', 'a light that shows %r cannot be drawn' % text, LIGHT)
            on = {x.split()[0] for x in text.split(', ') if x and (len(x.split()) < 3 or x.split()[2] == 'circle')}
            there = {c for c in ('green', 'yellow', 'red') if (w, c) != (11, 'yellow')}
            for s2, v in rets:
                v = ip.load(s2, v)
                got = []
                for m in v[1] if v[0] == 'list' else ():
                    d = dict(m[3])
                    get = lambda x, *ks: [y for k, y in (x[3] if x is not None and x[0] == 'obj' else ()) if k.rsplit('::', 1)[-1] == ks[0]]
                    def deep(x, *ks):
                        for k in ks:
                            x = (get(x, k) or [None])[0]
                        return x
                    got.append((deep(m, 'pose', 'position'), deep(m, 'color', 'a'), deep(m, 'id'), deep(m, 'color', 'r')))
                places = sorted(str(x[0]) for x in got)
                want = sorted(str(('sym', 'place', I(w), Sx(c))) for c in there)
                rep.require(places == want, 'C31:marks:place', 'the lamps of a light that shows %r are drawn at %s' % (text, places), LIGHT)
                rep.require(len({x[2] for x in got}) == len(got), 'C31:marks:id', 'two lamps of a light are drawn as one', LIGHT)
                for c in there:
                    x = [x for x in got if x[0] == ('sym', 'place', I(w), Sx(c))]
                    if len(x) == 1:
                        rep.require(x[0][1] == ('f', 1.0 if c in on else 0.3), 'C31:marks:bright', 'the %s lamp of a light that shows %r is drawn with the opacity %s' % (c, text, x[0][1]), LIGHT)
                        rep.require(x[0][3] is not None and (x[0][3] == ('call', 'r', Sx(c)) or x[0][3][:2] == ('call', 'r') and x[0][3][2][0] == 'tostr' and self.value(x[0][3][2][1]) == colors[c]), 'C31:marks:color', 'the %s lamp is drawn in the color %s' % (c, x[0][3]), LIGHT)

    def widths(self, start):
        """an id of a light is as wide everywhere as it is in the map"""
        rep = self.rep
        fields = self.wire.msgs['simulation_api_schema::TrafficSignal']
        for f in ('id', 'relation_ids'):
            t = str(fields[f])
            rep.require('int64' in t, 'C31:width:' + f, 'the %s of a traffic light is sent as %s, which does not hold every lanelet::Id' % (f, t), pb.DIR)
        for cls, f in (('traffic_simulator_msgs::msg::TrafficLightV1', 'lanelet_way_id'), ('autoware_perception_msgs::msg::TrafficSignal', 'traffic_signal_id'), ('autoware_perception_msgs::msg::TrafficLightGroup', 'traffic_light_group_id')):
            t = [x['t'] for x in self.prog.records[cls]['f'] if x['n'] == f]
            rep.require(t and strip_type(t[0]) in ('long', 'std::int64_t', 'int64_t'), 'C31:width:' + f, 'the %s of a traffic light is told as %s' % (f, t), 'simulation/traffic_simulator_msgs/msg')


# what a scenario says, and what it means
NAMES = {'Color': {'green': 'green', 'amber': 'yellow', 'yellow': 'yellow', 'red': 'red', 'white': 'white', 'unknown': 'unknown', 'Green': 'green', 'Yellow': 'yellow', 'Red': 'red'},
         'Status': {'solidOn': 'solid_on', 'solidOff': 'solid_off', 'flashing': 'flashing', 'unknown': 'unknown', 'Blank': 'solid_off', 'none': 'solid_off'},
         'Shape': {'circle': 'circle', 'cross': 'cross', 'left': 'left', 'down': 'down', 'up': 'up', 'right': 'right', 'lowerLeft': 'lower_left', 'upperLeft': 'upper_left', 'lowerRight': 'lower_right',
                   'upperRight': 'upper_right', 'straight': 'up', 'unknown': 'unknown'}}
# what the other simulator is told of it
SAID = {'Color': {'green': 'GREEN', 'yellow': 'AMBER', 'red': 'RED', 'white': 'WHITE', 'unknown': 'UNKNOWN_COLOR'},
        'Status': {'solid_on': 'SOLID_ON', 'solid_off': 'SOLID_OFF', 'flashing': 'FLASHING', 'unknown': 'UNKNOWN_STATUS'},
        'Shape': {'circle': 'CIRCLE', 'cross': 'CROSS', 'left': 'LEFT_ARROW', 'down': 'DOWN_ARROW', 'up': 'UP_ARROW', 'right': 'RIGHT_ARROW', 'lower_left': 'DOWN_LEFT_ARROW', 'upper_left': 'UP_LEFT_ARROW',
                  'lower_right': 'DOWN_RIGHT_ARROW', 'upper_right': 'UP_RIGHT_ARROW', 'unknown': 'UNKNOWN_SHAPE'}}


def plainly(n):
    return 'UNKNOWN' if n.startswith('UNKNOWN') else n


def run(rep):
    rep.rule = ('abstract interpretation of the words of a state, of every bulb they make, of what the lights do on each operation of a scenario over a map of two overlapping relations, of what detection and V2I '
                'make of it, and of each message that is published; every light that is told is the one that was set, by the names of the interface')
    prog = load(SRC, probes=['lights.cpp'])
    rep.need(not prog.errors, 'the traffic lights do not parse: %s' % prog.errors[:3])
    c = Lights(rep, prog)
    ip, begun, throws = c.begin()
    rep.need(len(begun) == 1 and not throws, 'the traffic lights are not understood: %d ways to make them' % len(begun))
    def part(r, which):
        x = Lights(r, prog)
        if which in ('names', 'bulbs'):
            return getattr(x, which)()
        getattr(x, which)(begun[0])
    rep.fan(part, ['bulbs', 'names', 'scenario', 'questions', 'detection', 'vehicle', 'messages', 'predictions', 'updates', 'architectures', 'widths', 'lines', 'marks'])
