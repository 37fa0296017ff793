"""What one simulator says is what the other hears: messages, their translations, requests and responses."""
import glob
import os
import re
from ..facts import load, REPO, VERIF
from ..absint import Interp, State, I, TRUE, FALSE, VOID, NIL, mkobj, of_get, strip_type
from .. import osc, pb

S = 'simulation/simulation_interface/src/'
CONV, CLIENT, SERVER = S + 'conversions.cpp', S + 'zmq_multi_client.cpp', S + 'zmq_multi_server.cpp'
SI, ZMQ, API = 'simulation_interface::', 'zeromq::', 'simulation_api_schema::'
A, B, ME, REQ, RESP = ('o', 'message'), ('o', 'proto'), ('o', 'this'), ('o', 'request'), ('o', 'response')

# C++ types that hold every value of the other
WIDE = {'double': {'double'}, 'float': {'float', 'double'}, 'bool': {'bool'}, 'string': {'string'}, 'int': {'int32', 'int64', 'sint32', 'sint64'}, 'long': {'int64', 'sint64'},
        'unsigned int': {'uint32', 'uint64', 'int64'}, 'unsigned char': {'uint32', 'int32', 'uint64', 'int64'}, 'unsigned long': {'uint64'}, 'signed char': {'int32', 'int64'}, 'short': {'int32', 'int64'}}
# what is a name written as a number: (message, field)
NAMED = {('traffic_simulator_msgs::msg::EntityType', 'type'), ('traffic_simulator_msgs::msg::EntitySubtype', 'value'), ('autoware_vehicle_msgs::msg::GearCommand', 'command')}
# fields of a message that its translation does not have, and what the reader is told of them
UNSAID = {('traffic_simulator_msgs::msg::VehicleParameters', 'subtype'), ('traffic_simulator_msgs::msg::PedestrianParameters', 'subtype'), ('traffic_simulator_msgs::msg::MiscObjectParameters', 'subtype'),
          ('traffic_simulator_msgs::msg::EntityStatus', 'bounding_box'), ('traffic_simulator_msgs::msg::EntityStatus', 'lanelet_pose'), ('traffic_simulator_msgs::msg::EntityStatus', 'lanelet_pose_valid')}
# a field of a translation that has no content
EMPTY = {'traffic_simulator_msgs::Property'}


def names_of(message):
    """{constant: value} of a ROS message, from its definition"""
    pkg, _, m = message.split('::')
    p = os.path.join(REPO, 'simulation', pkg, 'msg', m + '.msg')
    if os.path.exists(p):
        text = open(p).read()
    else:
        text = open(os.path.join(VERIF, 'stubs', 'msgs.txt')).read()
        k = re.search(r'^%s/%s$' % (pkg, m), text, re.M)
        if not k:
            return {}
        text = re.split(r'^(?:srv )?\w+/\w+$', text[k.end():], maxsplit=1, flags=re.M)[0]
    return {k: int(v, 0) for k, v in re.findall(r'^\s*u?int\d+\s+(\w+)\s*=\s*(-?\w+)', text, re.M)}


def bare(t):
    return strip_type(t).replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')


class Talk:
    def __init__(self, rep, prog):
        self.rep, self.prog, self.wire = rep, prog, pb.Wire()

    def interp(self, hooks=()):
        ip = osc.interp(Interp, self.prog, list(hooks) + self.wire.hooks(), opaque=[r'^google::', r'^zmq::', r'^zmq_'])
        ip.MAXREC = 8
        return ip

    def run(self, ip, fn, st, this, vals):
        rets, throws = ip.run(fn, st, this, list(vals))
        self.rep.analysed(ip)
        self.rep.count('paths', len(rets) + len(throws))
        return rets, throws

    # ---- messages
    def fields(self, cls):
        return [(f['n'], f['q'], bare(f['t'])) for f in self.prog.records[cls]['f']]

    def symbol(self, cls, name, choice, many):
        """any message of a class: a symbol for each number and text, any of the named values, lists of each length"""
        fs = {}
        for n, q, t in self.fields(cls):
            x = '%s.%s' % (name, n)
            if (cls, n) in NAMED:
                fs[q] = I(choice.get(cls, 1))
            elif t.startswith('std::vector<'):
                inner = re.match(r'std::vector<(.*), std::allocator<', t).group(1)
                fs[q] = ('list', tuple(self.symbol(inner, '%s[%d]' % (x, i), choice, many) for i in range(many)))
            elif t in self.prog.records:
                fs[q] = self.symbol(t, x, choice, many)
            else:
                fs[q] = ('sym', x)
        return mkobj(cls, None, fs)

    def stale(self, cls, depth=0):
        """a translation that has been used before: everything in it is set to something else"""
        fs = {}
        for n, (t, rep, one, k) in self.wire.msgs[cls].items():
            if rep:
                continue
            fs['%s::%s' % (cls, n)] = self.stale(t, depth + 1) if t in self.wire.msgs else ('sym', 'stale %s' % n) if t in pb.SCALAR else I(0)
        return mkobj(cls, None, fs)

    def pairs(self):
        """{(message, translation): [function there, function back]}"""
        out = {}
        for n in ('toProto', 'toMsg', 'toProtobufMessage', 'toROS2Message'):
            for f in self.prog.by_name.get(SI + n, ()):
                ps = [strip_type(p['t'].replace('const ', '').replace(' &', '')) for p in f.x['p']]
                back = n in ('toMsg', 'toROS2Message')
                if len(ps) == 1:
                    ps.append(strip_type(f.x.get('rt') or f.x.get('r') or ''))
                m, p = (ps[1], ps[0]) if back else (ps[0], ps[1])
                if len(f.x['p']) == 1:
                    m, p = (None, ps[0]) if back else (ps[0], None)
                    m = m or p.replace('::', '::msg::', 1)
                    p = p or m.replace('::msg::', '::')
                if p in self.wire.msgs:
                    out.setdefault((m, p), {})['back' if back else 'there'] = f
        return out

    def there(self, fn, msg, proto, target):
        """[(translation, None) or (None, error)]"""
        ip = self.interp()
        if len(fn.x['p']) == 1:
            rets, throws = self.run(ip, fn, State().put(A, msg), None, [('alias', A, ())])
            return [ip.load(s, v) for s, v in rets], throws
        st = State().put(A, msg).put(B, proto)
        rets, throws = self.run(ip, fn, st, None, [('alias', A, ()), ('alias', B, ())])
        return [ip.loadraw(s, (B, ())) for s, v in rets], throws

    def back(self, fn, proto, msg):
        ip = self.interp()
        if len(fn.x['p']) == 1:
            rets, throws = self.run(ip, fn, State().put(A, proto), None, [('alias', A, ())])
            return [ip.load(s, v) for s, v in rets], throws
        rets, throws = self.run(ip, fn, State().put(A, proto).put(B, msg), None, [('alias', A, ()), ('alias', B, ())])
        return [ip.loadraw(s, (B, ())) for s, v in rets], throws

    def same(self, m, v, w, p, where):
        """differences between two messages, over what translation p has of them"""
        if v[0] == 'obj' and v[1] in self.prog.records and (p is None or p in self.wire.msgs):
            for n, q, t in self.fields(v[1]):
                x = of_get(v, q)
                y = of_get(w, q) if w[0] == 'obj' else None
                if p is not None and n not in self.wire.msgs[p]:
                    continue
                sub = self.wire.msgs[p][n][0] if p is not None else None
                yield from self.same(m, x, y if y is not None else ('nothing',), sub if sub in self.wire.msgs else None, where + '.' + n)
        elif v[0] == 'list':
            ys = w[1] if w is not None and w[0] == 'list' else None
            if w == ('nothing',):
                ys = ()
            if ys is None or len(ys) != len(v[1]):
                yield where, 'a list of %s' % len(v[1]), w
            else:
                for i, (x, y) in enumerate(zip(v[1], ys)):
                    yield from self.same(m, x, y, p, '%s[%d]' % (where, i))
        elif v != w:
            yield where, v, w

    def translated(self, m, v, t, where):
        """differences between a message and its translation, by field name"""
        for n, (ft, rep, one, k) in self.wire.msgs[t[1]].items():
            if ft in EMPTY:
                continue
            q = next((q for x, q, _ in self.fields(v[1]) if x == n), None)
            if q is None:
                yield where + '.' + n, 'no such field', None
                continue
            x, y = of_get(v, q), self.wire.get(t, n)
            if (v[1], n) in NAMED:
                names = names_of(v[1])
                mine = [a for a, b in names.items() if ('i', b) == x]
                theirs = self.wire.enums.get(ft, {})
                if len(mine) != 1 or mine[0] not in theirs or y != I(theirs[mine[0]]):
                    yield where + '.' + n, mine, y
            elif rep:
                if y[0] != 'list' or len(y[1]) != len(x[1]):
                    yield where + '.' + n, x, y
                else:
                    for i, (a, b) in enumerate(zip(x[1], y[1])):
                        yield from self.translated(m, a, b, '%s.%s[%d]' % (where, n, i))
            elif ft in self.wire.msgs:
                if y[0] == 'obj':
                    yield from self.translated(m, x, y, where + '.' + n)
                else:
                    yield where + '.' + n, x, y
            elif x != y:
                yield where + '.' + n, x, y

    def kinds(self, m, seen=()):
        """the named numbers that occur in a message"""
        out = set()
        for n, q, t in self.fields(m):
            if (m, n) in NAMED:
                out.add((m, n))
            inner = re.match(r'std::vector<(.*), std::allocator<', t)
            t = inner.group(1) if inner else t
            if t in self.prog.records and t not in seen:
                out |= self.kinds(t, seen + (t,))
        return out

    def conversions(self):
        rep = self.rep
        found = self.pairs()
        rep.need(len(found) > 20, 'the translations vanished')
        for (m, p), fns in sorted(found.items()):
            key = 'C30:%s' % p
            if m.startswith('std::tuple<'):
                self.command(fns['there'], p, key)
                continue
            rep.need(m in self.prog.records, 'no message %s' % m)
            self.types(m, p)
            rep.require('back' in fns and 'there' in fns, key + ':both', '%s is translated in one direction only' % p, CONV)
            kinds = self.kinds(m)
            cases = [({}, n) for n in (0, 1, 2)] if 'std::vector<' in str([f for f in self.all_fields(m)]) else [({}, 0)]
            for k, f in sorted(kinds):
                if k == m:
                    cases += [({k: v}, 0) for v in sorted(names_of(k).values())]
                else:
                    cases += [({k: 2}, 0)]
            for choice, many in cases:
                v = self.symbol(m, 'x', choice, many)
                said = []
                for old in (mkobj(p, None, {}), self.stale(p)):
                    if 'there' not in fns:
                        continue
                    rep.count('translations')
                    ts, throws = self.there(fns['there'], v, old, p)
                    if not rep.require(len(ts) >= 1 and not throws, key + ':there', '%s %s cannot be translated' % (m, choice or ''), CONV):
                        continue
                    for t in ts:
                        bad = list(self.translated(m, v, t, 'x'))
                        rep.require(not bad, key + ':there', 'the translation of %s says %s of %s instead of %s' % ((m, show(bad[0][2]), bad[0][0], show(bad[0][1])) if bad else ('',) * 4), CONV)
                        said.append(t)
                if 'back' not in fns or not said:
                    continue
                other = self.symbol(m, 'old', {k: 3 for k, f in kinds}, 0)
                for t in said[:1]:
                    rep.count('translations')
                    ms, throws = self.back(fns['back'], t, other)
                    if not rep.require(len(ms) >= 1 and not throws, key + ':back', '%s %s cannot be understood' % (p, choice or ''), CONV):
                        continue
                    for w in ms:
                        bad = list(self.same(m, v, w, p, 'x'))
                        rep.require(not bad, key + ':back', '%s, translated there and back, is %s at %s instead of %s' % ((m, show(bad[0][2]), bad[0][0], show(bad[0][1])) if bad else ('',) * 4), CONV)
                        if 'lanelet_pose_valid' in [n for n, q, t2 in self.fields(m)] and 'lanelet_pose_valid' not in self.wire.msgs[p]:
                            got = of_get(w, next(q for n, q, t2 in self.fields(m) if n == 'lanelet_pose_valid'))
                            rep.require(got == FALSE, key + ':lanelet_pose_valid', 'a status without a lanelet pose is understood as one with a valid lanelet pose', CONV)
                # messages of the other that leave everything unsaid are read as the default, whatever was there before
            for k, f in sorted(kinds):
                if k == m:
                    self.unknown(m, p, f, fns, key)
            if 'back' in fns:
                rep.count('translations')
                ms, throws = self.back(fns['back'], mkobj(p, None, {}), self.symbol(m, 'old', {k: 3 for k, f in kinds}, 2))
                rep.require(ms and not throws and not [x for w in ms for x in self.left(w, m, p, 'x')], key + ':empty', '%s: what the message leaves unsaid keeps its old value' % p, CONV)

    def all_fields(self, m, seen=()):
        for n, q, t in self.fields(m):
            yield t
            inner = re.match(r'std::vector<(.*), std::allocator<', t)
            u = inner.group(1) if inner else t
            if u in self.prog.records and u not in seen:
                yield from self.all_fields(u, seen + (u,))

    def left(self, w, m, p, where):
        """symbols of the old message in what the translation should have overwritten"""
        if w[0] != 'obj' or p not in self.wire.msgs or m not in self.prog.records:
            return
        for n, q, t in self.fields(m):
            if n not in self.wire.msgs[p]:
                continue
            x = of_get(w, q)
            ft = self.wire.msgs[p][n][0]
            if x is not None and x[0] == 'sym' and x[1].startswith('old'):
                yield where + '.' + n
            elif x is not None and x[0] == 'obj':
                yield from self.left(x, t, ft, where + '.' + n)
            elif x is not None and x[0] == 'list' and x[1]:
                yield where + '.' + n

    def types(self, m, p):
        """what the field of a translation can say, of all that the field of the message can be"""
        for n, q, t in self.fields(m):
            if n not in self.wire.msgs[p]:
                self.rep.require((m, n) in UNSAID, 'C30:%s.%s:unsaid' % (p, n), '%s is not part of what is sent of %s' % (n, m), pb.DIR)
                continue
            ft, rep, one, k = self.wire.msgs[p][n]
            self.rep.count('fields')
            if (m, n) in NAMED:
                names, theirs = names_of(m), self.wire.enums.get(ft, {})
                self.rep.require(set(names) <= set(theirs), 'C30:%s.%s:names' % (p, n), '%s cannot say %s of %s' % (p, sorted(set(names) - set(theirs)), n), pb.DIR)
            elif t in self.prog.records or t.startswith('std::vector<'):
                self.rep.require(rep == t.startswith('std::vector<') and ft in self.wire.msgs, 'C30:%s.%s:type' % (p, n), '%s cannot say the %s of %s' % (p, n, m), pb.DIR)
            else:
                self.rep.require(ft in WIDE.get(t, ()), 'C30:%s.%s:type' % (p, n), '%s says %s, which is a %s, as a %s' % (p, n, t, ft), pb.DIR)

    def unknown(self, m, p, f, fns, key):
        """a number that is no name is refused"""
        names = names_of(m)
        other = 77
        if m.endswith('GearCommand'):
            return  # Autoware decides what it sends; a gear that it does not know stays NONE
        if 'there' in fns:
            ts, throws = self.there(fns['there'], self.symbol(m, 'x', {m: other}, 0), mkobj(p, None, {}), p)
            self.rep.require(not ts and throws, key + ':unknown', '%s of %s %s is translated' % (f, m, other), CONV)
        if 'back' in fns:
            ms, throws = self.back(fns['back'], mkobj(p, None, {'%s::%s' % (p, f): I(other)}), self.symbol(m, 'old', {}, 0))
            self.rep.require(not ms and throws, key + ':unknown', '%s of %s %s is understood' % (f, p, other), CONV)

    def command(self, fn, p, key):
        """a vehicle command is the control and the gear"""
        ms = ('autoware_control_msgs::msg::Control', 'autoware_vehicle_msgs::msg::GearCommand')
        vs = [self.symbol(m, 'x', {ms[1]: 2}, 0) for m in ms]
        for old in (mkobj(p, None, {}), self.stale(p)):
            self.rep.count('translations')
            ts, throws = self.there(fn, ('list', tuple(vs)), old, p)
            self.rep.require(ts and not throws, key, 'a vehicle command cannot be translated', CONV)
            for t in ts:
                for f, v in zip(('control', 'gear_command'), vs):
                    got = self.wire.get(t, f)
                    bad = list(self.translated(p, v, got, f)) if got[0] == 'obj' else [(f, v, got)]
                    self.rep.require(not bad, key, 'the translation of a vehicle command says %s of %s instead of %s' % ((show(bad[0][2]), bad[0][0], show(bad[0][1])) if bad else ('',) * 3), CONV)

    # ---- requests and responses
    def kinds_of_request(self):
        q, r = self.wire.msgs[API + 'SimulationRequest'], self.wire.msgs[API + 'SimulationResponse']
        return q, r

    def bytes(self):
        """a message is sent as all of its bytes, and read from all of them"""
        rep = self.rep

        def serialize(ip, st, e, o, args, f):
            return [(ip.store(s, ip.load(s, vs[0])[1:], ('t', 'bytes', ip.load(s, o) if o[0] != 'ptr' else ip.loadraw(s, o[1:]))), TRUE) for s, vs in ip.args(args, f, st)]

        def as_text(ip, st, e, o, args, f):
            return [(s, ('t', 'bytes', self.whole(ip, s, o))) for s, vs in ip.args(args, f, st)]

        def part(what):
            def h(ip, st, e, o, args, f):
                v = ip.load(st, o) if o[0] != 'ptr' else ip.loadraw(st, o[1:])
                return [(st, ('t', what, v))] if v[0] == 't' else None
            return h

        def message(ip, st, e, o, args, f):
            if len(args) > 2:
                return None
            return [(s, ('t', 'msg', tuple(ip.load(s, v) for v in vs))) for s, vs in ip.args(args, f, st)]

        def copied(ip, st, e, o, args, f):
            return [(s.event('copied', tuple(ip.load(s, v) for v in vs)), VOID) for s, vs in ip.args(args, f, st)]

        def parsed(ip, st, e, o, args, f):
            return [(s.event('parsed', tuple(ip.load(s, v) for v in vs)), TRUE) for s, vs in ip.args(args, f, st)]

        hooks = [(r'::SerializeToString$', serialize), (r'::SerializeAsString$', as_text), (r'::ParseFromArray$', parsed), (r'::ParseFromString$', parsed), (r'^(std::)?memcpy$', copied), (r'^zmq::message_t::message_t$', message),
                 (r'^(std::basic_string<.*>|zmq::message_t)::(data|c_str)$', part('data')), (r'^(std::basic_string<.*>|zmq::message_t)::size$', part('size'))]
        X = ('t', 'what is sent')
        for fn in self.prog.by_name.get(ZMQ + 'toZMQ', ()):
            cls = strip_type(fn.x['p'][0]['t'].replace('const ', '').replace(' &', ''))
            v = mkobj(cls, X, {})
            ip = self.interp(hooks)
            rets, throws = self.run(ip, fn, State().put(A, v), None, [('alias', A, ())])
            ok = bool(rets) and not throws
            for s, r in rets:
                got = ip.load(s, r)
                text = ('t', 'bytes', v)
                size, data = ('t', 'size', text), ('t', 'data', text)
                tr = [x[1] for x in s.g('trace', ()) if x[0] == 'copied']
                whole = got == ('t', 'msg', (data, size)) and not tr or got == ('t', 'msg', (text,)) and not tr or got == ('t', 'msg', (size,)) and tr == [(('t', 'data', got), data, size)]
                ok = ok and whole
            rep.count('transfers')
            rep.require(ok, 'C30:toZMQ', 'a %s is not sent as all of its bytes' % cls.split('::')[-1], 'simulation/simulation_interface/include/simulation_interface/conversions.hpp')
        M = ('t', 'received')
        for fn in self.prog.by_name.get(ZMQ + 'toProto', ()):
            ip = self.interp(hooks)
            rets, throws = self.run(ip, fn, State().put(A, M), None, [('alias', A, ())])
            ok = bool(rets) and not throws
            for s, r in rets:
                tr = [x[1] for x in s.g('trace', ()) if x[0] == 'parsed']
                ok = ok and len(tr) == 1 and tr[0] in ((('t', 'data', M), ('t', 'size', M)),)
            rep.count('transfers')
            rep.require(ok, 'C30:toProto', 'a message is not read from all of its bytes', 'simulation/simulation_interface/include/simulation_interface/conversions.hpp')

    def whole(self, ip, st, o):
        return ip.load(st, o) if o[0] != 'ptr' else ip.loadraw(st, o[1:])

    def client(self):
        rep = self.rep
        q, r = self.kinds_of_request()
        calls = {}
        for f in self.prog.by_name.get(ZMQ + 'MultiClient::call', ()):
            calls[strip_type(f.x['p'][0]['t'].replace('const ', '').replace(' &', ''))] = f
        C = ZMQ + 'MultiClient'
        answer = mkobj(API + 'SimulationResponse', None, {API + 'SimulationResponse::' + k: mkobj(t[0], ('t', 'answer to', k), {'': ('t', 'answer to', k)}) for k, t in r.items()})

        def sent(ip, st, e, o, args, f):
            if 'SimulationRequest' not in str(f.get('pt')):
                return None
            return [(s.event('sent', ip.load(s, vs[0])).put(RESP, answer), answer) for s, vs in ip.args(args, f, st)]
        for k, (t, _, one, n) in sorted(q.items()):
            fn = calls.get(t)
            if not rep.require(fn is not None and k in r, 'C30:call:%s' % k, 'the client cannot ask for %s' % k, CLIENT):
                continue
            for on in (True, False):
                ip = self.interp([(r'^zeromq::MultiClient::call$', sent)])
                what = mkobj(t, None, {'': ('t', 'what is asked')})
                st = State().put(ME, mkobj(C, ME, {C + '::is_running': ('b', on)})).put(REQ, what)
                rets, throws = self.run(ip, fn, st, ('ptr', ME, ()), [('alias', REQ, ())])
                rep.count('requests')
                ok = bool(rets) and not throws
                for s, v in rets:
                    got = ip.load(s, v)
                    tr = [x[1] for x in s.g('trace', ()) if x[0] == 'sent']
                    if on:
                        mine = len(tr) == 1 and tr[0][0] == 'obj' and [(a, b) for a, b in tr[0][3]] == [(API + 'SimulationRequest::' + k, what)]
                        ok = ok and mine and got == self.wire.get(answer, k)
                    else:
                        ok = ok and not tr and got[0] == 'obj' and got[1] == r[k][0] and not got[3]
                rep.require(ok, 'C30:call:%s' % k, 'the client %s' % ('does not ask %s, or returns another answer' % k if on else 'asks %s of a simulator it has left' % k), CLIENT)
        # one request, one response
        fn = calls.get(API + 'SimulationRequest')
        rep.need(fn is not None, 'the client does not send')
        ip = self.interp(self.socket())
        st = State().put(ME, mkobj(C, ME, {C + '::is_running': TRUE})).put(REQ, ('t', 'asked'))
        rets, throws = self.run(ip, fn, st, ('ptr', ME, ()), [('alias', REQ, ())])
        for s, v in rets:
            tr = [x for x in s.g('trace', ()) if x[0] in ('send', 'recv')]
            rep.require(tr == [('send', ('t', 'coded', ('t', 'asked'))), ('recv', tr[-1][1])] and ip.load(s, v) == ('t', 'decoded', ('t', 'received')), 'C30:call', 'a request is not sent once and answered once: %s' % (tr,), CLIENT)
        rep.require(bool(rets), 'C30:call', 'a request is never answered', CLIENT)
        # a connection is closed once, and then nothing is asked any more
        for on in (True, False):
            for n in ('closeConnection', '~MultiClient'):
                fs = self.prog.by_name.get(C + '::' + n, ())
                rep.need(fs, '%s vanished' % n)
                ip = self.interp([(r'^zmq::(detail::)?socket_\w+::close$', lambda ip, st, e, o, a, f: [(st.event('close'), VOID)])])
                st = State().put(ME, mkobj(C, ME, {C + '::is_running': ('b', on)}))
                rets, throws = self.run(ip, fs[0], st, ('ptr', ME, ()), [])
                rep.count('requests')
                ok = bool(rets) and not throws and all([x[0] for x in s.g('trace', ())].count('close') == on and of_get(ip.loadraw(s, (ME, ())), C + '::is_running') == FALSE for s, v in rets)
                rep.require(ok, 'C30:close', 'the connection is not closed exactly once', CLIENT)

    def socket(self):
        def send(ip, st, e, o, args, f):
            return [(s.event('send', ip.load(s, vs[0])), ('some', I(1))) for s, vs in ip.args(args, f, st)]

        def recv(ip, st, e, o, args, f):
            out = []
            for s, vs in ip.args(args, f, st):
                s = s.event('recv', vs[0][1] if vs[0][0] in ('alias', 'ptr') else vs[0])
                out.append((ip.store(s, vs[0][1:], ('t', 'received')), ('some', I(1))))
            return out

        def code(ip, st, e, o, args, f):
            return [(s, ('t', 'coded', ip.load(s, vs[0]))) for s, vs in ip.args(args, f, st)]

        def decode(ip, st, e, o, args, f):
            return [(s, ('t', 'decoded', ip.load(s, vs[0]))) for s, vs in ip.args(args, f, st)]
        return [(r'^zmq::(detail::)?socket_\w+::send$', send), (r'^zmq::(detail::)?socket_\w+::recv$', recv), (r'^zeromq::toZMQ$', code), (r'^zeromq::toProto$', decode),
                (r'^zmq::message_t::message_t$', lambda ip, st, e, o, a, f: [(st, ('t', 'nothing yet'))] if not a else [(s, ip.load(s, vs[0])) for s, vs in ip.args(a, f, st)])]

    def server(self):
        rep = self.rep
        q, r = self.kinds_of_request()
        C = ZMQ + 'MultiServer'
        fn = self.prog.one(C + '::poll')
        for k in sorted(q) + [None]:
            cls = API + 'SimulationRequest'
            heard = mkobj(cls, None, {cls + '::' + k: mkobj(q[k][0], None, {'': ('t', 'asked')})} if k else {})

            def decode(ip, st, e, o, args, f):
                return [(s.event('decoded', ip.load(s, vs[0])), heard) for s, vs in ip.args(args, f, st)]

            def get(ip, st, e, o, args, f):
                t = str((f.get('ta') or [''])[0])
                m = re.search(r'std::function<([\w:]+) \(const ([\w:]+) &\)>', t)
                return [(s, ('t', 'function', m.group(1), m.group(2)) if m else ('t', 'function', t, t)) for s, vs in ip.args(args, f, st)]

            def call(ip, st, e, o, args, f):
                v = self.whole(ip, st, o)
                if v[:2] != ('t', 'function'):
                    return None
                out = []
                for s, vs in ip.args(args, f, st):
                    w = ip.load(s, vs[0])
                    out.append((s.event('asked', v[3], w), mkobj(v[2], None, {'': ('t', 'answer', v[3])})))
                return out
            for ready in (True, False):
                ip = self.interp([(r'^zeromq::toProto$', decode), (r'^std::get$', get), (r'^std::function<.*>::operator\(\)$', call), (r'^zmq::poll$', lambda ip, st, e, o, a, f: [(st.event('poll'), I(1))])] + self.socket())
                P = C + '::poll_item_'
                st = State().put(ME, mkobj(C, ME, {P: mkobj('zmq_pollitem_t', None, {'zmq_pollitem_t::revents': I(1 if ready else 0)})}))
                rets, throws = self.run(ip, fn, st, ('ptr', ME, ()), [])
                rep.count('requests')
                if not ready:
                    rep.require(rets and not throws and not any(x[0] in ('recv', 'send', 'asked') for s, v in rets for x in s.g('trace', ())), 'C30:poll', 'something is received though nothing was sent', SERVER)
                    continue
                if k is None:
                    rep.require(not rets and throws and not any(x[0] in ('send', 'asked') for s, v in throws for x in s.g('trace', ())), 'C30:poll:nothing', 'a request that asks nothing is answered', SERVER)
                    continue
                ok = bool(rets) and not throws and k in r
                for s, v in rets:
                    tr = [x for x in s.g('trace', ()) if x[0] in ('recv', 'decoded', 'asked', 'send')]
                    good = [x[0] for x in tr] == ['recv', 'decoded', 'asked', 'send']
                    if good:
                        out = tr[3][1]
                        good = (tr[1][1] == ('t', 'received') and tr[2][1] == q[k][0] and tr[2][2] == heard[3][0][1] and out[:2] == ('t', 'coded')
                                and out[2][0] == 'obj' and list(out[2][3]) == [(API + 'SimulationResponse::' + k, mkobj(r[k][0], None, {'': ('t', 'answer', q[k][0])}))])
                    ok = ok and good
                rep.require(ok, 'C30:poll:%s' % k, 'a request %s is not given to its own function and answered once with what that says' % k, SERVER)


def nodes_of(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes_of(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes_of(v)


def plain(t):
    t = re.sub(r'\b(const|volatile)\b|[&]', '', strip_type(t or '')).strip()
    return {'std::int64_t': 'long', 'std::int32_t': 'int', 'std::uint32_t': 'unsigned int'}.get(t, t)


# a field that is narrower than what it is given, and no wider in any message it is told in
NARROW = {('simulation_api_schema::TrafficLight', 'confidence')}


def widths(rep, wire):
    """whatever is put into a field, anywhere, the field holds"""
    sources = []
    for p in sorted(glob.glob(os.path.join(REPO, 'simulation', '**', '*.cpp'), recursive=True)):
        q = os.path.relpath(p, REPO)
        if '/test/' not in '/' + q and re.search(r'simulation_api_schema|simulation_interface', open(p, errors='replace').read()):
            sources.append(q)
    rep.need(len(sources) >= 8, 'only %d sources speak to the other simulator' % len(sources))
    prog = load(sources)
    rep.need(not prog.errors, 'what speaks to the other simulator does not parse: %s' % prog.errors[:3])
    put = 0
    for fns in prog.by_name.values():
        for f in fns:
            for x in nodes_of(f.x):
                c = x.get('f')
                if isinstance(c, dict) and '::' in c.get('n', '') and x.get('a'):
                    cls, m = c['n'].rsplit('::', 1)
                    if cls in wire.msgs and m[:4] in ('set_', 'add_') and m[4:] in wire.msgs[cls]:
                        t, a = wire.msgs[cls][m[4:]][0], x['a'][-1]
                        while a.get('k') == 'icast':
                            a = a['e']
                        own = plain(a.get('t'))
                        if own not in WIDE or a.get('k') in ('int', 'flt', 'bool') or a.get('k') == 'un' or (cls, m[4:]) in NARROW:
                            continue
                        put += 1
                        rep.require(t in WIDE[own], 'C30:width:%s:%s' % (cls.split('::')[-1], m[4:]), '%s of %s is sent as %s, which does not hold every %s that is put into it' % (m[4:], cls, t, own), f.where)
    rep.count('values put into a field', put)
    rep.need(put > 40, 'nothing is put into a field')


def show(v):
    s = str(v)
    return s if len(s) < 90 else s[:90] + '...'


def run(rep):
    rep.rule = ('abstract interpretation of every translation on a message of symbols, of every length and named value: each field of the translation has the value of the field of its name, and reading it gives the '
                'message back; of each call of the client and each case of the server, with the socket as events')
    prog = load([CONV, CLIENT, SERVER, S + 'operators.cpp'])
    rep.need(not prog.errors, 'the interface does not parse: %s' % prog.errors[:3])
    talk = Talk(rep, prog)
    talk.conversions()
    talk.bytes()
    talk.client()
    talk.server()
    widths(rep, talk.wire)
