"""The status monitor: which threads are responsive, for how long they may be silent, and what is written of them."""
import re
from .. import algebra                                      # it finds sympy
from ..facts import load
from ..absint import Interp, State, Sx, I, TRUE, FALSE, NIL, VOID, mkobj
from ..json import JSON, items, members
from ..symbolic import number
from .c21_geometry import Check, S, sym
from .c24_text import say, shown

CM = 'common/status_monitor/'
HPP, CPP = CM + 'include/status_monitor/status_monitor.hpp', CM + 'src/status_monitor.cpp'
SM = 'common::StatusMonitor'
ST = SM + '::Status'
FIELDS = ['last_access', 'maximum_access_interval', 'minimum_access_interval', 'exited', 'name']
TH = ('t', 'monitor')
ME, OTHER = Sx('me'), Sx('other')
MON = ('alias', TH, ())


def g(n):
    return ('g', SM + '::' + n)


def status(n, **k):
    return mkobj(ST, None, {ST + '::' + f: k.get(f, sym('%s %s' % (n, f))) for f in FIELDS})


def pair(k, v):
    return mkobj('std::pair', None, {'std::pair::first': k, 'std::pair::second': v})


def world(*known, **k):
    """the monitor, where these threads are known"""
    st = State().put(TH, mkobj(SM)).put(g('threshold'), sym('T')).put(g('file'), ('stream', ())).put(g('terminating'), FALSE)
    return st.put(g('statuses'), ('list', tuple(pair(t, status({'me': 'my'}.get(t[1], t[1]), **k.get(t[1], {}))) for t in known)))


def threads(ip, s):
    """{thread: {field: value}}"""
    c = ip.loadraw(s, (g('statuses'), ()))
    if c[0] != 'list':
        return None
    out = {}
    for x in c[1]:
        d = dict(ip.load(s, x)[3]) if x[0] == 'obj' else None
        if d is None:
            return None
        v = dict(d['std::pair::second'][3]) if d['std::pair::second'][0] == 'obj' else {}
        out[d['std::pair::first'][1]] = {f: v.get(ST + '::' + f) for f in FIELDS}
    return out


def clock(still):
    def h(ip, st, e, o, args, f):
        k = 1 if still else st.g('clock', 0) + 1
        return [(st.gset(clock=k), sym('now' if still else 'now%d' % k))]
    return h


def event(name, value=VOID):
    def h(ip, st, e, o, args, f):
        return [(s.event(name, *[ip.load(s, v) for v in vs]), value) for s, vs in ip.args(args, f, st)]
    return h


def seen(ip, st):
    t = threads(ip, st) or {}
    return (ip.loadraw(st, (g('threshold'), ())), t.get('me', {}).get('last_access'))


def locked(ip, st, e, o, args, f):
    """whoever takes the lock sees what those before left"""
    return [(s.event('lock', *seen(ip, s)), mkobj('lock')) for s, vs in ip.args(args, f, st)]


def work(fails):
    def h(ip, st, e, o, args, f):
        s = st.event('work', *seen(ip, st))
        if fails:
            ip.throw(s, mkobj('an error'))
            return []
        return [(s, sym('result'))]
    return h


def whole(ip, st, e, o, args, f):
    """a duration in whole units"""
    m = re.search(r'std::ratio<[^>]*>', f['rt'])
    u = {'std::ratio<1, 1>': 'seconds', 'std::ratio<1, 1000>': 'milliseconds', 'std::ratio<1, 1000000>': 'microseconds', 'std::ratio<1, 1000000000>': 'nanoseconds'}.get(m.group(0) if m else '')
    return [(s, ('call', 'whole ' + str(u), ip.load(s, vs[0]))) for s, vs in ip.args(args, f, st)]


def it(ip, st, e, o, args, f):
    return [(st, ip.load(st, o))]


def const(v):
    return lambda ip, st, e, o, args, f: [(st, v)]


TIME = [(r'^std::chrono::duration_cast$', whole), (r'^std::chrono::duration<.*>::count$', it), (r'time_point<.*>::time_since_epoch$', it),
        (r'duration<.*>::max$', const(sym('longest'))), (r'duration<.*>::min$', const(sym('shortest')))]


def referred(ip, st, e, o, args, f):
    return [(s, ('ptr',) + vs[0][1:] if vs[0][0] == 'alias' and 'reference_wrapper' not in f['pt'][0] else ip.load(s, vs[0])) for s, vs in ip.args(args, f, st)]


def referee(ip, st, e, o, args, f):
    v = ip.loadraw(st, (o[1], o[2])) if o[0] == 'alias' else o
    return [(st, ('alias',) + v[1:]) if v[0] in ('alias', 'ptr') else (st, v)]


REF = [(r'^std::reference_wrapper<.*>::reference_wrapper$', referred), (r'^std::reference_wrapper<.*>::(get|operator .*&)$', referee)]


def stop(ip, st, e, o, args, f):
    return [(s.event('terminating', ip.load(s, vs[0])), VOID) for s, vs in ip.args(args, f, st)]


class Monitor(Check):
    def __init__(self, rep, prog):
        super().__init__(rep, prog, 'C25')

    def go(self, fn, st, this=None, vals=(), hooks=(), still=False):
        base = [(r'std::chrono::.*clock::now$', clock(still)), (r'this_thread::get_id$', const(ME)), (r'^common::name$', const(sym('program'))), (r'stub_log$', event('log')),
                (r'^std::(scoped_lock|lock_guard|unique_lock)<.*>::(scoped_lock|lock_guard|unique_lock)$', locked)]
        ip = Interp(self.prog, hooks=list(hooks) + base + JSON + TIME + REF, opaque=[])
        rets, throws = ip.run(self.prog.one(fn) if isinstance(fn, str) else fn, st, this, list(vals))
        self.rep.analysed(ip)
        self.rep.count('paths', len(rets) + len(throws))
        return ip, rets, throws

    def all(self, id, text, where, rets, cond, least=1):
        """what has to hold at the end of every path"""
        bad = None
        for r in rets:
            bad = cond(*r)
            if bad:
                break
        if len(rets) < least:
            bad = 'it does not happen'
        self.rep.require(not bad, 'C25:' + id, '%s: %s' % (text, bad), where)
        if not bad:
            self.rep.ok(text, where)


def run(rep):
    rep.rule = ('abstract interpretation of touching, overriding the threshold, judging, writing and ending, over unknown times; the fields of every thread, the threshold that each holder of the lock sees '
                'and the document that is written are compared with those of the definition')
    prog = load([CPP], probes=['monitor.cpp'])
    m = Monitor(rep, prog)
    touching(rep, m)
    judging(rep, m)
    overriding(rep, m)
    ending(rep, m)
    watching(rep, m)
    writing(rep, m)
    rep.count('identities that hold as normal forms', m.verdict.proved)
    rep.count('identities compared at generic points', m.verdict.compared)


def unchanged(t, n):
    return t is not None and all(t[f] == sym('%s %s' % (n, f)) for f in FIELDS)


def touching(rep, m):
    ip, rets, throws = m.go('probe::touch', world(OTHER, ME), None, [MON, sym('name')])
    paths, odd = [], None
    for s, v in rets:
        t = threads(ip, s)
        if t is None or set(t) != {'me', 'other'} or not unchanged(t.get('other'), 'other'):
            odd = 'it changes what is known of another thread'
            continue
        if t['me']['name'] != sym('my name') or t['me']['exited'] != sym('my exited') or ip.loadraw(s, (g('threshold'), ())) != sym('T'):
            odd = 'it changes the name, the end or the threshold'
        paths.append((s.facts, tuple(t['me'][f] for f in ('last_access', 'minimum_access_interval', 'maximum_access_interval'))))
    rep.require(not odd and not throws, 'C25:touch', 'a thread that has been seen says that it is alive: %s' % (odd or 'it fails'), HPP)
    l, d, x, y = S('l'), S('d'), S('x'), S('y')
    from sympy import Symbol
    p, q = Symbol('p', positive=True), Symbol('q', positive=True)
    for text, lo, hi, a, b in (('between the extremes', d - p, d + q, d - p, d + q), ('the shortest so far', d + p, d + p + q, d, d + p + q), ('the longest so far', d - p - q, d - q, d - p - q, d),
                               ('the only one', d + p, d - q, d, d), ('as long as both', d, d, d, d)):
        m('touch:interval', 'a thread says that it is alive after an interval, %s' % text, HPP, paths,
          {sym('my last_access'): l, sym('now1'): l + d, sym('my minimum_access_interval'): lo, sym('my maximum_access_interval'): hi}, (l + d, a, b))
    ip, rets, throws = m.go('probe::touch', world(OTHER), None, [MON, sym('name')])

    def new(s, v):
        t = threads(ip, s)
        if t is None or set(t) != {'me', 'other'} or not unchanged(t['other'], 'other'):
            return 'the other threads are no longer what they were, or it is not known'
        want = {'last_access': sym('now1'), 'maximum_access_interval': sym('shortest'), 'minimum_access_interval': sym('longest'), 'exited': FALSE, 'name': sym('name')}
        for f in FIELDS:
            if t['me'][f] != want[f]:
                return 'its %s is %s' % (f, str(t['me'][f])[:80])
    m.all('touch:new', 'a thread says that it is alive for the first time', HPP, rets, new)


def judging(rep, m):
    from sympy import Symbol
    d, l, T = Symbol('d', positive=True), S('l'), Symbol('T', positive=True)
    for fn in (ST + '::good', ST + '::operator bool'):
        ip, rets, throws = m.go(fn, world().put(('t', 'status'), status('my')), ('ptr', ('t', 'status'), ()))
        what = 'whether a thread is responsive' if fn.endswith('good') else 'whether a thread is responsive, by conversion'
        paths = [(s.facts, (ip.load(s, v),)) for s, v in rets]
        flat = []
        for s, v in rets:
            for s2, b in ip.truth(s, ip.load(s, v)):
                flat.append((s2.facts, (('b', b),)))
        for text, ex, now, want in (('that has ended', True, l + T + d, True), ('that has ended just now', True, l, True), ('heard of within the threshold', False, l + T - d, True),
                                    ('not heard of for the threshold', False, l + T, False), ('not heard of for longer than the threshold', False, l + T + d, False)):
            if ex:
                cut = [(f, o) for f, o in flat if f.get(sym('my exited')) != FALSE]
            else:
                cut = [(f, o) for f, o in flat if f.get(sym('my exited')) != TRUE]
            cut = [({k: v for k, v in f.items() if k != sym('my exited')}, o) for f, o in cut]
            m('good', '%s: one %s' % (what, text), HPP, cut, {sym('my last_access'): l, sym('now1'): now, sym('T'): T}, (want,))
    ip, rets, throws = m.go(SM + '::updateThreshold', world(OTHER, ME), ('ptr', TH, ()), [sym('t')])
    m.all('threshold', 'the threshold is updated', CPP, rets, lambda s, v: None if ip.loadraw(s, (g('threshold'), ())) == sym('t') and unchanged(threads(ip, s)['me'], 'my') else 'it is not the one given, or a status changes')
    st = State().put(TH, mkobj(SM))
    v = m.prog.vars.get(SM + '::threshold')
    rep.require(v is not None, 'C25:threshold', 'there is no threshold', HPP)


def overriding(rep, m):
    for fails in (False, True):
        text = 'work under a threshold of its own' + (', which fails' if fails else '')
        ip, rets, throws = m.go('probe::override_', world(OTHER, ME), None, [MON, sym('t')], hooks=[(r'^probe::work$', work(fails))])
        ends = [(s, x) for s, x in (throws if fails else rets)]
        rep.require(ends and not (rets if fails else throws), 'C25:override', '%s: it %s' % (text, 'succeeds' if fails else 'fails'), HPP)

        def cond(s, v):
            tr = s.g('trace', ())
            at = [i for i, x in enumerate(tr) if x[0] == 'work']
            if len(at) != 1:
                return 'it is done %d times' % len(at)
            if tr[at[0]][1] != sym('t'):
                return 'the threshold meanwhile is %s' % str(tr[at[0]][1])
            if tr[at[0]][2] == sym('my last_access'):
                return 'the thread does not say that it is alive before'
            before = tr[at[0]][2]
            end = seen(ip, s)
            if end[0] != sym('T'):
                return 'the threshold afterwards is %s' % str(end[0])[:80]
            if end[1] in (before, sym('my last_access')):
                return 'the thread does not say that it is alive afterwards'
            for x in tr[at[0] + 1:]:
                if x[0] == 'lock' and x[1] == sym('T') and x[2] == before:
                    return 'the former threshold is back before the thread says that it is alive'
            if not unchanged(threads(ip, s)['other'], 'other'):
                return 'the status of another thread changes'
            if not fails and ip.load(s, v) != sym('result'):
                return 'the result is lost'
        m.all('override', text, HPP, ends, cond)


def ending(rep, m):
    COUNT = ('g', 'common::count')
    HK = [(r'^std::atomic<bool>::(store|operator=)$', stop), (r'^std::thread::join$', event('join')), (r'ofstream<.*>::close$', event('close')), (r'unique_lock<.*>::unlock$', event('unlock'))]
    for n in (1, 2, 3):
        for known in ((OTHER, ME), (OTHER,)):
            ip, rets, throws = m.go(SM + '::~StatusMonitor', world(*known).put(COUNT, I(n)), ('ptr', TH, ()), hooks=HK)
            text = 'the end of %s of %d monitors, in a thread that was %s' % ('one', n, 'seen' if ME in known else 'never seen')

            def cond(s, v):
                t = threads(ip, s)
                if t is None or set(t) != {k[1] for k in known} or not unchanged(t['other'], 'other'):
                    return 'another thread is no longer what it was'
                if ME in known and (t['me']['exited'] != TRUE or any(t['me'][f] != sym('my ' + f) for f in FIELDS if f != 'exited')):
                    return 'the thread is not marked as ended, and nothing but that'
                if ip.loadraw(s, (COUNT, ())) != I(n - 1):
                    return 'there are %s left' % str(ip.loadraw(s, (COUNT, ())))
                tr = [x for x in s.g('trace', ()) if x[0] in ('terminating', 'join', 'close')]
                want = [('terminating', TRUE), ('join',), ('terminating', FALSE), ('close',)] if n == 1 else []
                if n > 1 and tr:
                    return 'the watchdog is stopped although there are others'
                if n == 1:
                    if ('join',) not in tr or ('terminating', TRUE) not in tr or tr.index(('terminating', TRUE)) > tr.index(('join',)):
                        return 'the watchdog is not told to stop and then waited for'
                    if ('close',) in tr and tr.index(('close',)) < tr.index(('join',)):
                        return 'the file is closed under the watchdog'
                    last = [x for x in tr if x[0] == 'terminating'][-1]
                    if last != ('terminating', FALSE):
                        return 'the watchdog of the next monitor stops at once'
            m.all('end', text, CPP, rets, cond)


def watching(rep, m):
    COUNT = ('g', 'common::count')

    def start(ip, st, e, o, args, f):
        return [(s.event('start', *[ip.load(s, v) for v in vs]).gset(watch=ip.load(s, vs[0]) if vs else None), mkobj('std::thread')) for s, vs in ip.args(args, f, st)]

    def opened(ip, st, e, o, args, f):
        return [(s.event('open', shown(ip.load(s, vs[0]))), VOID) for s, vs in ip.args(args, f, st)]

    def stopped(ip, st, e, o, args, f):
        k = st.g('asked', 0) + 1
        return [(st.gset(asked=k), ('b', k > 3))]
    HK = [(r'^std::thread::thread$', start), (r'ofstream<.*>::open$', opened), (r'^std::atomic<bool>::(load|operator bool)$', stopped), (r'::sleep_for$', event('sleep')), (SM + '::write$', event('write'))]
    for n in (0, 1, 5):
        ip, rets, throws = m.go(SM + '::StatusMonitor', world(OTHER).put(COUNT, I(n)), ('ptr', TH, ()), hooks=HK)

        def cond(s, v):
            if ip.loadraw(s, (COUNT, ())) != I(n + 1):
                return 'there are %s monitors' % str(ip.loadraw(s, (COUNT, ())))
            k = len([x for x in s.g('trace', ()) if x[0] == 'start'])
            if k != (n == 0):
                return '%d watchdogs start' % k
            t = threads(ip, s)
            if n == 0 and t != {}:
                return 'threads of an earlier run are known'
            if n and not unchanged((t or {}).get('other'), 'other'):
                return 'the threads that are known are forgotten'
        m.all('begin', 'a monitor besides %d others' % n, CPP, rets, cond)
        if n:
            continue
        for s, v in rets:
            w = s.g('watch', None)
            if not rep.require(w is not None and w[0] in ('closure', 'lambda', 'lam', 'fn'), 'C25:watch', 'what the watchdog does is not known: %s' % str(w)[:80], CPP):
                continue
            done = ip.call_closure(w, s.gset(trace=()), [], {'k': 'call', 'l': 0, 't': 'void', 'a': []})

            def watch(s, v):
                tr = [x for x in s.g('trace', ()) if x[0] in ('open', 'write', 'sleep')]
                if not tr or tr[0][0] != 'open':
                    return 'it writes before the file is open'
                if tr[0][1] != ('/tmp/', sym('program'), '_status.json'):
                    return 'the file is %s' % say(tr[0][1])
                kinds = [x[0] for x in tr[1:]]
                if kinds.count('write') != 3 or kinds.count('sleep') != 3:
                    return 'it writes %d times and pauses %d times while it is asked to go on three times' % (kinds.count('write'), kinds.count('sleep'))
            m.all('watch', 'the watchdog', CPP, done, watch)


def settle(ip, s, v):
    """what a condition is, if that is known"""
    bs = {b for _, b in ip.truth(s, v)}
    return bs.pop() if len(bs) == 1 else None


def settled(ip, rets):
    """the paths, each of which knows what it says of every thread"""
    out = []
    for s, v in rets:
        todo = [s]
        w = ip.loadraw(s, (g('file'), ()))
        for x in [d for d in w[1] if d[0] == 'dumped'] if w[0] == 'stream' else ():
            d = members(x[1]) or {}
            for t in [d] + [members(t) or {} for t in items(d['threads']) or ()] if 'threads' in d else ():
                if 'good' in t:
                    todo = [s2 for s1 in todo for s2, b in ip.truth(s1, t['good'])]
        out += [(s1, v) for s1 in todo]
    return out


def writing(rep, m):
    ms = lambda x: ('call', 'whole milliseconds', x)
    for known, ended in (((), ()), ((ME,), ('me',)), ((ME,), ()), ((OTHER, ME), ()), ((OTHER, ME), ('me',)), ((OTHER, ME), ('other', 'me'))):
        st = world(*known, **{k[1]: {'exited': TRUE if k[1] in ended else FALSE} for k in known})
        ip, rets, throws = m.go(SM + '::write', st, ('ptr', TH, ()), still=True)
        text = 'the document of %d threads of which %d have ended' % (len(known), len(ended))
        outcomes = set()
        rets = settled(ip, rets)

        def cond(s, v):
            w = ip.loadraw(s, (g('file'), ()))
            parts = w[1] if w[0] == 'stream' else ()
            docs = [x for x in parts if x[0] == 'dumped']
            if len(docs) != 1 or parts[0] != docs[0]:
                return 'it is not written once'
            d = members(docs[0][1])
            if d is None or set(d) != {'threads', 'good', 'name', 'threshold', 'unix_time'}:
                return 'its keys are %s' % sorted(d or ())
            ts = items(d['threads'])
            if ts is None or len(ts) != len(known):
                return 'it has %s threads' % (None if ts is None else len(ts))
            if d['name'] != sym('program') or d['threshold'] != sym('T') or d['unix_time'] != ('call', 'whole seconds', sym('now')):
                return 'name, threshold or time are not those of the program'
            goods = []
            for k, x in zip(known, ts):
                x = members(x)
                n = {'me': 'my'}.get(k[1], k[1])
                since = ('op', '-', sym('now'), sym(n + ' last_access'))
                if x is None or set(x) != {'good', 'maximum_access_interval_ms', 'minimum_access_interval_ms', 'thread_id', 'name', 'since_last_access_ms'}:
                    return 'the keys of a thread are %s' % sorted(x or ())
                want = {'maximum_access_interval_ms': ms(sym(n + ' maximum_access_interval')), 'minimum_access_interval_ms': ms(sym(n + ' minimum_access_interval')), 'name': sym(n + ' name'), 'since_last_access_ms': ms(since)}
                for f, y in want.items():
                    if x[f] != y:
                        return 'the %s of a thread is %s' % (f, str(x[f])[:100])
                if x['thread_id'] != k:
                    return 'the id of a thread is %s' % str(x['thread_id'])[:80]
                r = s.facts.get(('rel', since, sym('T')))
                r = r if r is not None else frozenset({'<': '>', '>': '<', '=': '='}[c] for c in s.facts.get(('rel', sym('T'), since), ())) or None
                ok = True if k[1] in ended else None if r is None else r == frozenset('<')
                if ok is None or settle(ip, s, x['good']) is not ok:
                    return 'whether a thread is responsive is %s' % str(x['good'])
                goods.append(ok)
            if settle(ip, s, d['good']) is not all(goods):
                return 'the whole is %s where the threads are %s' % (settle(ip, s, d['good']), goods)
            logs = [x for x in s.g('trace', ()) if x[0] == 'log']
            if len(logs) != goods.count(False):
                return '%d messages are logged for %d unresponsive threads' % (len(logs), goods.count(False))
            outcomes.add(tuple(goods))
        m.all('write', text, CPP, rets, cond)
        rep.require(len(outcomes) == 2 ** (len(known) - len(ended)), 'C25:write', '%s: the judgements of its threads are %s' % (text, sorted(outcomes)), CPP)
