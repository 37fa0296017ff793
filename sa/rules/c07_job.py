"""Jobs: updated while active, cleaned up exactly once, superseded by a job of the same kind."""
import itertools
from ..facts import load
from ..absint import Interp, State, mkobj, TRUE, FALSE, VOID, of_get, I, Sx
from .. import models

TS = 'simulation/traffic_simulator/'
JOB, LIST = 'traffic_simulator::job::Job', 'traffic_simulator::job::JobList'
THIS = ('o', 'this')


def callbacks(ip, st, e, c, vals, f):
    """user callbacks are opaque functions ('fn', '', '$update:<job>') / '$cleanup:<job>'"""
    return None


def h_cb(ip, st, e, o, args, f):
    kind, job = f['n'][1:].split(':')
    if kind == 'cleanup':
        return [(st.event('cleanup', job), VOID)]
    return [(st.event('update', job), ('b', False)), (st.event('update-done', job), ('b', True))]


class J(Interp):
    def call_closure(self, c, st, vals, e, key=None):
        if c[0] == 'fn' and c[2].startswith('$'):
            kind, job = c[2][1:].split(':')
            if kind == 'cleanup':
                return [(st.event('cleanup', job), VOID)]
            arg = self.load(st, vals[0]) if vals else None
            return [(st.event('update', job, arg, False), FALSE), (st.event('update', job, arg, True), TRUE)]
        return super().call_closure(c, st, vals, e, key)


def q(prog, cls, n):
    for f in prog.records[cls]['f']:
        if f['q'].split('::')[-1] == n:
            return f['q']
    return None


def find_field(prog, cls, pred):
    l = [f['q'] for f in prog.records[cls]['f'] if pred(f)]
    return l[0] if len(l) == 1 else None


class Layout:
    """fields of a job by their role"""
    def __init__(self, rep, prog):
        r = prog.records[JOB]['f']
        T = lambda f: f['t']
        self.update = find_field(prog, JOB, lambda f: 'function<bool' in T(f))
        self.cleanup = find_field(prog, JOB, lambda f: 'function<void' in T(f))
        self.status = find_field(prog, JOB, lambda f: T(f).endswith('job::Status'))
        self.duration = find_field(prog, JOB, lambda f: T(f) == 'double')
        self.type = q(prog, JOB, 'type')
        self.exclusive = q(prog, JOB, 'exclusive')
        self.event = q(prog, JOB, 'event')
        rep.need(all(vars(self).values()), 'fields of a job vanished: %s' % vars(self))
        self.list = find_field(prog, LIST, lambda f: 'Job' in T(f) and '<' in T(f))
        rep.need(self.list, 'the container of jobs vanished')
        en = {n: I(v) for n, v in prog.enums['traffic_simulator::job::Status']['e']}
        self.active, self.inactive = en['ACTIVE'], en['INACTIVE']
        ev = {n: I(v) for n, v in prog.enums['traffic_simulator::job::Event']['e']}
        self.pre, self.post = ev['PRE_UPDATE'], ev['POST_UPDATE']
        self.types = [I(v) for n, v in prog.enums['traffic_simulator::job::Type']['e']]

    def job(self, name, status=None, type_=None, exclusive=TRUE, event=None):
        return mkobj(JOB, None, {self.update: ('fn', '', '$update:' + name), self.cleanup: ('fn', '', '$cleanup:' + name), self.status: status or self.active,
                                 self.duration: ('term', 'elapsed ' + name), self.type: type_ or self.types[1], self.exclusive: exclusive, self.event: event or self.post})


def single(rep, prog, L):
    fn = prog.one(JOB + '::onUpdate')
    step = ('term', 'step')
    for status, label in ((L.active, 'active'), (L.inactive, 'inactive')):
        ip = J(prog)
        obj = L.job('j', status)
        rets, throws = ip.run(fn, State({THIS: obj}), ('ptr', THIS, ()), [step])
        rep.analysed(ip)
        rep.count('paths', len(rets))
        ok = bool(rets) and not throws
        seen = set()
        for s, v in rets:
            tr = s.g('trace', ())
            j = ip.load(s, ('alias', THIS, ()))

            def bad(what, text):
                nonlocal ok
                ok = False
                rep.bad('C07:update:%s:%s' % (label, what), 'updating an %s job: %s' % (label, text), fn.where)
            ups = [t for t in tr if t[0] == 'update']
            if status == L.inactive:
                if tr:
                    bad('work', 'its callbacks run (%s)' % [t[0] for t in tr])
                if of_get(j, L.status) != L.inactive:
                    bad('status', 'it becomes active again')
                continue
            if len(ups) != 1:
                bad('count', 'the update callback runs %d times' % len(ups))
                continue
            done = ups[0][3]
            seen.add(done)
            if ups[0][2] != ('term', 'elapsed j'):
                bad('elapsed', 'the callback is not given the elapsed duration')
            cl = [t for t in tr if t[0] == 'cleanup']
            if len(cl) != (1 if done else 0) or (done and tr.index(cl[0]) < tr.index(ups[0])):
                bad('cleanup', 'the cleanup callback runs %d times when the update callback returns %s' % (len(cl), done))
            if of_get(j, L.status) != (L.inactive if done else L.active):
                bad('status', 'it is left %s when the update callback returns %s' % ('active' if of_get(j, L.status) == L.active else 'inactive', done))
            if not done and of_get(j, L.duration) != ip.arith(s, '+', ('term', 'elapsed j'), step):
                bad('duration', 'the elapsed duration does not advance by the step time')
        if status == L.active and seen != {True, False} and ok:
            ok = False
            rep.bad('C07:update:outcome', 'the outcome of the update callback is not taken into account', fn.where)
        if ok:
            rep.ok('update of an %s job' % label, fn.where)
    # construction
    ctor = [f for f in prog.named(JOB + '::Job') if len(f.x['p']) == 5]
    rep.need(ctor, 'constructor of Job vanished')
    ip = J(prog)
    args = [('fn', '', '$update:j'), ('fn', '', '$cleanup:j'), ('term', 'type'), ('term', 'exclusive'), ('term', 'event')]
    rets, throws = ip.run(ctor[0], State({THIS: mkobj(JOB, ('new',), ())}), ('ptr', THIS, ()), args)
    for s, v in rets:
        j = ip.load(s, ('alias', THIS, ()))
        got = {f: of_get(j, f) for f in (L.update, L.cleanup, L.type, L.exclusive, L.event, L.status, L.duration)}
        want = dict(zip((L.update, L.cleanup, L.type, L.exclusive, L.event), args))
        want.update({L.status: L.active, L.duration: ('f', 0.0)})
        rep.require(got == want and not s.g('trace'), 'C07:construction', 'a new job does not start active with zero elapsed time and the given callbacks and kind: %s' % [k for k in want if want[k] != got[k]], ctor[0].where)
    # explicit end
    fn = prog.one(JOB + '::inactivate')
    ip = J(prog)
    rets, throws = ip.run(fn, State({THIS: L.job('j')}), ('ptr', THIS, ()))
    for s, v in rets:
        j = ip.load(s, ('alias', THIS, ()))
        rep.require(s.g('trace', ()) == (('cleanup', 'j'),) and of_get(j, L.status) == L.inactive, 'C07:inactivate', 'ending an active job runs %s and leaves it %s' % (s.g('trace', ()), of_get(j, L.status)), fn.where)
    fn = prog.one(JOB + '::getStatus')
    for status in (L.active, L.inactive):
        ip = J(prog)
        rets, throws = ip.run(fn, State({THIS: L.job('j', status)}), ('ptr', THIS, ()))
        rep.require(all(ip.load(s, v) == status for s, v in rets) and rets, 'C07:status', 'the status of a job is misreported', fn.where)


def lists(rep, prog, L):
    fn = prog.one(LIST + '::append')
    t0, t1 = L.types[1], L.types[2]
    kinds = list(itertools.product((L.active, L.inactive), (t0, t1), (TRUE, FALSE)))
    configs = [()] + [(k,) for k in kinds] + list(itertools.product(kinds, repeat=2)) + [(kinds[0], kinds[3], kinds[0]), (kinds[4], kinds[0], kinds[1])]
    ok = True
    for cfg in configs:
        for excl in (TRUE, FALSE):
            jobs = tuple(L.job('j%d' % i, *k) for i, k in enumerate(cfg))
            ip = J(prog)
            st = State({THIS: mkobj(LIST, None, {L.list: ('list', jobs)})})
            rets, throws = ip.run(fn, st, ('ptr', THIS, ()), [('fn', '', '$update:new'), ('fn', '', '$cleanup:new'), t0, excl, L.pre])
            rep.count('configurations')
            rep.analysed(ip)
            if throws or not rets:
                ok = False
                rep.bad('C07:append:throws', 'appending a job ends with an exception', fn.where)
            for s, v in rets:
                fin = of_get(ip.load(s, ('alias', THIS, ())), L.list)
                rep.need(fin[0] == 'list', 'the list of jobs cannot be determined')
                tr = s.g('trace', ())
                want_end = ['j%d' % i for i, k in enumerate(cfg) if k == (L.active, t0, excl)]

                def bad(what, text):
                    nonlocal ok
                    ok = False
                    rep.bad('C07:append:' + what, 'appending %s job after %s: %s' % ('an exclusive' if excl == TRUE else 'a non-exclusive', [desc(L, t0, k) for k in cfg], text), fn.where)
                if sorted(t[1] for t in tr if t[0] == 'cleanup') != sorted(want_end) or any(t[0] != 'cleanup' for t in tr):
                    bad('callbacks', 'callbacks run: %s' % [t[:2] for t in tr])
                if len(fin[1]) != len(cfg) + 1:
                    bad('length', 'the list has %d jobs' % len(fin[1]))
                    continue
                for i, k in enumerate(cfg):
                    want = mkobj(JOB, None, dict(jobs[i][3], **{L.status: L.inactive if 'j%d' % i in want_end else k[0]}))
                    if fin[1][i] != want:
                        bad('jobs', 'job %d is not %s' % (i, 'ended' if 'j%d' % i in want_end else 'left alone'))
                n = fin[1][-1]
                if of_get(n, L.update) != ('fn', '', '$update:new') or of_get(n, L.cleanup) != ('fn', '', '$cleanup:new') or of_get(n, L.status) != L.active or of_get(n, L.type) != t0 or of_get(n, L.exclusive) != excl or of_get(n, L.event) != L.pre:
                    bad('new', 'the new job is not the one requested')
    if ok:
        rep.ok('appending a job', fn.where)
    fn = prog.one(LIST + '::update')
    ok = True
    for cfg in itertools.chain([()], itertools.product(itertools.product((L.active, L.inactive), (L.pre, L.post)), repeat=2), itertools.product([(L.active, L.pre), (L.active, L.post)], repeat=3)):
        for ev in (L.pre, L.post):
            jobs = tuple(L.job('j%d' % i, k[0], event=k[1]) for i, k in enumerate(cfg))
            ip = J(prog)
            rets, throws = ip.run(fn, State({THIS: mkobj(LIST, None, {L.list: ('list', jobs)})}), ('ptr', THIS, ()), [('term', 'step'), ev])
            rep.count('configurations')
            rep.analysed(ip)
            want = ['j%d' % i for i, k in enumerate(cfg) if k == (L.active, ev)]
            if throws or not rets:
                ok = False
                rep.bad('C07:list update:throws', 'updating jobs ends with an exception', fn.where)
            for s, v in rets:
                got = [t[1] for t in s.g('trace', ()) if t[0] == 'update']
                cl = sorted(t[1] for t in s.g('trace', ()) if t[0] == 'cleanup')
                done = sorted(t[1] for t in s.g('trace', ()) if t[0] == 'update' and t[3])
                if sorted(got) != sorted(want) or cl != done:
                    ok = False
                    rep.bad('C07:list update', 'updating the jobs of one phase updates %s instead of %s and cleans up %s instead of %s' % (got, want, cl, done), fn.where)
    if ok:
        rep.ok('updating the jobs of a phase', fn.where)


def desc(L, t0, k):
    return '%s %s job of %s type' % ('active' if k[0] == L.active else 'ended', 'exclusive' if k[2] == TRUE else 'non-exclusive', 'this' if k[1] == t0 else 'another')


def run(rep):
    rep.rule = 'abstract interpretation of job construction, update, end, and of job lists over all combinations of status, type, exclusivity and phase; callbacks are opaque with either outcome'
    prog = load([TS + 'src/job/job.cpp', TS + 'src/job/job_list.cpp'])
    L = Layout(rep, prog)
    single(rep, prog, L)
    lists(rep, prog, L)
