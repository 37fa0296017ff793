"""Work done in background threads: every task once and in order, failures reach the caller."""
from ..facts import load
from ..absint import Interp, State, mkobj, VOID, I, TRUE, FALSE, NIL, of_get
from .. import osc

AW = 'external/concealer/'
TQ, AU, FO = 'concealer::TaskQueue', 'concealer::AutowareUniverse', 'concealer::FieldOperatorApplication'
X = ('t', 'x')
ME = ('ptr', X, ())


def boom(what):
    return mkobj('std::runtime_error', ('thrown by', what), ())


KNOWN, OTHER = 'std::runtime_error', 'probe::AnyException'


class R(Interp):
    """runs tasks named $...: each may return or throw, and more work may be handed over meanwhile"""
    queue = None
    endless = False

    def call_closure(self, c, st, vals, e, key=None):
        if c[0] == 'fn' and c[2].startswith('$'):
            return self.task(st, c[2])
        return super().call_closure(c, st, vals, e, key)

    def task(self, st, name):
        content = self.load(st, ('alias', X, (self.queue,))) if self.queue else None
        st = st.event('task', name, content)
        if len([x for x in st.g('trace') if x[0] == 'task']) > 6:
            self.endless = True
            return []
        for t in (KNOWN, OTHER):
            self.throw(st, mkobj(t, ('thrown by', name), ()))
        out = [(st, VOID)]
        if self.queue and content[0] == 'list' and ('fn', '', '$late') not in content[1] and not any(x[1] == '$late' for x in st.g('trace') if x[0] == 'task'):
            out.append((self.store(st, (X, (self.queue,)), ('list', content[1] + (('fn', '', '$late'),))).gset(late=True), VOID))
        return out


def nondet(ip, st, e, o, args, f):
    return [(st, TRUE), (st, FALSE)]


def void(ip, st, e, o, args, f):
    return [(st, VOID)]


STOP = [(r'^rclcpp::ok$', nondet), (r'std::(atomic<bool>|__atomic_base<bool>|atomic_bool)::(load|operator bool|operator _Bool)$', nondet), (r'sleep_(for|until)$', void)]


def fields(prog, cls):
    return {f['q'].split('::')[-1]: f['q'] for f in prog.records[cls]['f']}


def thread_of(ip, s, q):
    """closure of the thread held in member q"""
    v = ip.load(s, ('alias', X, (q,)))
    if v[0] == 'obj' and v[1] == 'std::thread' and v[2] and v[2][0] == 'new' and len(v[2]) > 2:
        return v[2][2], list(v[2][3:])


def member(prog, cls, types):
    """the member of one of the given types"""
    qs = [f['q'] for f in prog.records[cls]['f'] if any(t in f['t'] for t in types)]
    return qs[0] if len(qs) == 1 else None


def fn_of(prog, name, n=None):
    fs = [f for f in prog.by_name.get(name, []) if n is None or len(f.x['p']) == n]
    return fs[0] if len(fs) == 1 else None


def run(rep):
    rep.rule = ('abstract interpretation of the thread functions, the hand-over of exceptions and their retrieval, with tasks that return, throw any exception, or '
                'hand over more work while they run')
    prog = load([AW + 'src/task_queue.cpp', AW + 'src/autoware_universe.cpp', AW + 'src/field_operator_application.cpp', 'openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp',
                 'simulation/simple_sensor_simulator/src/vehicle_simulation/ego_entity_simulation.cpp'])
    task_queue(rep, prog)
    universe(rep, prog)
    subscription(rep, prog)
    callers(rep, prog)


def exc(v):
    return v[1] if v and v[0] == 'excptr' else None


def task_queue(rep, prog):
    q = member(prog, TQ, ['std::queue', 'std::deque', 'std::list', 'std::vector'])
    thr = member(prog, TQ, ['exception_ptr'])
    th = member(prog, TQ, ['std::thread'])
    rep.need(q and thr and th, 'the members of TaskQueue changed')
    ctor = fn_of(prog, TQ + '::TaskQueue', 0)
    rep.need(ctor, 'the constructor of TaskQueue vanished')
    ip = osc.interp(R, prog, hooks=STOP)
    rets, throws = ip.run(ctor, State({X: mkobj(TQ, None, {})}), ME, [])
    rep.need(rets and not throws, 'the constructor of TaskQueue does not complete')
    for s, _ in rets:
        rep.require(ip.load(s, ('alias', X, (thr,))) == NIL, 'C12:queue:initial', 'a new task queue holds an exception', ctor.where)
        rep.require(ip.load(s, ('alias', X, (q,))) == ('list', ()), 'C12:queue:initial', 'a new task queue is not empty', ctor.where)
    s0 = rets[0][0]
    c = thread_of(ip, s0, th)
    rep.need(c, 'the constructor of TaskQueue does not start a thread')
    where = ctor.where
    ran_late = False
    for n in range(0, 4):
        tasks = tuple(('fn', '', '$%d' % i) for i in range(n))
        ip = osc.interp(R, prog, hooks=STOP)
        ip.queue = q
        st = ip.store(s0, (X, (q,)), ('list', tasks))
        rets, throws = ip.run_closure(c[0], st, c[1])
        rep.analysed(ip)
        rep.count('paths', len(rets) + len(throws))
        rep.require(not throws, 'C12:queue:escapes', 'an exception leaves the thread of the task queue and terminates the process', where)
        rep.require(not ip.endless, 'C12:queue:repeats', 'at most %d tasks are handed over but more are run: tasks are repeated' % (n + 1), where)
        seen = set()
        for s, _ in rets:
            ran = [x for x in s.g('trace', ()) if x[0] == 'task']
            names = [x[1] for x in ran]
            left = ip.load(s, ('alias', X, (q,)))
            rep.need(left[0] == 'list', 'the content of the task queue is not tracked: %s' % (left,))
            left = [x[2] for x in left[1]]
            e = exc(ip.load(s, ('alias', X, (thr,))))
            given = ['$%d' % i for i in range(n)] + (['$late'] if s.g('late') else [])
            seen.add((len(names), e is not None))
            ran_late |= '$late' in names
            rep.require(names == given[:len(names)], 'C12:queue:order', 'tasks handed over as %s run as %s' % (given, names), where)
            rep.require(all(x[2][1] and x[2][1][0][2] == x[1] for x in ran), 'C12:queue:busy', 'a task is taken from the queue before it is finished, so the queue appears idle while the task runs', where)
            if e is None:
                rep.require(left == given[len(names):], 'C12:queue:lost', 'after %s of %s ran without failure %s are left in the queue' % (names, given, left), where)
            else:
                rep.require(e[2] == ('thrown by', names[-1]), 'C12:queue:failure', 'the exception kept by the task queue is %s instead of the one thrown by the task %s' % (e[2], names[-1]), where)
        # a failure of every task is kept
        for k in range(1, n + 1):
            rep.require((k, True) in seen, 'C12:queue:unkept', 'the failure of task %d of %d is not kept' % (k, n), where)
        rep.require((n, False) in seen, 'C12:queue:stuck', 'the task queue never finishes %d tasks' % n, where)
    rep.require(ran_late, 'C12:queue:late', 'a task handed over while another one runs is never run', where)
    # every exception, also one that is no std::exception, is kept: no path swallows a failure
    for n in (1, 2):
        tasks = tuple(('fn', '', '$%d' % i) for i in range(n))

        class F(R):
            def task(self, st, name):
                if len([x for x in st.g('trace', ()) if x[0] == 'failed']) > 3:
                    return []
                self.throw(st.event('failed', name), mkobj(self.kind, ('thrown by', name), ()))
                return []
        for kind in (KNOWN, OTHER):
            ip = osc.interp(F, prog, hooks=STOP)
            ip.kind = kind
            rets, throws = ip.run_closure(c[0], ip.store(s0, (X, (q,)), ('list', tasks)), c[1])
            for s, _ in rets:
                failed = [x[1] for x in s.g('trace', ()) if x[0] == 'failed']
                e = exc(ip.load(s, ('alias', X, (thr,))))
                rep.require(len(failed) <= 1, 'C12:queue:continues', 'tasks are run after the task %s failed' % failed[:1], where)
                rep.require(not failed or (e is not None and e[2] == ('thrown by', failed[0])), 'C12:queue:swallowed', 'the failure of a task with %s is lost' % ('an exception that is no std::exception' if kind == OTHER else 'a std::exception'), where)
            rep.require(not throws, 'C12:queue:escapes', 'an exception leaves the thread of the task queue and terminates the process', where)
    # the interface
    for content in ((), ('$0',), ('$0', '$1')):
        for failure in (None, boom('$0')):
            st = ip.store(s0, (X, (q,)), ('list', tuple(('fn', '', x) for x in content)))
            st = ip.store(st, (X, (thr,)), ('excptr', failure) if failure else NIL)
            fn = fn_of(prog, TQ + '::empty')
            rep.need(fn, 'TaskQueue::empty vanished')
            ip = osc.interp(R, prog, hooks=STOP)
            rets, throws = ip.run(fn, st, ME, [])
            rep.analysed(ip)
            rep.require(not throws and {ip.load(s, v) for s, v in rets} == {('b', not content)}, 'C12:queue:empty', 'empty() of a queue of %d tasks yields %s' % (len(content), [v for _, v in rets]), fn.where)
            fn = fn_of(prog, TQ + '::rethrow')
            rep.need(fn, 'TaskQueue::rethrow vanished')
            ip = osc.interp(R, prog, hooks=STOP)
            rets, throws = ip.run(fn, st, ME, [])
            rep.analysed(ip)
            rep.require((bool(rets) and not throws) if failure is None else (not rets and {v for _, v in throws} == {failure}), 'C12:queue:rethrow',
                        'rethrow() of a queue %s %s' % ('without a failure' if failure is None else 'with a failure', 'throws' if failure is None else 'does not throw exactly that failure'), fn.where)
            fs = [f for n, l in prog.by_name.items() if n.startswith(TQ + '::delay') for f in l]
            rep.need(fs, 'TaskQueue::delay is not instantiated')
            fn = fs[0]
            ip = osc.interp(R, prog, hooks=STOP)
            rets, throws = ip.run(fn, st.put(('t', 'f'), ('fn', '', '$new')), ME, [('alias', ('t', 'f'), ())])
            rep.analysed(ip)
            if failure is None:
                got = {ip.load(s, ('alias', X, (q,))) for s, _ in rets}
                rep.require(not throws and got == {('list', tuple(('fn', '', x) for x in content + ('$new',)))}, 'C12:queue:delay', 'a delayed task is not appended to the tasks of the queue', fn.where)
                rep.require(not any(x[0] == 'task' for s, _ in rets for x in s.g('trace', ())), 'C12:queue:delay', 'a delayed task is run by the caller', fn.where)
            else:
                rep.require(not rets and {v for _, v in throws} == {failure}, 'C12:queue:delay:failed', 'handing a task to a queue that failed does not throw its failure', fn.where)


def spin_hook(ip, st, e, o, args, f):
    st = st.gset(worked=True)
    for t in (KNOWN, OTHER):
        ip.throw(st.gset(failed=t), mkobj(t, ('thrown by', 'spin'), ()))
    return [(st, VOID)]


def kept(rep, ip, rets, throws, thr, flag, key, what, where):
    rep.analysed(ip)
    rep.count('paths', len(rets) + len(throws))
    rep.require(not throws, key + ':escapes', 'an exception leaves the thread of %s and terminates the process' % what, where)
    failed = 0
    for s, _ in rets:
        if s.g('failed'):
            failed += 1
            e = exc(ip.load(s, ('alias', X, (thr,))))
            rep.require(e is not None and e[2] == ('thrown by', 'spin'), key + ':lost', 'a failure in the thread of %s is not kept' % what, where)
            if flag:
                rep.require(ip.load(s, ('alias', X, (flag,))) == TRUE, key + ':flag', 'a failure in the thread of %s is not announced' % what, where)
    rep.require(failed > 0 or bool(throws), key + ':none', 'a failure in the thread of %s ends no path' % what, where)
    rep.require(any(not s.g('failed') and s.g('worked') for s, _ in rets), key + ':idle', 'the thread of %s never does its work' % what, where)


def universe(rep, prog):
    q = fields(prog, AU)
    thr, th = member(prog, AU, ['exception_ptr']), member(prog, AU, ['std::thread'])
    rep.need(thr and th and 'is_thrown' in q, 'the members of AutowareUniverse changed')
    ctor = fn_of(prog, AU + '::AutowareUniverse', 1)
    rep.need(ctor, 'the constructor of AutowareUniverse vanished')
    ip = osc.interp(R, prog)
    rets, throws = ip.run(ctor, State({X: mkobj(AU, None, {})}), ME, [TRUE])
    rep.need(rets, 'the constructor of AutowareUniverse does not complete')
    s0 = rets[0][0]
    c = thread_of(ip, s0, th)
    rep.need(c, 'the constructor of AutowareUniverse does not start a thread')
    rep.require(ip.load(s0, ('alias', X, (q['is_thrown'],))) == FALSE, 'C12:universe:initial', 'a new AutowareUniverse announces a failure', ctor.where)
    ip = osc.interp(R, prog, hooks=[(r'Executor::spin_some$|::spin_some$', spin_hook)] + STOP)
    rets, throws = ip.run_closure(c[0], s0, c[1])
    kept(rep, ip, rets, throws, thr, q['is_thrown'], 'C12:universe', 'AutowareUniverse', ctor.where)
    fn = fn_of(prog, AU + '::rethrow')
    rep.need(fn, 'AutowareUniverse::rethrow vanished')
    for failure in (None, boom('spin')):
        st = ip.store(s0, (X, (thr,)), ('excptr', failure) if failure else NIL)
        st = ip.store(st, (X, (q['is_thrown'],)), ('b', failure is not None))
        ip = osc.interp(R, prog)
        rets, throws = ip.run(fn, st, ME, [])
        rep.analysed(ip)
        rep.require((bool(rets) and not throws) if failure is None else (not rets and {v for _, v in throws} == {failure}), 'C12:universe:rethrow',
                    'AutowareUniverse::rethrow %s' % ('throws without a failure' if failure is None else 'throws %s instead of the failure that was kept' % ([v[1] for _, v in throws] or 'nothing')), fn.where)


def subscription(rep, prog):
    names = [n for n in prog.records if n.startswith('openscenario_interpreter::MagicSubscription<') and n.endswith('::Node')]
    rep.need(len(names) == 1, 'MagicSubscription is not instantiated')
    N = names[0]
    thr, th = member(prog, N, ['exception_ptr']), member(prog, N, ['std::thread'])
    rep.need(thr and th, 'the members of MagicSubscription::Node changed')
    ctor = fn_of(prog, N + '::Node', 0)
    rep.need(ctor, 'the constructor of MagicSubscription::Node vanished')
    ip = osc.interp(R, prog, hooks=[(r'::get_node_base_interface$', lambda ip, st, e, o, args, f: [(st, ('term', 'interface'))]), (r'::add_node$', void)])
    rets, throws = ip.run(ctor, State({X: mkobj(N, None, {})}), ME, [])
    rep.need(rets, 'the constructor of MagicSubscription::Node does not complete')
    s0 = rets[0][0]
    c = thread_of(ip, s0, th)
    rep.need(c, 'the constructor of MagicSubscription::Node does not start a thread')
    ip = osc.interp(R, prog, hooks=[(r'::spin_some$', spin_hook)] + STOP)
    rets, throws = ip.run_closure(c[0], ip.store(s0, (X, (thr,)), NIL), c[1])
    kept(rep, ip, rets, throws, thr, None, 'C12:subscription', 'the subscription of user-defined values', ctor.where)
    fn = fn_of(prog, N + '::rethrow')
    rep.require(fn is not None, 'C12:subscription:unasked', 'nothing asks for the failure of the subscription of user-defined values', ctor.where)
    for failure in (None, boom('spin')) if fn else ():
        ip = osc.interp(R, prog)
        rets, throws = ip.run(fn, ip.store(s0, (X, (thr,)), ('excptr', failure) if failure else NIL), ME, [])
        rep.analysed(ip)
        rep.require((bool(rets) and not throws) if failure is None else (not rets and {v for _, v in throws} == {failure}), 'C12:subscription:rethrow',
                    'the subscription of user-defined values %s' % ('throws without a failure' if failure is None else 'does not throw the failure that was kept'), fn.where)
    gets = [f for n, l in prog.by_name.items() if n.startswith('openscenario_interpreter::MagicSubscription<') and n.endswith('>::get') for f in l]
    rep.need(gets, 'MagicSubscription::get vanished')
    first(rep, prog, gets[0], r'MagicSubscription<.*>::Node::rethrow$', 'reading a user-defined value', 'C12:subscription:get')


def first(rep, prog, fn, pattern, what, key, vals=(), state=None, hooks=()):
    """the failure of the background work leaves the function before it does anything else"""
    def h(ip, st, e, o, args, f):
        ip.throw(st.event('asked'), boom('background'))
        return [(st.event('asked').gset(fine=True), VOID)]
    ip = osc.interp(R, prog, hooks=list(hooks) + [(pattern, h)])
    st = state or State({X: ('term', 'me')})
    rets, throws = ip.run(fn, st, ME, list(vals))
    rep.analysed(ip)
    rep.count('paths', len(rets) + len(throws))
    got = [s for s, v in throws if v == boom('background')]
    rep.require(bool(got) and all(len(s.g('trace', ())) == 1 for s in got), key, '%s does not report a failure of the background work before anything else' % what, fn.where)
    rep.require(all(s.g('fine') for s, _ in rets), key + ':unasked', '%s completes on a path that does not ask for a failure of the background work' % what, fn.where)
    return ip, rets, throws


def callers(rep, prog):
    q = fields(prog, FO)
    LS = 'concealer::LegacyAutowareState'
    states = prog.enums[LS + '::value_type']['e']
    for m, want in (('engageable', 'waiting_for_engage'), ('engaged', 'driving')):
        fn = fn_of(prog, FO + '::' + m)
        rep.need(fn, 'FieldOperatorApplication::%s vanished' % m)
        for n, v in states:
            for empty in (TRUE, FALSE):
                hooks = [(r'TaskQueue::empty$', lambda ip, st, e, o, args, f: [(st, empty)]),
                         (r'getLegacyAutowareState$', lambda ip, st, e, o, args, f: [(st, mkobj(LS, None, {LS + '::value': I(int(v))}))])]
                ip, rets, throws = first(rep, prog, fn, r'TaskQueue::rethrow$', m + '()', 'C12:%s:failure' % m, hooks=hooks)
                got = {ip.load(s, r) for s, r in rets}
                rep.require(got == {('b', empty == TRUE and n == want)}, 'C12:%s:%s' % (m, n), '%s() yields %s in state %s with %s tasks' % (m, sorted(g[-1] for g in got), n, 'no' if empty == TRUE else 'pending'), fn.where)
    # a frame of the ego entity looks for failures of the tasks and of the Autoware process
    fn = fn_of(prog, FO + '::spinSome')
    rep.need(fn, 'FieldOperatorApplication::spinSome vanished')
    def h_wait(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            for r in (-1, 0, 42):
                s2 = s.gset(waited=r)
                if vs[1][0] in ('ptr', 'alias') and r > 0:
                    s2 = ip.store(s2, vs[1][1:], ('term', 'status'))
                out.append((s2.event('waitpid', ip.load(s, vs[0]), ip.load(s, vs[2])), I(r)))
        return out

    def h_exit(ip, st, e, o, args, f):
        return []
    for pid in (0, 4711):
        ip, rets, throws = first(rep, prog, fn, r'TaskQueue::rethrow$', 'spinSome()', 'C12:spin:failure', state=State({X: mkobj(FO, None, {q['process_id']: I(pid)})}),
                                 hooks=[(r'^waitpid$', h_wait), (r'^(std::)?exit$', h_exit), (r'^rclcpp::ok$', lambda ip, st, e, o, args, f: [(st, TRUE)]),
                                        (r'::spin_some$', lambda ip, st, e, o, args, f: [(st.event('spin'), VOID)])])
        own = [(s, v) for s, v in throws if v != boom('background')]
        if pid == 0:
            rep.require(not own and all([x[0] for x in s.g('trace')] == ['asked', 'spin'] for s, _ in rets), 'C12:spin:unlaunched', 'a frame without an Autoware process does not just process its messages', fn.where)
            continue
        rep.require(all(x[1] == I(pid) for s, _ in rets + own for x in s.g('trace') if x[0] == 'waitpid') and any(x[0] == 'waitpid' for s, _ in rets for x in s.g('trace')), 'C12:spin:process', 'a frame does not look at the Autoware process', fn.where)
        rep.require(all(v[1].split('::')[-1] == 'AutowareError' for s, v in own), 'C12:spin:error', 'the end of the Autoware process is reported as %s' % sorted({v[1] for _, v in own}), fn.where)
        gone = [s for s, v in own if s.g('waited') == -1]
        ended = [s for s, v in own if s.g('waited') == 42]
        rep.require(gone and ended, 'C12:spin:silent', 'a frame goes on silently after the Autoware process ended', fn.where)
        rep.require(all(s.g('waited') != 0 for s, _ in own), 'C12:spin:running', 'a running Autoware process is reported as ended', fn.where)
        rep.require(all(ip.load(s, ('alias', X, (q['process_id'],))) == I(0) for s, _ in own), 'C12:spin:pid', 'the identifier of an ended Autoware process is kept (it would be signalled later)', fn.where)
        rep.require(any(s.g('waited') == 0 for s, _ in rets) and all('spin' in [x[0] for x in s.g('trace')] for s, _ in rets), 'C12:spin:messages', 'a frame does not process messages while the Autoware process runs', fn.where)
    ES = 'vehicle_simulation::EgoEntitySimulation'
    for m in ('overwrite', 'update'):
        fn = fn_of(prog, ES + '::' + m)
        rep.need(fn, '%s::%s vanished' % (ES, m))
        asked(rep, prog, fn, 'AutowareUniverse::rethrow', 'C12:ego:' + m)


def asked(rep, prog, fn, callee, key):
    """the first call with an effect in the body is the one of callee"""
    def calls(n):
        if isinstance(n, dict):
            if n.get('k') in ('call', 'mcall', 'opcall') or 'f' in n and isinstance(n.get('f'), dict) and 'n' in n['f']:
                for x in ('o', 'a'):
                    yield from calls(n.get(x))
                yield n['f']['n']
                return
            for k, v in n.items():
                yield from calls(v)
        elif isinstance(n, list):
            for x in n:
                yield from calls(x)

    def unconditional(b):
        return b.get('b', []) if b.get('k') == 'block' else [b]
    for stmt in unconditional(fn.x['body']):
        names = list(calls(stmt))
        if stmt.get('k') in ('if', 'for', 'while', 'do', 'rfor', 'switch'):
            break
        if any(n.endswith(callee) for n in names):
            rep.ok(key, fn.where)
            return
    rep.bad(key, '%s does not unconditionally ask for failures of the Autoware interface' % fn.name, fn.where)
