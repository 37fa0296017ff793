"""Classes used from several threads: lock discipline, teardown of their threads, no deadlock."""
import re
from ..facts import load
from .. import locks
from ..locks import plain, MUTEX, ATOMIC

AW, TS, OSI = 'external/concealer/', 'simulation/traffic_simulator/', 'openscenario/openscenario_interpreter/'
TUS = ['common/status_monitor/src/status_monitor.cpp', AW + 'src/task_queue.cpp', AW + 'src/autoware_universe.cpp', AW + 'src/field_operator_application.cpp', OSI + 'src/syntax/user_defined_value_condition.cpp',
       TS + 'src/lanelet_wrapper/lanelet_wrapper.cpp', 'simulation/simulation_interface/src/zmq_multi_server.cpp']

# class -> who uses it.  'shared': any public member may run concurrently with any other (except its destructor, which only
# the class's own threads may overlap).  'owned': one owner calls the members; the class's own threads and callbacks run
# concurrently with the owner.  'spun': as 'owned', but the owner runs the subscription callbacks itself (spinSome), so only
# tasks handed to the task queue are concurrent.
CLASSES = {
    'common::StatusMonitor': 'shared',
    'traffic_simulator::lanelet_wrapper::RouteCache': 'shared',
    'traffic_simulator::lanelet_wrapper::CenterPointsCache': 'shared',
    'traffic_simulator::lanelet_wrapper::LaneletLengthCache': 'shared',
    'traffic_simulator::lanelet_wrapper::LaneletWrapper': 'shared',
    'concealer::TaskQueue': 'owned',
    'concealer::FieldOperatorApplication': 'spun',
    'concealer::Subscriber': 'owned',
    'concealer::AutowareUniverse': 'owned',
    'openscenario_interpreter::MagicSubscription': 'owned',
    'openscenario_interpreter::MagicSubscription::Node': 'owned',
    'zeromq::MultiServer': 'owned',
}

# classes whose thread ends with the process-wide shutdown (rclcpp::ok()) instead of at the request of the destructor
EXTERNAL_STOP = {'zeromq::MultiServer'}

# public members that only the class's own thread calls
INTERNAL = {'common::StatusMonitor::write', 'concealer::FieldOperatorApplication::waitForAutowareStateToBe'}

# objects that synchronise internally or are only handles
SYNCHRONISED = re.compile(r'&$|^(?:const )?std::(reference_wrapper|thread\b(?!::)|jthread|condition_variable)|^(?:const )?(?:std::shared_ptr<|std::unique_ptr<)?rclcpp::(executors|Executor|Node|Client|Publisher|Subscription|TimerBase|Service|WallTimer|CallbackGroup|Clock)')


class C(locks.Walker):
    pass


def analyse(prog, cls, use):
    w = C(prog)
    kinds = {}
    n = 0
    for k, fn in prog.funcs.items():
        c = fn.raw.get('cls')
        c = fn.x.get('cls') if c is not None else None
        if not c or plain(c) != cls or fn.raw.get('acc') or fn.raw.get('lam') or fn.raw.get('imp'):
            continue
        n += 1
        dtor = '~' in fn.name.split('::')[-1]
        kinds[fn.name] = 'dtor' if dtor else 'thread' if plain(fn.name) in INTERNAL else 'caller'
        w.root(k, fn.name, ctor=bool(fn.raw.get('ctor')))
    done = set()
    while True:
        todo = [x for x in w.escapes if x[0] not in done]
        if not todo:
            break
        for fs, thread, where, root in todo:
            done.add(fs)
            for k in fs:
                name = ('thread started at ' if thread else 'callback installed at ') + where
                kinds[name] = 'thread' if thread else 'callback' if use != 'spun' or 'TaskQueue::delay' in where or kinds.get(root) in ('thread', 'callback') else 'caller'
                w.root(k, name)
    return w, kinds, n


def field_types(prog, w):
    t = dict(w.types)
    for q, r in prog.records.items():
        for f in r.get('f', []):
            t[plain(f['q'])] = f['t']
    return t


def discipline(rep, prog, cls, use, w, kinds, types):
    background = lambda a: kinds.get(a['root']) in ('thread', 'callback')
    by = {}
    for a in w.accesses:
        f = a['field']
        if not f.startswith(cls + '::') or a['ctor'] or a['via'] == 'initialisation':
            continue
        t = types.get(f, '')
        if MUTEX.match(t) or ATOMIC.match(t) or SYNCHRONISED.search(t):
            continue
        by.setdefault(f, []).append(a)
    for f, accs in sorted(by.items()):
        uniq = {}
        for a in accs:
            uniq.setdefault((a['w'], a['held'], a['root'], a['where'], a['known'], frozenset(a['pub']), a['joined'], a['via'] == 'atomic'), a)
        accs = list(uniq.values())
        rep.count('accesses', len(accs))
        worst = None
        reads = [a for a in accs if not a['w']]
        writes = [a for a in accs if a['w']]
        flags = None
        for a in writes:
            flags = set(a['pub']) if flags is None else flags & a['pub']
        for a in writes:
            for b in accs:
                ka, kb = kinds.get(a['root']), kinds.get(b['root'])
                bga, bgb = background(a), background(b)
                if use != 'shared' and bga == bgb:
                    continue
                if use == 'shared':
                    if ka == 'dtor' and not bgb or kb == 'dtor' and not bga:
                        continue
                    if bga and bgb:
                        continue
                if (ka == 'dtor' and a['joined'] or kb == 'dtor' and b['joined']):
                    continue
                ha = a['held'] | ({'<atomic>'} if a['via'] == 'atomic' else set())
                hb = b['held'] | ({'<atomic>'} if b['via'] == 'atomic' else set())
                if ha & hb:
                    continue
                if flags and not b['w'] and b['known'] & flags:
                    continue
                worst = worst or (a, b)
        short = f[len(cls) + 2:]
        if worst:
            a, b = worst
            say = lambda a: '%s at %s holding %s' % ('written' if a['w'] else 'read', a['where'], ', '.join(sorted(a['held'])) or 'no lock')
            rep.bad('%s:%s:race' % (cls, short), '%s is %s (%s) and %s (%s) with no common lock' % (f, say(a), a['root'], say(b), b['root']), a['where'])
        else:
            rep.ok('%s: every conflicting pair of accesses shares a lock (%d reads, %d writes)' % (f, len(reads), len(writes)), accs[0]['where'])


def deadlock(rep, prog, cls, w, kinds):
    edges = {}
    for m, held, where, root in w.acquired:
        if m in held:
            rep.bad('%s:relock' % cls, '%s is acquired while it is already held (%s)' % (m, root), where)
        for h in held:
            edges.setdefault(h, {}).setdefault(m, where)

    def reach(a, goal, seen):
        return a == goal or any(reach(b, goal, seen | {a}) for b in edges.get(a, {}) if b not in seen)
    for a in edges:
        for b, where in edges[a].items():
            if a != b and reach(b, a, set()):
                rep.bad('%s:order' % cls, 'the locks %s and %s are acquired in both orders' % (a, b), where)
    rep.ok('%s: %d acquisitions, no lock is re-acquired and the lock order is acyclic' % (cls, len(w.acquired)))
    locked = {m for m, held, where, root in w.acquired if kinds.get(root) in ('thread', 'callback')}
    for f, held, where, root in w.joins:
        hit = held & locked
        rep.require(not hit, '%s:join' % cls, '%s is joined while holding %s, which the thread acquires: neither can proceed' % (f, ', '.join(sorted(hit))), where)
    for what, held, where, root in w.unknown_calls:
        rep.require(not held, '%s:callback-under-lock' % cls, 'a stored function is called while %s is held: it may come back for the same lock' % ', '.join(sorted(held)), where)


def teardown(rep, prog, cls, w, kinds, types):
    """every thread member of the class is joined by its destructor"""
    threads = {f for f, t in types.items() if f.rsplit('::', 1)[0] == cls and re.match(r'std::thread\b', t)}
    starts = [x for x in w.escapes if x[1]]
    dtors = [k for k, v in kinds.items() if v == 'dtor']
    for t in sorted(threads):
        js = [j for j in w.joins if j[0] == t and kinds.get(j[3]) == 'dtor']
        rep.require(bool(js), '%s:%s:join' % (cls, t.split('::')[-1]), 'the destructor does not join %s' % t, dtors[0] if dtors else cls)
    queues(rep, prog, cls, w, kinds, types)
    if not threads:
        return
    # the stop request: an atomic the thread reads and the destructor changes before it joins
    bg = {k for k, v in kinds.items() if v == 'thread'}
    read = {a['field'] for a in w.accesses if a['root'] in bg and ATOMIC.match(types.get(a['field'], ''))}
    stop = [a for a in w.accesses if a['field'] in read and a['w'] and kinds.get(a['root']) == 'dtor' and not a['joined']]
    rep.require(bool(stop) or cls in EXTERNAL_STOP, '%s:stop' % cls, 'the destructor joins the thread without telling it to stop before (no atomic the thread reads is set)', dtors[0] if dtors else cls)
    # everything the thread uses exists before it starts: it is declared (initialised) before the thread member, or the thread starts in the body
    for a in w.accesses:
        if a['via'] != 'initialisation' or a['ctor'] or not a['field'].startswith(cls + '::') or a['field'] in threads or kinds.get(a['root']) != 'caller':
            continue
        if any(b['field'] == a['field'] and b['root'] in bg for b in w.accesses):
            rep.bad('%s:%s:started-early' % (cls, a['field'].split('::')[-1]), '%s is initialised after the thread that uses it has been started' % a['field'], a['where'])


def queues(rep, prog, cls, w, kinds, types):
    """a task queue (whose destructor joins its worker) outlives nothing its tasks use, and its tasks are told to stop"""
    r = [x for q, x in prog.records.items() if plain(q) == cls and any('TaskQueue' in f['t'] for f in x.get('f', []))]
    if not r:
        return
    order = [plain(f['q']) for f in r[0]['f']]
    at = [plain(f['q']) for f in r[0]['f'] if 'TaskQueue' in f['t']][0]
    bg = {k for k, v in kinds.items() if v in ('thread', 'callback')}
    used = {a['field'] for a in w.accesses if a['root'] in bg and a['field'] in order}
    late = [f for f in used if order.index(f) > order.index(at)]
    rep.require(not late, '%s:outlived' % cls, 'tasks use %s, which is destroyed before %s' % (', '.join(late), at), at)
    read = {f for f in used if ATOMIC.match(types.get(f, ''))}
    stop = [a for a in w.accesses if a['field'] in read and a['w'] and kinds.get(a['root']) == 'dtor']
    rep.require(bool(stop), '%s:stop' % cls, 'the destructor waits for a task without telling it to stop (no atomic the tasks read is set)', at)


def run(rep):
    rep.rule = 'lock sets: for every pair of conflicting accesses that may overlap, the intersection of the held mutexes is not empty; lock order, joins and callbacks under locks; threads are stopped and joined'
    prog = load(TUS, probes=['locks.cpp'])
    for cls, use in CLASSES.items():
        w, kinds, n = analyse(prog, cls, use)
        rep.need(n > 0, '%s has no analysable public member' % cls)
        types = field_types(prog, w)
        rep.count('entry points', len(kinds))
        rep.count('locks taken', len(w.acquired))
        rep.functions |= w.fns
        discipline(rep, prog, cls, use, w, kinds, types)
        deadlock(rep, prog, cls, w, kinds)
        teardown(rep, prog, cls, w, kinds, types)
