"""Child processes: the command they run, how failures show, and that they are waited for."""
from ..facts import load
from ..absint import Interp, State, mkobj, VOID, I, TRUE, FALSE, NIL, Sx
from .. import osc, models

A, ERR = ('t', 'a'), ('t', 'errno')
PID = 4711
EINTR, ECHILD, EAGAIN, EINVAL = 4, 10, 11, 22
ARGS = [(), ('x',), ('ab', '', 'c d'), ('-n', 'a"b', '--', 'x=1', "'", 'a', 'a')]


def lst(xs):
    return ('list', tuple(Sx(x) for x in xs))


def errno(ip, st, e, o, args, f):
    return [(st, ('ptr', ERR, ()))]


class P(Interp):
    left = ()

    def fail(self, st, code):
        return self.store(st, (ERR, ()), I(code))


def h_fork(ip, st, e, o, args, f):
    st = st.event('fork')
    if len([x for x in st.g('trace') if x[0] == 'fork']) > 1:
        return []
    return [(ip.fail(st, EAGAIN).gset(side='none'), I(-1)), (st.gset(side='child'), I(0)), (st.gset(side='parent'), I(PID))]


def string_at(ip, s, p):
    """the NUL-terminated string a char pointer designates, or None"""
    p = ip.load(s, p)
    if p[0] == 's':
        return p[1]
    if p[0] != 'ptr' or not p[2] or p[2][-1] != ('ix', 0):
        return None
    v = ip.load(s, ('alias', p[1], p[2][:-1]))
    if v[0] == 's':
        return None if dangling(s, p) else v[1]
    if v[0] == 'list' and all(x[0] == 'i' for x in v[1]):
        t = [x[1] for x in v[1]]
        return bytes(c & 255 for c in t[:t.index(0)]).decode('latin1') if 0 in t else None
    return None


def dangling(s, p):
    """the string was moved by the growth of its container after its characters were designated"""
    outer = (p[1], p[2][:-2])
    room, seen = 0, False
    for x in s.g('trace', ()):
        if x[0] == 'room' and x[1] == outer and not seen:
            room = max(room, x[2])
        if x[0] == 'taken' and x[1] == (p[1], p[2][:-1]):
            seen = True
        if x[0] == 'grow' and x[1] == outer:
            if x[2] > room:
                if seen:
                    return True
                room = x[2]
    return False


def h_data(ip, st, e, o, args, f):
    if o is None or o[0] != 'alias' or not o[2]:
        return None
    return [(st.event('taken', (o[1], o[2])), ('ptr', o[1], o[2] + (('ix', 0),)))]


def h_element(ip, st, e, o, args, f):
    if o is None or o[0] != 'alias':
        return None
    out = []
    for s, vs in ip.args(args, f, st):
        i = ip.load(s, vs[0])
        if i[0] != 'i':
            return None
        out.append((s.event('taken', (o[1], o[2])) if o[2] else s, ('alias', o[1], o[2] + (('ix', i[1]),))))
    return out


def h_from_pointer(ip, st, e, o, args, f):
    """a string given the characters a pointer designates"""
    if o is None or o[0] != 'alias' or len(args) != 1:
        return None
    out = []
    for s, vs in ip.args(args, f, st):
        t = ip.load(s, vs[0])
        t = string_at(ip, s, t) if t[0] == 'ptr' else None
        if t is None:
            return None
        out.append((ip.store(s, o[1:], Sx(t)), o))
    return out


def growth(m):
    def h(ip, st, e, o, args, f):
        r = m(ip, e, f, st, o)
        if r is None or o is None or o[0] != 'alias':
            return r
        out = []
        for s, v in r:
            c = ip.load(s, ('alias', o[1], o[2]))
            out.append((s.event('grow', (o[1], o[2]), len(c[1])) if c[0] == 'list' else s, v))
        return out
    return h


def h_reserve(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        n = ip.load(s, vs[0])
        out.append((s.event('room', (o[1], o[2]), n[1]) if o[0] == 'alias' and n[0] == 'i' else s, VOID))
    return out


def h_exec(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        vec = ip.load(s, vs[1])
        xs = ip.load(s, ('alias', vec[1], vec[2][:-1])) if vec[0] == 'ptr' and vec[2] and vec[2][-1] == ('ix', 0) else ('?',)
        argv = 'unknown'
        if xs[0] == 'list':
            argv = tuple('<null>' if x in (NIL, I(0)) else string_at(ip, s, x) for x in xs[1])
        f0 = ip.load(s, vs[0])
        s = s.event('exec', '<null>' if f0 in (NIL, I(0)) else string_at(ip, s, f0), argv)
        ip.execs.append(s)
        out.append((ip.fail(s, 2), I(-1)))   # on success it does not return
    return out


VEC = r'std::vector<.*>::'
HOOKS = [(r'^(__errno_location|std::__errno_location)$', errno), (r'^(v?fork)$', h_fork), (r'^execvp$', h_exec),
         (r'std::(__cxx11::)?basic_string<.*>::(data|c_str)$', h_data),
         (r'std::(__cxx11::)?basic_string<.*>::(operator\[\]|at)$', h_element), (r'std::(__cxx11::)?basic_string<.*>::operator=$', h_from_pointer), (VEC + r'reserve$', h_reserve), (VEC + r'(push_back|emplace_back)$', growth(models.m_push('back'))),
         (VEC + r'resize$', growth(models.m_resize))]


def new(prog, hooks=()):
    ip = osc.interp(P, prog, hooks=list(hooks) + HOOKS)
    ip.execs = []
    return ip


def fn_of(prog, name, pred=lambda f: True):
    fs = [f for f in prog.by_name.get(name, []) if pred(f)]
    return fs[0] if len(fs) == 1 else None


def run(rep):
    rep.rule = ('abstract interpretation of the functions that start, replace and end processes, with fork, exec, waitpid, popen and the signals replaced by every outcome '
                'their documentation allows')
    prog = load(['external/concealer/src/execute.cpp', 'external/concealer/src/field_operator_application.cpp', 'openscenario/openscenario_interpreter/src/posix/fork_exec.cpp'], probes=['process.cpp'])
    replace(rep, prog)
    output(rep, prog)
    launch(rep, prog)
    command(rep, prog)
    finish(rep, prog)


def show(x):
    return ' '.join(repr(i) for i in x)


def replace(rep, prog):
    for name in ('concealer::execute', 'openscenario_interpreter::execvp'):
        fn = fn_of(prog, name)
        rep.need(fn, name + ' vanished')
        key = 'C14:' + name.split('::')[-1]
        for xs in ARGS[1:]:
            ip = new(prog)
            rets, throws = ip.run(fn, State({A: lst(xs)}), None, [('alias', A, ())])
            rep.analysed(ip)
            rep.count('command lines')
            rep.require(not throws and all(v == I(-1) for _, v in rets), key + ':result', '%s does not return the failure of the system call' % name, fn.where)
            ev = [x for s in ip.execs for x in s.g('trace') if x[0] == 'exec']
            rep.require(len(ev) == len(ip.execs) >= 1, key + ':calls', '%s does not replace the process exactly once' % name, fn.where)
            for _, f0, argv in ev:
                rep.require(f0 == xs[0], key + ':file', '%s runs %r for the arguments %s' % (name, f0, show(xs)), fn.where)
                rep.require(argv == xs + ('<null>',), key + ':argv', '%s passes %s for the arguments %s' % (name, argv if isinstance(argv, str) else show('an invalid or unterminated string' if a is None else a for a in argv), show(xs)), fn.where)


def output(rep, prog):
    fn = fn_of(prog, 'concealer::dollar')
    rep.need(fn, 'concealer::dollar vanished')
    for chunks in ((), ('a\n',), ('ab', 'c', '\n', 'de\n', 'f')):
        for fails in (False, True):
            def h_open(ip, st, e, o, args, f):
                out = []
                for s, vs in ip.args(args, f, st):
                    s = s.event('popen', ip.load(s, vs[0]) if ip.load(s, vs[0])[0] == 's' else Sx(string_at(ip, s, vs[0]) or ''), ip.load(s, vs[1]))
                    out.append((ip.fail(s, 12), NIL) if fails else (s, ('ptr', ('t', 'pipe'), ())))
                return out

            def h_gets(ip, st, e, o, args, f):
                n = st.g('read', 0)
                out = []
                for s, vs in ip.args(args, f, st):
                    b = ip.load(s, vs[0])
                    if n >= len(chunks):
                        out.append((s, NIL))
                        continue
                    if b[0] == 'ptr':
                        path = b[2][:-1] if b[2] and b[2][-1] == ('ix', 0) else b[2]
                        s = ip.store(s, (b[1], path), Sx(chunks[n]))
                    out.append((s.gset(read=n + 1), b))
                return out

            def h_bufdata(ip, st, e, o, args, f):
                # the C string held in the buffer is what the buffer decays to when read
                return [(st, ('ptr', o[1], o[2] + (('ix', 0),)))]

            def h_plus(ip, st, e, o, args, f):
                out = []
                for s, vs in ip.args(args, f, st):
                    t = ip.load(s, vs[0])
                    t = t[1] if t[0] == 's' else string_at(ip, s, t)
                    old = ip.load(s, o)
                    if t is None or old[0] != 's':
                        return None
                    out.append((ip.store(s, o[1:], Sx(old[1] + t)), o))
                return out
            ip = new(prog, [(r'^popen$', h_open), (r'^(std::)?fgets$', h_gets), (r'^std::array<char, .*>::(data|begin)$', h_bufdata), (r'basic_string<.*>::(operator\+=|append)$', h_plus)])
            rets, throws = ip.run(fn, State({A: Sx('which ros2')}), None, [('alias', A, ())])
            rep.analysed(ip)
            ev = {x[1:] for s, _ in rets + throws for x in s.g('trace', ()) if x[0] == 'popen'}
            rep.require(ev == {(Sx('which ros2'), Sx('r'))}, 'C14:dollar:command', 'dollar runs %s' % sorted(ev), fn.where)
            if fails:
                rep.require(not rets and {v[1] for _, v in throws} == {'std::system_error'}, 'C14:dollar:failure', 'dollar does not throw a system_error when the command cannot be started', fn.where)
            else:
                got = {ip.load(s, v) for s, v in rets}
                rep.require(not throws and got == {Sx(''.join(chunks))}, 'C14:dollar:output', 'dollar yields %s for the output %r' % (sorted(map(str, got)), ''.join(chunks)), fn.where)


def launch(rep, prog):
    fs = [f for f in prog.by_name.get('concealer::ros2_launch', []) if f.raw.get('body')] or [f for n, l in prog.by_name.items() if n.startswith('concealer::ros2_launch') for f in l]
    fs = list({f.key: f for f in fs}.values()) if fs and hasattr(fs[0], 'key') else fs[:1]
    rep.need(fs, 'ros2_launch is not instantiated')
    fn = fs[0]

    def h_dollar(ip, st, e, o, args, f):
        return [(s.event('dollar', ip.load(s, vs[0])), Sx('/opt/ros/bin/ros2\n')) for s, vs in ip.args(args, f, st)]

    def h_replace(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            t, a, b = [ip.load(s, v) for v in vs]
            out.append((s, Sx(t[1].replace(a[1], b[1]))))
        return out

    def h_execute(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            ip.execs.append(s.event('execute', ip.load(s, vs[0])))
            out.append((ip.fail(ip.execs[-1], 2), I(-1)))
        return out
    for xs in ((), ('a:=1',), ('a:=1', 'b:=x y', 'a:=1', '')):
        ip = new(prog, [(r'^concealer::dollar$', h_dollar), (r'replace_all_copy', h_replace), (r'^concealer::execute$', h_execute)])
        rets, throws = ip.run(fn, State({A: lst(xs)}), None, [Sx('package'), Sx('file'), ('alias', A, ())])
        rep.analysed(ip)
        sides(rep, ip, fn, rets, throws, 'C14:launch', 'ros2_launch')
        rep.require(any(s.g('side') == 'parent' for s, _ in rets), 'C14:launch:parent', 'ros2_launch does not return to its caller', fn.where)
        for s in ip.execs:
            argv = [x for x in s.g('trace') if x[0] == 'execute'][-1][1]
            rep.require(s.g('side') == 'child', 'C14:launch:replace', 'ros2_launch replaces the process of its caller', fn.where)
            want = lst(('python3', '/opt/ros/bin/ros2', 'launch', 'package', 'file') + xs)
            rep.require(argv == want, 'C14:launch:argv', 'ros2_launch runs %s' % (argv,), fn.where)
        rep.require(ip.execs, 'C14:launch:none', 'ros2_launch runs nothing', fn.where)


def sides(rep, ip, fn, rets, throws, key, what):
    """only the parent returns, with the child's identifier; a failed fork is a system_error; a failed exec ends the child unsuccessfully"""
    rep.count('paths', len(rets) + len(throws))
    rep.require(all(s.g('side') != 'child' for s, _ in rets), key + ':child-returns', '%s returns in the child process when the command cannot be run: the caller goes on twice' % what, fn.where)
    rep.require(all(s.g('side') == 'parent' and v == I(PID) for s, v in rets if s.g('side') != 'child'), key + ':pid', '%s does not return the identifier of the child' % what, fn.where)
    for s, v in throws:
        if s.g('side') == 'none':
            rep.require(v[1] == 'std::system_error', key + ':fork', 'a failure to start a process is reported by %s as %s' % (what, v[1]), fn.where)
        elif s.g('side') == 'child':
            code = of_code(v)
            rep.require(v[1] in ('$exit', '$_exit', '$_Exit', '$quick_exit') and code not in (None, I(0)), key + ':exit', '%s ends a child that cannot run the command with %s' % (what, v[1].replace('$', '') + (' 0' if code == I(0) else '')), fn.where)
        else:
            rep.bad(key + ':throws', '%s throws %s although the process was started' % (what, v[1]), fn.where)
    rep.require(any(s.g('side') == 'none' for s, _ in throws), key + ':fork', 'a failure to start a process is not reported by %s' % what, fn.where)
    rep.require(any(s.g('side') == 'child' for s, _ in throws) or any(s.g('side') == 'child' for s, _ in rets), key + ':exit', 'the failure to run a command ends no path of %s' % what, fn.where)


def of_code(v):
    from ..absint import of_get
    return of_get(v, 'code') if v[0] == 'obj' else None


STATUS = {'exited with success': 0, 'exited with failure': 0x100, 'killed': 9, 'killed with core': 0x8b, 'stopped': 0x137f}
FAILURE = {'interrupted': EINTR, 'no such child': ECHILD}


def h_wait(limit):
    def h(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            done = [x for x in s.g('trace', ()) if x[0] == 'wait']
            if len(done) >= limit:
                continue
            who, opt = ip.load(s, vs[0]), ip.load(s, vs[2])
            for n, c in STATUS.items():
                if n == 'stopped' and not (opt[0] == 'i' and opt[1] & 2):
                    continue
                s2 = s.event('wait', n, who, opt)
                if vs[1][0] in ('ptr', 'alias'):
                    s2 = ip.store(s2, vs[1][1:], I(c))
                out.append((s2, I(PID)))
            for n, c in FAILURE.items():
                out.append((ip.fail(s.event('wait', n, who, opt), c), I(-1)))
            if opt[0] == 'i' and opt[1] & 1:
                out.append((s.event('wait', 'runs', who, opt), I(0)))
        return out
    return h


def command(rep, prog):
    Q = 'openscenario_interpreter::fork_exec'
    fn = fn_of(prog, Q, lambda f: len(f.x['p']) == 1 and 'vector' in f.x['p'][0]['t'])
    rep.need(fn, 'fork_exec vanished')

    def h_execvp(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            ip.execs.append(s.event('execvp', ip.load(s, vs[0])))
            out.append((ip.fail(ip.execs[-1], 2), I(-1)))
        return out
    xs = ('ab', '', 'c')
    ip = new(prog, [(r'^openscenario_interpreter::execvp$', h_execvp), (r'^waitpid$', h_wait(4))])
    rets, throws = ip.run(fn, State({A: lst(xs)}), None, [('alias', A, ())])
    rep.analysed(ip)
    key = 'C14:fork_exec'
    # giving up on a child that cannot be waited for may be an error
    sides(rep, ip, fn, rets, [(s, v) for s, v in throws if not (s.g('side') == 'parent' and v[1] == 'std::system_error' and waits(s)[-1] == 'no such child')], key, 'fork_exec')
    rep.require(ip.execs and all(s.g('side') == 'child' for s in ip.execs), key + ':replace', 'fork_exec does not run the command in the child', fn.where)
    for s in ip.execs:
        got = [x for x in s.g('trace') if x[0] == 'execvp'][-1][1]
        rep.require(got == lst(xs), key + ':argv', 'fork_exec runs %s' % (got,), fn.where)
    seen = set()
    for s, _ in rets:
        if s.g('side') != 'parent':
            continue
        w = waits(s)
        rep.require(all(x[2] == I(PID) for x in s.g('trace') if x[0] == 'wait'), key + ':other', 'fork_exec waits for another process', fn.where)
        rep.require(w, key + ':unwaited', 'fork_exec returns without waiting for the command', fn.where)
        if w:
            seen.add(w[-1])
            rep.require(w[-1] not in ('stopped', 'runs', 'interrupted'), key + ':early:' + w[-1], {
                'stopped': 'fork_exec returns although the command is only stopped', 'runs': 'fork_exec returns while the command runs',
                'interrupted': 'fork_exec returns when a signal interrupts the wait, while the command still runs'}.get(w[-1], ''), fn.where)
            rep.require(not any(x.startswith(('exited', 'killed')) for x in w[:-1]), key + ':again', 'fork_exec goes on waiting after the command ended', fn.where)
    for n in ('exited with success', 'exited with failure', 'killed', 'killed with core'):
        rep.require(n in seen, key + ':stuck', 'fork_exec never returns for a command that %s' % n, fn.where)

    # the command line
    def h_split(ip, st, e, o, args, f):
        return [(s, ('split', ip.load(s, vs[0]))) for s, vs in ip.args(args, f, st)]

    def h_run(ip, st, e, o, args, f):
        if len(args) != 1 or 'vector' not in f['pt'][0]:
            return None
        return [(s.event('run', ip.load(s, vs[0])), I(PID)) for s, vs in ip.args(args, f, st)]
    one = fn_of(prog, Q, lambda f: len(f.x['p']) == 1 and 'vector' not in f.x['p'][0]['t'])
    two = fn_of(prog, Q, lambda f: len(f.x['p']) == 2)
    rep.need(one and two, 'the overloads of fork_exec changed')
    for fn2, vals, want in ((one, ['echo a b'], 'echo a b'), (two, ['echo', ''], 'echo'), (two, ['echo', 'a b'], 'echo a b'), (two, ['a b', 'c'], 'a b c')):
        ip = new(prog, [(r'^openscenario_interpreter::(string::)?split$', h_split), (r'^openscenario_interpreter::(posix::)?fork_exec$', h_run)])
        rets, throws = ip.run(fn2, State({('t', i): Sx(v) for i, v in enumerate(vals)}), None, [('alias', ('t', i), ()) for i in range(len(vals))])
        rep.analysed(ip)
        got = [[x[1] for x in s.g('trace', ()) if x[0] == 'run'] for s, _ in rets]
        rep.require(not throws and got and all(g == [('split', Sx(want))] for g in got), key + ':line', 'the command %r with the content %r runs %s' % (vals[0], (vals + [''])[1], got), fn2.where)
        rep.require(all(v == I(PID) for _, v in rets), key + ':line-pid', 'fork_exec does not return the identifier of the child', fn2.where)


def waits(s):
    return [x[1] for x in s.g('trace', ()) if x[0] == 'wait']


def finish(rep, prog):
    FO = 'concealer::FieldOperatorApplication'
    fn = fn_of(prog, FO + '::~FieldOperatorApplication')
    rep.need(fn, 'the destructor of FieldOperatorApplication vanished')
    X = ('t', 'x')
    q = {f['q'].split('::')[-1]: f['q'] for f in prog.records[FO]['f']}
    PIDF = q['process_id']

    def timed(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            t = ip.load(s, vs[2])
            t = ip.load(s, ('alias',) + t[1:]) if t[0] == 'ptr' else t
            out.append((s.event('timed', 'ended', t), I(17)))
            for n, c in (('interrupted', EINTR), ('timeout', EAGAIN), ('invalid', EINVAL)):
                out.append((ip.fail(s.event('timed', n, t), c), I(-1)))
        return out

    def signalled(ip, st, e, o, args, f):
        return [(s.event(f['n'].split('::')[-1], *[ip.load(s, v) for v in vs]), I(0)) for s, vs in ip.args(args, f, st)]

    def may_fail(ip, st, e, o, args, f):
        return [(s.event(f['n'].split('::')[-1]), I(0)) for s, vs in ip.args(args, f, st)]

    def reap(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            s = s.event('reap', ip.load(s, vs[0]), ip.load(s, vs[2]))
            out.append((s, I(PID)))
            out.append((ip.fail(s, ECHILD), I(-1)))
        return out

    def param(ip, st, e, o, args, f):
        return [(st, ('param', ip.load(s, vs[0]))) for s, vs in ip.args(args, f, st)]
    for pid in (0, PID):
        ip = new(prog, [(r'^sigtimedwait$', timed), (r'^(kill|killpg)$', signalled), (r'^(sigemptyset|sigaddset|pthread_sigmask)$', may_fail), (r'^waitpid$', reap), (r'getParameter$', param)])
        rets, throws = ip.run(fn, State({X: mkobj(FO, None, {PIDF: I(pid)})}), ('ptr', X, ()), [])
        rep.analysed(ip)
        rep.count('paths', len(rets))
        rep.require(rets and not throws, 'C14:end:throws', 'ending Autoware fails', fn.where)
        for s, _ in rets:
            tr = [x for x in s.g('trace', ()) if x[0] in ('kill', 'killpg', 'timed', 'reap')]
            rep.require(ip.load(s, ('alias', X, (q['finalized'],))) == TRUE, 'C14:end:finalized', 'the end of the interface to Autoware is not announced', fn.where)
            if pid == 0:
                rep.require(not tr, 'C14:end:foreign', 'processes are signalled although Autoware was not launched', fn.where)
                continue
            rep.require(tr and tr[0][0] in ('kill', 'killpg') and tr[0][1] == I(pid) and tr[0][2] == I(2), 'C14:end:interrupt', 'Autoware is not asked to end by SIGINT first', fn.where)
            rep.require(len([x for x in tr if x[0] == 'timed']) == 1 and tr[1][0] == 'timed', 'C14:end:wait', 'the end of Autoware is not waited for before it is killed', fn.where)
            t = [x for x in tr if x[0] == 'timed']
            kills = [x for x in tr if x[0] in ('kill', 'killpg') and x[2] == I(9)]
            if t and t[0][1] == 'timeout':
                rep.require(kills and kills[0][0] == 'killpg' or kills and kills[0][1] == I(-pid), 'C14:end:kill', 'Autoware is not killed with all of its processes when it does not end in time', fn.where)
                rep.require(all(abs(x[1][1]) == pid for x in kills if x[1][0] == 'i'), 'C14:end:victim', 'another process is killed', fn.where)
            elif t and t[0][1] == 'ended':
                rep.require(not kills, 'C14:end:killed', 'Autoware is killed although it ended in time', fn.where)
            rep.require(tr[-1][0] == 'reap' and tr[-1][1] == I(pid) and tr[-1][2] == I(0), 'C14:end:reap', 'the Autoware process is not waited for', fn.where)
            rep.require(ip.load(s, ('alias', X, (PIDF,))) == I(0), 'C14:end:pid', 'the identifier of the ended Autoware process is kept', fn.where)
        if pid:
            rep.require({x[1] for s, _ in rets for x in s.g('trace', ()) if x[0] == 'timed'} >= {'timeout', 'ended'}, 'C14:end:outcomes', 'the wait for Autoware to end does not decide how it is ended', fn.where)
