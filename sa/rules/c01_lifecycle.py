"""Storyboard element life cycle: typestate over every path of the state machine."""
from ..facts import load
from ..absint import Interp, State, mkobj, I, TRUE, FALSE, VOID, of_get, strip_type
from .. import osc

SYN = 'openscenario/openscenario_interpreter/src/syntax/'
SE = 'openscenario_interpreter::StoryboardElement'
SES = 'openscenario_interpreter::StoryboardElementState'
STATES = ['standbyState', 'runningState', 'completeState', 'startTransition', 'endTransition', 'stopTransition', 'skipTransition']
THIS = ('o', 'element')
COUNT = ('init', 'count')


class Machine(Interp):
    """ghost state: q = last observed life-cycle state, plus what happened since it was entered"""

    def err(self, s, msg):
        return s.gset(err=s.g('err', frozenset()) | {msg})

    def state_of(self, s, v):
        v = self.load(s, v)
        if v[0] != 'ptr':
            return None
        r, p, o = self.norm(s, v[1], v[2])
        if o[0] == 'obj':
            x = of_get(o, self.value_field)
            if x is not None:
                x = self.resolve(s, x)
                if x[0] == 'i':
                    return self.names.get(x[1])
        return None

    def assigned(self, s, locv, val, e):
        if locv[1] != THIS or not locv[2]:
            return s
        f = locv[2][-1]
        if f == SE + '::current_state':
            n = self.state_of(s, val)
            return self.transition(s, n)
        if f == SE + '::current_execution_count':
            old = self.load(s, locv)
            if val == self.arith(s, '+', old, I(1)):
                return s.gset(incr=s.g('incr', 0) + 1)
            return self.err(s, 'the execution counter is changed other than by one')
        return s

    def canon(self, s, locv, val):
        if locv[1] == THIS and locv[2] and locv[2][-1] == SE + '::current_execution_count':
            return s.forget(COUNT), COUNT
        return s, val

    def transition(self, s, n):
        q, did = s.g('q'), s.g('did', ())
        if n is None:
            return self.err(s, 'a state of unknown identity is entered from ' + str(q))
        if not s.g('stopchk') and q is not None and s.g('armed'):
            s = self.err(s, 'state changes before the stop trigger is evaluated')
        ev = s.g('stop')       # value of the stop trigger in this evaluation
        ok = None
        if n == 'stopTransition':
            ok = ev is True and q not in ('standbyState', 'completeState', 'stopTransition') and not s.g('moved')
            ok = ok or 'stop transition entered although it was not requested, or from %s' % q
        elif (q, n) == ('standbyState', 'startTransition'):
            ok = did == ('trigger:True',) or 'start transition entered without a true start trigger'
        elif (q, n) == ('startTransition', 'runningState'):
            ok = did == ('start',) or 'running state entered without exactly one start (%s)' % (did,)
        elif (q, n) == ('runningState', 'endTransition'):
            ok = did == ('run', 'accomplished:True') or 'end transition entered although not (run, then accomplished): %s' % (did,)
        elif q == 'endTransition' and n in ('standbyState', 'completeState'):
            c = self.load(s, ('alias', THIS, (SE + '::current_execution_count',)))
            m = self.load(s, ('alias', THIS, (SE + '::maximum_execution_count',)))
            want = {b for _, b in self.compare(s, '<', c, m)}
            ok = want == {n == 'standbyState'} or 'after the end transition %s is entered although executions %s' % (n, 'are exhausted' if n == 'standbyState' else 'are left')
        elif (q, n) == ('stopTransition', 'completeState'):
            ok = did in (('accomplished:True',), ('accomplished:False', 'stop')) or 'complete state entered from stop transition without stopping the unaccomplished element (%s)' % (did,)
        else:
            ok = 'transition %s -> %s is not allowed' % (q, n)
        if ok is not True:
            s = self.err(s, ok)
        k = 1 if n == 'runningState' else 0
        if s.g('incr', 0) and n != 'runningState' and q != 'runningState':
            s = self.err(s, 'execution counter changed outside of entering the running state')
        return s.gset(q=n, did=(), moved=True, pend=(n == 'runningState'))

    def did(self, s, what):
        q = s.g('q')
        if what == 'start' and q != 'startTransition':
            s = self.err(s, 'start actions run in %s' % q)
        if what == 'run' and q != 'runningState':
            s = self.err(s, 'running actions run in %s' % q)
        if what == 'stop' and q != 'stopTransition':
            s = self.err(s, 'stop actions run in %s' % q)
        if what == 'run' and s.g('pend') and s.g('incr', 0) != 1:
            s = self.err(s, 'entering the running state counts %d executions instead of one' % s.g('incr', 0))
        d = s.g('did', ())
        if len(d) < 6:
            d = d + (what,)
        return s.gset(did=d) if what != 'run' else s.gset(did=d, incr=0, pend=False)


def virt(name, split=False):
    def h(ip, st, e, o, args, f):
        if o is None or o[1] != THIS:
            return None
        if not split:
            return [(ip.did(st, name), VOID)]
        out = []
        for b in (True, False):
            out.append((ip.did(st, '%s:%s' % (name, b)), ('b', b)))
        return out
    return h


def trigger(ip, st, e, o, args, f):
    fld = o[2][-1] if o[2] else None
    out = []
    for b in (True, False):
        if fld == SE + '::stop_trigger':
            s = st
            if s.g('stop') is not None:
                s = ip.err(s, 'the stop trigger is evaluated more than once in one evaluation')
            s = s.gset(stop=b, stopchk=True)
        elif fld == SE + '::start_trigger':
            s = ip.did(st, 'trigger:%s' % b)
            if st.g('q') != 'standbyState':
                s = ip.err(s, 'the start trigger is evaluated in %s' % st.g('q'))
        else:
            s = st
        out.append((s, osc.boolean_value(ip, ('b', b), (id(e), b))))
    return out


def callback(ip, st, e, o, args, f):
    return [(st.gset(cb=True), VOID)]


def run(rep):
    rep.rule = ('typestate: for each life-cycle state, abstract interpretation of the evaluation of a storyboard element; '
                'every state write must be an allowed transition preceded by exactly the required work')
    prog = load([SYN + 'event.cpp', SYN + 'storyboard_element_state.cpp'])
    fn = prog.one(SE + '::evaluate')
    rep.need(SES + '::value_type' in prog.enums, 'enumeration of storyboard element states vanished')
    names = {int(v): n for n, v in prog.enums[SES + '::value_type']['e']}
    rep.require(sorted(names.values()) == sorted(STATES), 'C01:states', 'the set of storyboard element states changed: %s' % sorted(names.values()), 'storyboard_element_state.hpp')
    vf = prog.records[SES]['f'][0]['q']
    rep.need(any(f['q'] == SE + '::current_state' for f in prog.records[SE]['f']), 'current_state vanished')

    def fresh():
        ip = osc.interp(Machine, prog, [
            (r'StoryboardElement::run$', virt('run')), (r'StoryboardElement::start$', virt('start')),
            (r'StoryboardElement::stop$', virt('stop')), (r'StoryboardElement::accomplished$', virt('accomplished', True)),
            (r'openscenario_interpreter::Trigger::evaluate$', trigger), (r'^<closure>$', callback)])
        ip.names, ip.value_field = names, vf
        return ip
    consts = {}
    ip = fresh()
    for v, n in names.items():
        g = {'startTransition': 'start_transition', 'endTransition': 'end_transition', 'stopTransition': 'stop_transition', 'skipTransition': 'skip_transition',
             'standbyState': 'standby_state', 'runningState': 'running_state', 'completeState': 'complete_state'}.get(n)
        gv = ip.load(State(), ('alias', ('g', 'openscenario_interpreter::' + str(g)), ()))
        got = ip.state_of(State(), gv)
        if not rep.require(got == n, 'C01:constant:' + n, 'the shared object for %s holds %s' % (n, got), 'storyboard_element_state.cpp'):
            return
        consts[n] = gv
    # initial state of an element
    init = [f for f in prog.records[SE]['f'] if f['q'].endswith('::current_state')][0].get('i')
    s0 = State()
    rs = ip.rv(init, s0) if init is not None else []
    rep.require(len(rs) == 1 and ip.state_of(*rs[0]) == 'standbyState', 'C01:initial', 'a storyboard element does not start in the standby state', fn.where)

    for v, n in sorted(names.items()):
        ip = fresh()
        ip._gl.update({})
        obj = mkobj(SE, ('element0',), {SE + '::current_state': consts[n], SE + '::current_execution_count': COUNT})
        st = State({THIS: obj}).gset(q=n, armed=True)
        rets, throws = ip.run(fn, st, ('ptr', THIS, ()))
        rep.analysed(ip)
        rep.count('paths', len(rets) + len(throws))
        errs = set()
        exits = set()
        for s, val in rets:
            errs |= s.g('err', frozenset())
            q = s.g('q')
            exits.add(q)
            d = s.g('did', ())
            if not s.g('stopchk'):
                errs.add('evaluation finishes without evaluating the stop trigger')
            if s.g('stop') is True and n not in ('standbyState', 'stopTransition', 'skipTransition') and q != 'completeState':
                errs.add('a requested stop leaves the element in %s' % q)
            if q == 'standbyState' and d != ('trigger:False',):
                errs.add('evaluation rests in the standby state without a false start trigger %s' % (d,))
            if q == 'runningState' and d != ('run', 'accomplished:False'):
                errs.add('evaluation rests in the running state without running once and being unaccomplished %s' % (d,))
            if q not in ('standbyState', 'runningState', 'completeState'):
                errs.add('evaluation rests in the transitional state %s' % q)
            if q == 'completeState' and d:
                errs.add('work is done in the complete state: %s' % (d,))
            cur = ip.state_of(s, ip.load(s, ('alias', THIS, (SE + '::current_state',))))
            if cur != q or ip.state_of(s, val) != q:
                errs.add('the reported state differs from the current one')
        for s, val in throws:
            if n != 'skipTransition':
                errs.add('evaluation from %s ends with an exception of type %s' % (n, val[1]))
        expect = {'standbyState': {'standbyState', 'runningState', 'completeState'}, 'startTransition': {'standbyState', 'runningState', 'completeState'},
                  'runningState': {'standbyState', 'runningState', 'completeState'}, 'endTransition': {'standbyState', 'runningState', 'completeState'},
                  'completeState': {'completeState'}, 'stopTransition': {'completeState'}}
        if n in expect and exits != expect[n]:
            errs.add('resting states reachable from %s are %s' % (n, sorted(map(str, exits))))
        for x in sorted(errs):
            rep.bad('C01:%s:%s' % (n, x), 'evaluating an element in %s: %s' % (n, x), fn.where)
        if not errs:
            rep.ok('life cycle from %s: %d outcomes conform' % (n, len(rets)), fn.where)

    # override(): stop is requested from every state but standby, complete and stop
    ov = prog.one(SE + '::override')
    for v, n in sorted(names.items()):
        ip = fresh()
        obj = mkobj(SE, ('element0',), {SE + '::current_state': consts[n], SE + '::current_execution_count': COUNT})
        st = State({THIS: obj}).gset(q=n, stop=True, stopchk=True)
        rets, throws = ip.run(ov, st, ('ptr', THIS, ()))
        rep.analysed(ip)
        end = {s.g('q') for s, _ in rets}
        want = {n} if n in ('standbyState', 'completeState', 'stopTransition') else {'stopTransition'}
        rep.require(end == want and not throws and not any(s.g('err') for s, _ in rets), 'C01:override:' + n, 'overriding an element in %s leads to %s instead of %s' % (n, sorted(map(str, end)), sorted(want)), ov.where)
