"""Exceptions leaving the scenario map to exactly one verdict; the frame loop ends the scenario on any of them."""
from ..facts import load
from ..absint import Interp, State, mkobj, TRUE, FALSE, VOID, NIL, of_get, strip_type, I
from .. import osc, models

NS = 'openscenario_interpreter::'
INT = NS + 'Interpreter'
SRC = 'openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp'
THIS = ('o', 'interpreter')
PASS, FAILURE, ERROR = 'common::junit::Pass', 'common::junit::Failure', 'common::junit::Error'
# thrown type -> (verdict, reported kind, is the message the exception's own)
TABLE = [
    (NS + 'SpecialAction<0>', 'Pass', None),
    (NS + 'SpecialAction<1>', 'Failure', 'SimulationFailure'),
    ('common::scenario_simulator_exception::AutowareError', 'Error', 'AutowareError'),
    ('common::scenario_simulator_exception::SemanticError', 'Error', 'SemanticError'),
    ('common::scenario_simulator_exception::SimulationError', 'Error', 'SimulationError'),
    ('common::scenario_simulator_exception::SyntaxError', 'Error', 'SyntaxError'),
    ('common::scenario_simulator_exception::SpecificationViolation', 'Error', 'InternalError'),
    ('common::scenario_simulator_exception::Error', 'Error', 'InternalError'),
    ('std::runtime_error', 'Error', 'InternalError'),
    ('std::out_of_range', 'Error', 'InternalError'),
    ('std::bad_alloc', 'Error', 'InternalError'),
    ('int', 'Error', 'UnknownError'),
]


def resolve_type(prog, t):
    """the same class under the names the front end may print it with"""
    if t in prog.records or t == 'int' or t.startswith('std::'):
        return t
    for k in prog.records:
        if k.split('::')[-1] == t.split('::')[-1] and k.split('::')[0] == t.split('::')[0]:
            return k
    return None


class V(Interp):
    def assigned(self, s, locv, val, e):
        return s


def h_set(ip, st, e, o, args, f):
    ta = [strip_type(x) for x in (f.get('ta') or [])]
    out = []
    for s, vs in ip.args(args, {'pt': ['const &'] * len(args)}, st):
        vs = tuple(ip.load(s, v) for v in vs)
        s = s.gset(verdicts=s.g('verdicts', ()) + ((ta[0].split('::')[-1] if ta else '?', vs),), order=s.g('order', ()) + ('set',))
        out.append((s, VOID))
    return out


def h_handle(ip, st, e, o, args, f):
    return [(st.gset(order=st.g('order', ()) + ('handle',)), ('term', 'handled'))]


def h_what(ip, st, e, o, args, f):
    return [(st, ('term', 'message'))]


def mapping(rep, prog):
    fns = [f for f in prog.named(INT + '::withExceptionHandler')]
    rep.need(len(fns) >= 3, 'instances of the exception barrier vanished')
    fn = fns[0]
    for t, verdict, kind in TABLE + [('', None, None)]:
        rt = resolve_type(prog, t) if t else ''
        if rt is None:
            # never completed in this unit: cannot be thrown into the barrier from here
            continue

        def h_thunk(ip, st, e, o, args, f, rt=rt):
            st = st.gset(order=st.g('order', ()) + ('thunk',))
            if rt == '':
                return [(st, ('term', 'value'))]
            ip.throw(st, mkobj(rt, ('thrown',), {}) if rt != 'int' else mkobj('int', ('thrown',), {}))
            return []
        for fn in fns:
            ip = osc.interp(V, prog, [(r'Interpreter::set$', h_set), (r'^\$thunk$', h_thunk), (r'^\$handle$', h_handle), (r'::what$', h_what)])
            rets, throws = ip.run(fn, State({THIS: mkobj(INT, ('self',), {})}), ('ptr', THIS, ()), [('fn', 'h', '$handle'), ('fn', 't', '$thunk')])
            rep.analysed(ip)
            rep.count('paths', len(rets) + len(throws))
            name = t.split('::')[-1] or 'normal completion'
            k = 'C05:%s' % name
            if throws:
                rep.bad(k + ':escapes', 'an exception of type %s escapes the barrier' % name, fn.where)
                continue
            good = bool(rets)
            for s, v in rets:
                order, vs = s.g('order', ()), s.g('verdicts', ())
                if t == '':
                    if order != ('thunk',) or ip.load(s, v) != ('term', 'value'):
                        good = False
                        rep.bad(k + ':spurious', 'without an exception the barrier records %s and runs %s' % (vs, order), fn.where)
                    continue
                if order != ('thunk', 'set', 'handle'):
                    good = False
                    rep.bad(k + ':order', 'after an exception of type %s the barrier performs %s instead of one verdict, then the handler' % (name, order[1:]), fn.where)
                    continue
                got, args = vs[0]
                ak = text(args[0]) if args else None
                if got != verdict or ak != kind:
                    good = False
                    rep.bad(k + ':verdict', 'an exception of type %s is reported as %s %s instead of %s %s' % (name, got, ak or '', verdict, kind or ''), fn.where)
                if kind and kind != 'UnknownError' and (len(args) < 2 or args[1] != ('term', 'message')):
                    good = False
                    rep.bad(k + ':message', "the report of an exception of type %s does not carry the exception's own message" % name, fn.where)
            if good:
                rep.ok('%s -> %s' % (name, verdict), fn.where)


def text(v):
    if v[0] == 's':
        return v[1]
    return v


CATEGORY = {'Pass': 'pass', 'Failure': 'failure', 'Error': 'error'}


def fld(prog, cls, name):
    for k in prog.records:
        if k.split('::')[-1] == cls and k.split('::')[0] == 'common':
            for f in prog.records[k]['f']:
                if f['q'].split('::')[-1] == name:
                    return f['q'], k
    return None, None


def snapshot(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        a = ip.load(s, vs[0])
        out.append((s.event('write', a, ip.load(s, o)), VOID))
    return out


def writer(rep, prog):
    """Interpreter::set<T>: one new entry, in the right place, and the file written afterwards"""
    fns = prog.named(INT + '::set')
    rep.need(len(fns) >= 3, 'the verdict writer vanished')
    q = {n: fld(prog, 'SimpleTestCase', n)[0] for n in CATEGORY.values()}
    nm, case = fld(prog, 'SimpleTestCase', 'name')
    sn, suite = fld(prog, 'SimpleTestSuite', 'name')
    _, suites = fld(prog, 'SimpleTestSuites', 'name')
    rep.need(all(q.values()) and case and suite and suites, 'fields of a test case vanished')
    osc_path = ('field', ('self',), INT + '::osc_path')
    sname, cname = ('filename', ('parent_path', osc_path)), ('stem', osc_path)
    file = ('join', ('field', ('self',), INT + '::output_directory'), ('s', 'result.junit.xml'))
    kt = 'openscenario_interpreter'

    def old_case(key, tag):
        return mkobj(case, None, dict([(nm, key)] + [(f, ('list', (('old', tag, c),))) for c, f in q.items()]))

    def old_suite(key, cases):
        return mkobj(suite, None, {sn: key, '<c>': ('list', tuple(models.PAIR(k, v) for k, v in cases))})
    k1, k2 = ('term', 'suite in the report'), ('term', 'case in the report')
    initials = {'an empty report': (), 'a report with another verdict': ((k1, old_suite(k1, ((k2, old_case(k2, 'x')),))),)}
    covered = set()
    for fn in fns:
        ta = fn.x.get('ta') or ['?']
        verdict = strip_type(ta[0]).split('::')[-1]
        covered.add(verdict)
        for label, init in initials.items():
            ip = osc.interp(V, prog, [(r'::write_to$', snapshot), (r'ExecutionTimer.*::save$', lambda ip, st, e, o, a, f: [(st, VOID)])])
            res = mkobj(suites, None, {'<c>': ('list', tuple(models.PAIR(k, v) for k, v in init))})
            this = mkobj(INT, ('self',), {INT + '::results': res})
            args = [('term', 'kind'), ('term', 'message')][:len(fn.x['p'])]
            rets, throws = ip.run(fn, State({THIS: this}), ('ptr', THIS, ()), args)
            rep.analysed(ip)
            rep.count('paths', len(rets) + len(throws))
            key = 'C05:set:%s:' % verdict
            if throws:
                rep.bad(key + 'throws', 'recording a %s into %s ends with an exception' % (verdict, label), fn.where)
                continue
            rep.need(rets, 'recording a verdict never returns')
            good = True
            for s, v in rets:
                def bad(what, text):
                    nonlocal good
                    good = False
                    rep.bad(key + what, 'recording a %s into %s: %s' % (verdict, label, text), fn.where)
                fin = ip.load(s, ('alias', THIS, (INT + '::results',)))
                new, lost, dup = [], [], set()
                c = of_get(fin, '<c>')
                rep.need(c is not None and c[0] == 'list', 'contents of the report cannot be determined')
                olds = set()
                for p in c[1]:
                    sk, so = models.pair_key(p), of_get(p, 'std::pair::second')
                    cc = of_get(so, '<c>')
                    rep.need(cc is not None and cc[0] == 'list', 'contents of a test suite cannot be determined')
                    for p2 in cc[1]:
                        ck, co = models.pair_key(p2), of_get(p2, 'std::pair::second')
                        for cat, fq in q.items():
                            l = of_get(co, fq)
                            rep.need(l is not None and l[0] == 'list', 'entries of a test case cannot be determined')
                            for x in l[1]:
                                if x[0] == 'old':
                                    olds.add(x)
                                else:
                                    new.append((same(s, sk, sname), same(s, ck, cname), cat, x))
                if len(olds) != 3 * len(init):
                    bad('lost', 'an earlier verdict is lost')
                if len(new) != 1:
                    bad('count', '%d entries are added' % len(new))
                    continue
                a, b, cat, x = new[0]
                if not (a and b):
                    bad('place', 'it is not stored in the suite and case of the scenario file')
                if cat != CATEGORY.get(verdict):
                    bad('category', 'it is stored as %s' % cat)
                if len(args) == 2 and not (x[0] == 'obj' and {k.split('::')[-1]: v for k, v in x[3]} == {'type': args[0], 'message': args[1]}):
                    bad('content', 'type and message are not those given')
                r = ip.load(s, ('alias', THIS, (INT + '::result',)))
                if not (r[0] == 'obj' and r[1].split('::')[-1] == verdict):
                    bad('result', 'the result reported at reset is a different one')
                w = [t for t in s.g('trace', ()) if t[0] == 'write']
                if not w or w[-1][2] != fin:
                    bad('file', 'the result file is not written after the verdict is stored')
                elif w[-1][1] != file:
                    bad('path', 'the result file is not output_directory/result.junit.xml')
            if good:
                rep.ok('%s recorded into %s' % (verdict, label), fn.where)
    rep.need(covered >= {'Pass', 'Failure', 'Error'}, 'a kind of verdict is never recorded')


def same(s, k, want):
    """the key is the wanted name, or known equal to it on this path"""
    if k == want:
        return True
    a, b = (k, want) if repr(k) <= repr(want) else (want, k)
    return s.facts.get(('rel', a, b)) == frozenset('=')


# ------------------------------------------------------------------ frame callback
def step(name, may_throw=True):
    def h(ip, st, e, o, args, f):
        tr = st.g('trace', ())
        s = st if name == 'engage' and tr and tr[-1] == (name,) else st.event(name)
        if may_throw and not st.g('failed'):
            ip.throw(st.event('throw ' + name).gset(failed=name), mkobj('std::runtime_error', ('thrown',), {}))
        return [(s, VOID)]
    return h


def nan(ip, st, e, o, args, f):
    return [(st.gset(nan=True), TRUE), (st.gset(nan=False), FALSE)]


def timer(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        lam = [v for v in (ip.load(s, v) for v in vs) if v[0] == 'lam']
        out.append((s.event('timer').gset(frame=lam[-1] if lam else None), ('term', 'timer')))
    return out


def frame(rep, prog):
    act = prog.one(INT + '::on_activate')
    common = [(r'Interpreter::set$', lambda ip, st, e, o, a, f: [(st.event('verdict'), VOID)]),
              (r'Interpreter::publishCurrentContext$', step('publish')),
              (r'ScenarioDefinition::evaluate$', step('evaluate')),
              (r'SimulatorCore::update$', step('update')),
              (r'SimulatorCore::activate$', step('activate')),
              (r'evaluateInstantaneousActions$', step('init actions')),
              (r'NonStandardOperation::engage$', step('engage')),
              (r'activateNonUserDefinedControllers$', step('activate controllers')),
              (r'Interpreter::reset$', step('reset', False)),
              (r'::deactivate$', step('deactivate', False)),
              (r'::create_wall_timer$', timer), (r'record::start$', step('record')),
              (r'(^|::)isnan$', nan), (r'::all_of$', lambda ip, st, e, o, a, f: [(st, TRUE), (st, FALSE)]),
              (r'::(publish|on_activate|is_activated)$', lambda ip, st, e, o, a, f: None if 'Interpreter' in f['n'] else [(st, TRUE if f['n'].endswith('activated') else VOID)]),
              (r'^std::copy$', lambda ip, st, e, o, a, f: [(st, VOID)]),
              (r'::time_until_trigger$', lambda ip, st, e, o, a, f: [(st, ('term', 'left'))])]

    class Silent(V):
        pass
    ip = osc.interp(Silent, prog, common, opaque=[r'makeCurrentConfiguration'])
    st = State({THIS: mkobj(INT, ('self',), {})})
    rets, throws = ip.run(act, st, ('ptr', THIS, ()), [('term', 'state')])
    rep.analysed(ip)
    rep.count('paths', len(rets) + len(throws))
    enum = [e for n, e in prog.enums.items() if n.endswith('CallbackReturn')]
    names = {int(v): n for n, v in enum[0]['e']} if enum else {}
    frames = {}
    good = True
    for s, v in throws:
        if s.g('failed') != 'publish':
            good = False
            rep.bad('C05:activate:escapes', 'an exception in "%s" during activation escapes' % s.g('failed'), act.where)
    for s, v in rets:
        v = ip.load(s, v)
        tr = [t[0] for t in s.g('trace', ())]
        rv = names.get(v[1], v[1]) if v[0] == 'i' else '?'
        if s.g('failed') and s.g('failed') != 'publish':
            i = tr.index('throw ' + s.g('failed'))
            if tr.count('verdict') != 1 or 'reset' not in tr[i:] or rv != 'FAILURE' or 'timer' in tr:
                good = False
                rep.bad('C05:activate:failure', 'when "%s" fails during activation the interpreter performs %s and returns %s' % (s.g('failed'), tr[i + 1:], rv), act.where)
        elif not s.g('failed') and rv == 'SUCCESS':
            if 'verdict' in tr or 'timer' not in tr or 'init actions' not in tr or 'activate' not in tr:
                good = False
                rep.bad('C05:activate:success', 'a successful activation performs %s' % tr, act.where)
        if s.g('frame'):
            frames[s.g('frame')[1]] = (s, s.g('frame'))
    if good:
        rep.ok('failing activation ends with one verdict and FAILURE', act.where)
    rep.need(frames, 'no frame callback is installed')
    for s, lam in frames.values():
        fn = prog.func(lam[1][0], lam[3])
        rep.need(fn is not None, 'frame callback not analysable')
        ip2 = osc.interp(Silent, prog, common)
        s0 = State({k: v for k, v in s.mem.items()}, s.facts, {})
        ip2.frame_info = dict(ip.frame_info)
        ip2.frames = dict(ip.frames)
        rets, throws = ip2.run_closure(lam, s0)
        rep.count('paths', len(rets) + len(throws))
        good = True
        for s2, v in throws:
            if s2.g('failed') == 'publish' and 'verdict' in [t[0] for t in s2.g('trace', ())][:-1]:
                continue
            good = False
            rep.bad('C05:frame:escapes:%s' % s2.g('failed'), 'an exception in "%s" escapes the frame callback' % s2.g('failed'), act.where)
        seen = set()
        for s2, v in rets:
            tr = [t[0] for t in s2.g('trace', ())]
            fl = s2.g('failed')
            seen.add((fl, s2.g('nan')))
            if fl is None:
                want = [['update', 'publish'], ['activate controllers', 'update', 'publish']] if s2.g('nan') else [['evaluate', 'update', 'publish']]
                if s2.g('nan') is False and 'evaluate' not in tr and tr == ['verdict', 'publish', 'deactivate']:
                    continue        # no scenario: reported as an error
                if tr not in want:
                    good = False
                    rep.bad('C05:frame:steps', 'a frame %s performs %s' % ('before the simulation time starts' if s2.g('nan') else 'of the running simulation', tr), act.where)
            else:
                i = tr.index('throw ' + fl)
                tail = tr[i + 1:]
                if tail.count('verdict') != 1 or tail.count('deactivate') != 1 or tail.index('verdict') > tail.index('deactivate') or 'publish' not in tail:
                    good = False
                    rep.bad('C05:frame:failure:%s' % fl, 'when "%s" fails in a frame the interpreter performs %s instead of recording a verdict, publishing the context and deactivating itself' % (fl, tail), act.where)
        rep.need({'evaluate', 'update', 'publish'} <= {a for a, b in seen} | {s2.g('failed') for s2, v in throws}, 'failing steps of a frame are not explored')
        if good:
            rep.ok('every failing step of a frame ends the scenario with one verdict', act.where)


def configure(rep, prog):
    fn = prog.one(INT + '::on_configure')
    ip = osc.interp(V, prog, [(r'Interpreter::set$', lambda ip, st, e, o, a, f: [(st.event('verdict'), VOID)]),
                              (r'(^|::)get_parameter$', lambda ip, st, e, o, a, f: [(st, TRUE)]),
                              (r'::(sleep_for|updateThreshold|setConsiderPoseByRoadSlope)$', lambda ip, st, e, o, a, f: [(st, VOID)]),
                              (r'::make_shared$', step('load'))])
    rets, throws = ip.run(fn, State({THIS: mkobj(INT, ('self',), {})}), ('ptr', THIS, ()), [('term', 'state')])
    rep.analysed(ip)
    enum = [e for n, e in prog.enums.items() if n.endswith('CallbackReturn')]
    names = {int(v): n for n, v in enum[0]['e']} if enum else {}
    good = not throws
    for s, v in throws:
        rep.bad('C05:configure:escapes', 'an exception while loading the scenario escapes', fn.where)
    for s, v in rets:
        v = ip.load(s, v)
        tr = [t[0] for t in s.g('trace', ())]
        rv = names.get(v[1], v[1]) if v[0] == 'i' else '?'
        if bool(s.g('failed') or 'verdict' in tr) != (rv == 'FAILURE') or tr.count('verdict') != (1 if rv == 'FAILURE' else 0):
            good = False
            rep.bad('C05:configure:result', 'configuration returns %s after %s' % (rv, tr), fn.where)
    if good:
        rep.ok('a scenario that cannot be loaded is reported once', fn.where)


def run(rep):
    rep.rule = 'abstract interpretation of the exception barrier for every exception type it distinguishes, of the verdict writer for every verdict, and of the activation and frame callbacks for every failing step'
    prog = load([SRC])
    mapping(rep, prog)
    writer(rep, prog)
    frame(rep, prog)
    configure(rep, prog)
