"""Type-erased objects: what they are, what they can be used as, and which operations they reach."""
from ..facts import load
from ..absint import Interp, State, NIL, Sx, TRUE, FALSE, I, mkobj

OSI = 'openscenario/openscenario_interpreter/'
NS = 'openscenario_interpreter::'
O, OS = ('t', 'o'), ('o', 'os')
REF, OUT = ('alias', O, ()), ('alias', OS, ())
V = ('sym', 'v')
BASES = {'Plain': ['Plain'], 'Full': ['Full', 'Base'], 'Derived': ['Derived', 'Full', 'Base'], 'Evaluated': ['Evaluated'], 'Told': ['Told'], 'Done': ['Done']}
ASKED = ['Plain', 'Full', 'Derived', 'Base']


def type_name(ip, st, e, o, args, f):
    v = ip.load(st, o)
    return [(st, Sx('N' + v[1]))] if v[0] == 'ty' else None


def cxa_demangle(ip, st, e, o, args, f):
    """a mangled name has its demangled form and the status 0, any other text none and a negative status"""
    out = []
    for s, vs in ip.args(args, f, st):
        n = ip.load(s, vs[0])
        p = ip.load(s, vs[3])
        if n[0] != 's':
            return None
        good = n[1].startswith('N')
        if p[0] == 'ptr':
            s = ip.store(s, (p[1], p[2]), I(0 if good else -2))
        out.append((s, Sx(n[1][1:]) if good else NIL))
    return out


HOOKS = [(r'std::type_info::name$', type_name), (r'__cxa_demangle$', cxa_demangle)]


class Use:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog

    def __call__(self, fn, st, *vals):
        ip = Interp(self.prog, hooks=HOOKS, opaque=[])
        rets, throws = ip.run(self.prog.one('probe::' + fn), st, None, list(vals))
        self.rep.analysed(ip)
        self.rep.count('paths', len(rets) + len(throws))
        return ip, rets, throws

    def only(self, fn, st, *vals):
        """the values of a use that never fails, else what it does"""
        ip, rets, throws = self(fn, st, *vals)
        if throws:
            return ['fails with %s' % x[1] for _, x in throws]
        return list(dict.fromkeys(ip.load(s, v) for s, v in rets))

    def semantic(self, fn, st, *vals):
        ip, rets, throws = self(fn, st, *vals)
        return not rets and throws and all(any(b.split('::')[-1] == 'SemanticError' for b in [x[1]] + list(self.prog.bases(x[1]))) for _, x in throws)


def say(v):
    return str([x if isinstance(x, str) else x[1] if x[0] in 'bisf' else x[:2] for x in v])[:150]


def run(rep):
    rep.rule = 'abstract interpretation of make, is, as, evaluate, accomplished, description and printing for objects of types with and without those operations, over an unknown payload'
    prog = load([OSI + 'src/object.cpp', OSI + 'src/utility/demangle.cpp'], probes=['object.cpp'])
    use = Use(rep, prog)
    where = OSI + 'include/openscenario_interpreter/pointer.hpp'
    unspecified = use.only('unspec', State())
    rep.require(len(unspecified) == 1 and unspecified[0][0] == 'ptr', 'C17:unspecified', 'the unspecified object is %s' % say(unspecified), OSI + 'src/object.cpp')
    start = {}
    for t in BASES:
        ip, rets, throws = use('make' + t, State().gset(epoch=0), V)
        if not rep.require(len(rets) == 1 and not throws and ip.load(*rets[0])[0] == 'ptr', 'C17:make', 'making an object of a type does not yield one object', where):
            return
        s, v = rets[0]
        v = ip.load(s, v)
        start[t] = (s.put(O, v).put(OS, ('stream', ())), v)

    for t, (st, me) in start.items():
        n0 = len(rep.violations)
        for u in ASKED:
            exact, also = t == u, u in BASES[t]
            for fn, want, what in (('is', exact, 'is'), ('fis', exact, 'is'), ('also', also, 'is also'), ('falso', also, 'is also')):
                got = use.only(fn + u, st, REF)
                rep.require(got == [('b', want)], 'C17:%s' % what.replace(' ', '-'), '%s: an object of %s says %s to whether it %s %s' % (fn, t, say(got), what, u), where)
            if also:
                ip, rets, throws = use('as' + u, st, REF)
                rep.require(not throws and rets and all(v[0] == 'alias' and tuple(v[1:3]) == (me[1], me[2]) for s, v in rets), 'C17:as', 'an object of %s as %s is not that object' % (t, u), where)
            else:
                rep.require(use.semantic('as' + u, st, REF), 'C17:as:error', 'an object of %s as %s is not a semantic error' % (t, u), where)
        for fn in ('isObject', 'alsoObject'):
            rep.require(use.only(fn, st, REF) == [TRUE], 'C17:object', 'an object of %s is not an object' % t, where)
        got = use.only('type', st, REF)
        rep.require(got == [('ty', 'probe::' + t)], 'C17:type', 'the type of an object of %s is %s' % (t, say(got)), where)
        operations(rep, use, t, st, me, unspecified, where)
        if len(rep.violations) == n0:
            rep.ok('objects of %s' % t, where)
    empty(rep, use, where)
    sharing(rep, use, start, where)
    names(rep, use)
    visiting(rep, use, start)


def operations(rep, use, t, st, me, unspecified, where):
    # evaluation
    ip, rets, throws = use('evaluate', st, REF)
    got = [(s, ip.load(s, v)) for s, v in rets]
    if t == 'Evaluated':
        good = [v for s, v in got] == unspecified
    elif t in ('Full', 'Derived'):
        good = got and all(v[0] == 'ptr' and v != me and use.only('isPlain', s.put(O, v), REF) == [TRUE] and payload(ip, s, v) == V for s, v in got)
    else:
        good = [v for s, v in got] == [me]
    rep.require(good and not throws, 'C17:evaluate', 'evaluating an object of %s yields %s' % (t, say([v for s, v in got])), where)
    for one in ((True, False) if t in ('Full', 'Derived') else (None,)):
        s = st if one is None else set_payload(ip, st, me, I(1 if one else 2))
        want = ('b', one if one is not None else t == 'Done')
        got = use.only('accomplished', s, REF)
        rep.require(got == [want], 'C17:accomplished', 'an object of %s is accomplished: %s instead of %s' % (t, say(got), want[1]), where)
        want = Sx('told' if t == 'Told' else '' if one is None else 'one' if one else 'other')
        got = use.only('description', s, REF)
        rep.require(got == [want], 'C17:description', 'an object of %s describes itself by %s instead of "%s"' % (t, say(got), want[1]), where)
        ip2, rets, throws = use('print', s, OUT, REF)
        got = [written(ip2, s2) for s2, v in rets]
        want = '<%s/>' % t if one is None else 'full one' if one else 'full other'
        rep.require(got == [want] and not throws, 'C17:print', 'an object of %s prints as %s instead of "%s"' % (t, got, want), where)


def written(ip, s):
    w = ip.load(s, OUT)
    if w[0] != 'stream':
        return None
    return ''.join(p[1] if p[0] == 's' else '\0' for p in w[1]).replace('\033[0m', '')


def payload(ip, s, p):
    o = ip.load(s, ('alias',) + tuple(p[1:3]))
    vs = [v for k, v in o[3] if isinstance(k, str) and k.endswith('::v')] if o[0] == 'obj' else []
    return ip.load(s, vs[0]) if len(vs) == 1 else None


def set_payload(ip, st, p, v):
    o = ip.load(st, ('alias',) + tuple(p[1:3]))
    for k, x in o[3]:
        if isinstance(k, str) and k.endswith('::v'):
            return ip.store(st, (p[1], p[2] + (k,)), v)
    return st


def empty(rep, use, where):
    got = use.only('null', State())
    n0 = len(rep.violations)
    rep.require(got == [NIL], 'C17:empty', 'a default-constructed object is %s' % say(got), where)
    st = State({O: NIL, OS: ('stream', ())})
    for fn in ('evaluate', 'accomplished', 'description'):
        rep.require(use.semantic(fn, st, REF), 'C17:empty:%s' % fn, 'calling %s on an empty object is not a semantic error' % fn, where)
    for u in ASKED:
        rep.require(use.semantic('as' + u, st, REF), 'C17:empty:as', 'an empty object as %s is not a semantic error' % u, where)
        for fn in ('is', 'fis', 'also', 'falso'):
            got = use.only(fn + u, st, REF)
            rep.require(got == [FALSE], 'C17:empty:%s' % fn, 'an empty object says %s to whether it is %s' % (say(got), u), where)
    ip, rets, throws = use('print', st, OUT, REF)
    rep.require(rets and not throws, 'C17:empty:print', 'an empty object cannot be printed', where)
    if len(rep.violations) == n0:
        rep.ok('empty objects', where)


def sharing(rep, use, start, where):
    """copies of an object are one object; rebinding leaves the others alone"""
    n0 = len(rep.violations)
    other = ('t', 'o2')
    good = True
    for kind in ('Plain', 'Full'):
        st, me = start[kind]
        ip, rets, throws = use('rebound', st.put(other, me), REF, ('sym', 'w'))
        good = good and rets and not throws
        for s, _ in rets:
            good = good and use.only('isFull', s, REF) == [TRUE] and payload(ip, s, ip.load(s, REF)) == ('sym', 'w') and ip.load(s, ('alias', other, ())) == me and payload(ip, s, me) == V
    rep.require(good, 'C17:rebind', 'rebinding an object does not make exactly that reference denote the new object', where)
    for fn in ('moved', 'copied'):
        ip, rets, throws = use(fn, State(), V)
        good = rets and not throws and all(use.only('isPlain', s.put(O, ip.load(s, v)), REF) == [TRUE] and payload(ip, s, ip.load(s, v)) == V for s, v in rets)
        rep.require(good, 'C17:make:value', 'an object made from a %s value does not hold that value' % fn, where)
    if len(rep.violations) == n0:
        rep.ok('rebinding and making from values', where)


def names(rep, use):
    where = OSI + 'src/utility/demangle.cpp'
    n0 = len(rep.violations)
    for n in ('Na', 'Na::b', 'Na::b::Cd', 'plain', 'a::plain'):
        full = n[1:] if n.startswith('N') else n
        got = use.only('demangled', State(), Sx(n))
        rep.require(got == [Sx(full)], 'C17:demangle', 'the symbol of %s is shown as %s' % (full, say(got)), where)
        got = use.only('typename_', State(), Sx(n))
        rep.require(got == [Sx(full.split('::')[-1])], 'C17:typename', 'the type %s is called %s' % (full, say(got)), where)
    if len(rep.violations) == n0:
        rep.ok('names of types', where)


def visiting(rep, use, start):
    where = OSI + 'include/openscenario_interpreter/object.hpp'
    n0 = len(rep.violations)
    for t, (st, me) in start.items():
        ip, rets, throws = use('visit', st, REF, ('sym', 'k'))
        if t in ('Plain', 'Full', 'Derived'):
            got = [ip.load(s, v) for s, v in rets]
            want = ip.arith(st, '+', V, ('sym', 'k'))
            rep.require(got == [want] and not throws, 'C17:visit', 'visiting an object of %s yields %s' % (t, say(got)), where)
        else:
            rep.require(throws and not rets, 'C17:visit:error', 'visiting an object of %s, for which there is no case, is no error' % t, where)
    if len(rep.violations) == n0:
        rep.ok('visitors', where)
