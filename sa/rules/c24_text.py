"""Errors and texts: an error keeps its kind and the whole of its explanation; folds, lists and overloads keep the order of what they are given."""
from ..facts import load
from ..absint import Interp, State, Sx, I, TRUE, FALSE, mkobj
from .c17_objects import cxa_demangle, type_name

OSI = 'openscenario/openscenario_interpreter/'
EXC = 'common/scenario_simulator_exception/include/scenario_simulator_exception/'
ERR, CAT, FOLD = EXC + 'exception.hpp', EXC + 'concatenate.hpp', EXC + 'fold.hpp'
INC = OSI + 'include/openscenario_interpreter/'
OFOLD, CURRY, OVER, PRINT, DEM = INC + 'functional/fold.hpp', INC + 'functional/curry.hpp', INC + 'utility/overload.hpp', INC + 'utility/print.hpp', INC + 'utility/demangle.hpp'
KINDS = ['AutowareError', 'SemanticError', 'SimulationError', 'SpecificationViolation', 'SyntaxError', 'Error']
A, B, C, D = (('sym', x) for x in 'abcd')
OS, XS, YS, TOK = ('o', 'os'), ('o', 'xs'), ('o', 'ys'), ('o', 'token')
OUT, RX, RY, RT = (('alias', r, ()) for r in (OS, XS, YS, TOK))
TOKEN = 'probe::Token'


def token(n):
    return mkobj(TOKEN, None, {TOKEN + '::n': ('sym', n)})


def shown(t):
    """the pieces that a text consists of, with the literal ones joined"""
    def flat(t):
        if t[0] == 's':
            return [t[1]] if t[1] else []
        if t[0] == 'i':
            return [str(t[1])]
        if t[0] == 'stream':
            return [x for p in t[1] for x in flat(p)]
        if t[0] == 'op' and t[1] == '+':
            return flat(t[2]) + flat(t[3])
        if t[0] == 'str' and len(t) == 2:
            return flat(t[1])
        if t[0] == 'cat':
            return [x for p in t[1:] for x in flat(p)]
        if t[0] == 'call' and t[1].startswith('std::basic_') and t[1].endswith('stream<char, std::char_traits<char>, std::allocator<char>>::str') and len(t) == 3:
            return flat(t[2])
        return [t]
    out = []
    for x in flat(t):
        if out and isinstance(x, str) and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return tuple(out)


def say(x):
    if not isinstance(x, tuple) or x and x[0] in ('i', 'b', 'sym', 'call', 'op', 'obj', 'ptr', 'nil', 'unk', 'void'):
        return str(x[1] if isinstance(x, tuple) and x[0] in ('i', 'b', 'sym') else x)[:160]
    return ''.join(p if isinstance(p, str) else '{%s}' % (p[1] if p[0] == 'sym' else str(p)[:60]) for p in x)


def explanation(x):
    from ..models import told_what
    return told_what(x)


class Use:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog

    def __call__(self, fn, *vals, st=None):
        ip = Interp(self.prog, hooks=[(r'std::type_info::name$', type_name), (r'__cxa_demangle$', cxa_demangle)], opaque=[r'^probe::[fg]$'])
        ip.inherited = True
        rets, throws = ip.run(self.prog.one('probe::' + fn), st or State(), None, list(vals))
        self.rep.analysed(ip)
        self.rep.count('paths', len(rets) + len(throws))
        return ip, rets, throws

    def value(self, id, text, where, fn, vals, want, st=None, read=None):
        """a use that never fails has one outcome"""
        ip, rets, throws = self(fn, *vals, st=st)
        got = list(dict.fromkeys((read or (lambda ip, s, v: ip.load(s, v)))(ip, s, v) for s, v in rets))
        ok = not throws and got == [want]
        self.rep.require(ok, 'C24:' + id, '%s: it is %s, not %s' % (text, 'an error' if throws else ' or '.join(map(say, got)) or 'nothing', say(want)), where)
        if ok:
            self.rep.ok(text, where)


def text(ip, s, v):
    return shown(ip.load(s, v))


def written(ip, s, v):
    w = ip.load(s, OUT)
    return shown(w) if w[0] == 'stream' else w


def call(n, *xs):
    return ('call', 'probe::' + n) + xs


def run(rep):
    rep.rule = ('abstract interpretation of every way to make an error, to join texts, to fold, curry and overload, and to print, instantiated for unknown values; '
                'what comes out is compared with the sequence of what was given')
    prog = load([OSI + 'src/utility/demangle.cpp'], probes=['text.cpp'])
    use = Use(rep, prog)
    errors(rep, use, prog)
    folds(rep, use)
    prints(rep, use)


def errors(rep, use, prog):
    st = State().put(TOK, token('n'))
    for k, kind in enumerate(KINDS):
        for fn, vals, want in (('throw' + kind, (A, B, RT), (A, B, '<', ('sym', 'n'), '> end')), ('short' + kind, (A,), (A,))):
            ip, rets, throws = use(fn, *vals, st=st)
            what = 'a %s made from %d parts' % (kind, len(vals) + (len(vals) > 1))
            good = not rets and throws and all(x[0] == 'obj' and x[1] == 'common::' + kind for _, x in throws)
            rep.require(good, 'C24:kind', '%s: it is not thrown as such' % what, ERR)
            got = [explanation(x) for _, x in throws]
            got = [None if g is None else shown(g) for g in got]
            rep.require(not good or all(g == want for g in got), 'C24:explanation', '%s: it says %s, not %s' % (what, [g and say(g) for g in got], say(want)), ERR)
            if good and all(g == want for g in got):
                rep.ok(what, ERR)
        chain = set(prog.bases('common::' + kind))
        rep.require('std::runtime_error' in chain and (kind == 'Error' or 'common::Error' in chain), 'C24:bases', 'a %s is no %s' % (kind, 'std::runtime_error' if 'std::runtime_error' not in chain else 'Error'), ERR)
        others = [o for o in KINDS[:-1] if o != kind and 'common::' + o in chain]
        rep.require(not others, 'C24:bases', 'a %s is also a %s' % (kind, ', '.join(others)), ERR)
        use.value('caught', 'what a %s says where it is caught as an Error' % kind, ERR, 'caught' + kind, (A, B), (A, B), read=text)
        use.value('caught', 'what a %s says where it is caught as a standard error' % kind, ERR, 'standard' + kind, (A, B), (A, B), read=text)
        use.value('told-apart', 'which handler takes a %s' % kind, ERR, 'kindOf' + kind, (A,), I(k + 1))
    for fn, kind in (('macroSemantic', 'SemanticError'), ('macroSimulation', 'SimulationError'), ('macroViolation', 'SpecificationViolation'), ('macroSyntax', 'SyntaxError')):
        ip, rets, throws = use(fn, A, B)
        good = not rets and throws and all(x[0] == 'obj' and x[1] == 'common::' + kind for _, x in throws)
        rep.require(good, 'C24:macro', 'the macro that throws a %s throws something else' % kind, ERR)
        for _, x in throws:
            e = explanation(x)
            g = shown(e) if e is not None else ()
            ok = len(g) == 3 and isinstance(g[0], str) and g[0].split(':')[0].endswith('text.cpp') and len(g[0].split(':')) == 3 and g[0].split(':')[1].isdigit() and g[0].endswith(': ') and g[1:] == (A, B)
            rep.require(ok or not good, 'C24:macro', 'what the %s of a macro says: %s, not the file, the line and the parts' % (kind, say(g)), ERR)
            if ok:
                rep.ok('what the %s of a macro says' % kind, ERR)
    use.value('concatenate', 'the text of one value', CAT, 'concatenate1', (A,), (A,), read=text)
    use.value('concatenate', 'the text of two values', CAT, 'concatenate2', (A, B), (A, B), read=text)
    use.value('concatenate', 'the text of four values', CAT, 'concatenate4', (A, B, RT, D), (A, B, '<', ('sym', 'n'), '>', D), st=st, read=text)


def folds(rep, use):
    f = lambda x, y: call('f', x, y)
    for pre, where in (('', FOLD), ('osi', OFOLD)):
        name = lambda n: pre + n if not pre else pre + n[0].upper() + n[1:]
        for fn, sides in (('left', 'left'), ('right', 'right')) + ((('fold', 'left'),) if pre else ()):
            say_ = 'folding %s values from the ' + sides
            deep = f(f(f(A, B), C), D) if sides == 'left' else f(A, f(B, f(C, D)))
            use.value('fold', say_ % 'one' + ' (%s)' % fn, where, name(fn) + '1', (A,), A)
            use.value('fold', say_ % 'two' + ' (%s)' % fn, where, name(fn) + '2', (A, B), f(A, B))
            use.value('fold', say_ % 'four' + ' (%s)' % fn, where, name(fn) + '4', (A, B, C, D), deep)
    use.value('curry', 'a function of four values that is given two and two', CURRY, 'curried4', (A, B, C, D), call('g', A, B, C, D))
    use.value('curry', 'a function of two values that is given one and one', CURRY, 'curried2', (A, B), f(A, B))
    use.value('curry', 'what a function was given first, after the variable has changed', CURRY, 'curriedKeeps', (A, B, C), f(A, B))
    use.value('curry', 'a function that was given one value, used twice', CURRY, 'curriedTwice', (A, B, C), f(f(A, B), f(A, C)))
    for k, t in enumerate('PQR'):
        use.value('overload', 'the function for the %s type of three' % ('first', 'second', 'last')[k], OVER, 'overload' + t, (A,), f(I(k + 1), A))
    use.value('overload', 'the only function', OVER, 'overloadOnly', (A,), f(I(1), A))


def prints(rep, use):
    out = lambda **k: State({OS: ('stream', ()), XS: k.get('xs', ('list', ())), YS: k.get('ys', ('list', ())), TOK: token('n')})
    seq = lambda *x: ('list', x)
    p = lambda id, what, fn, vals, want, **k: use.value(id, what, PRINT, fn, vals, want, st=out(**k), read=written)
    p('print', 'printing a value', 'printInt', (OUT, A), (A,))
    p('print', 'printing a value with an operator of its own', 'printToken', (OUT, RT), ('<', ('sym', 'n'), '>')[0:3])
    for xs, want in (((), ('[]',)), ((A,), ('[', A, ']')), ((A, B), ('[', A, ', ', B, ']')), ((A, B, C), ('[', A, ', ', B, ', ', C, ']'))):
        p('print', 'printing a sequence of %d values' % len(xs), 'printVector', (OUT, RX), want, xs=seq(*xs))
    p('print', 'printing a list of values with an operator of their own', 'printList', (OUT, RX), ('[<', ('sym', 'u'), '>, <', ('sym', 'v'), '>]'), xs=seq(token('u'), token('v')))
    p('print', 'printing a sequence of sequences', 'printNested', (OUT, RX), ('[[', A, ', ', B, '], [], [', C, ']]'), xs=seq(seq(A, B), seq(), seq(C)))
    p('print', 'printing one sequence after another', 'printTwice', (OUT, RX, RY), ('[', A, ', ', B, '][', C, ', ', D, ']'), xs=seq(A, B), ys=seq(C, D))
    pair = lambda k: mkobj('std::pair', None, {'std::pair::first': k, 'std::pair::second': ('sym', 'of ' + k[1])})
    for ks, want in (((), ()), ((A,), (A,)), ((A, B), (A, ' and ', B)), ((A, B, C), (A, ', ', B, ' and ', C)), ((A, B, C, D), (A, ', ', B, ', ', C, ' and ', D))):
        p('keys', 'printing the keys of %d entries' % len(ks), 'printKeys', (OUT, RX), want, xs=seq(*map(pair, ks)))
    for n, want in (('Na::b::C', 'C'), ('NC', 'C'), ('Nopenscenario_interpreter::syntax::Story', 'Story'), ('plain', 'plain')):
        use.value('typename', 'the name of the type %s' % n, DEM, 'typenameOf', (Sx(n),), (want,), read=text)
    use.value('typename', 'the name of a type by its description', DEM, 'typenameOfInfo', (('ty', 'a::Entity'),), ('Entity',), read=text)
