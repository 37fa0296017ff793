"""Terms of the abstract domain as expressions over the reals, with roots and angles, and the identities between them.

Two expressions are the same if their difference has the normal form zero; where the normal form is not reached, the two
expressions are compared at generic points of their symbols, to fifty digits: a difference there is a witness."""
import functools
import random
from . import algebra
from .absint import Undecided
import sympy
import mpmath
from sympy import Symbol, Integer, Rational, sqrt, cancel, expand

ONE = {'sqrt': sympy.sqrt, 'sin': sympy.sin, 'cos': sympy.cos, 'tan': sympy.tan, 'acos': sympy.acos, 'asin': sympy.asin, 'atan': sympy.atan, 'exp': sympy.exp, 'log': sympy.log,
       'cbrt': lambda x: sympy.sign(x) * sympy.Abs(x) ** Rational(1, 3), 'abs': sympy.Abs, 'fabs': sympy.Abs, 'floor': sympy.floor, 'ceil': sympy.ceiling}
CONSTANTS = {3.141592653589793: sympy.pi, 6.283185307179586: 2 * sympy.pi, 1.5707963267948966: sympy.pi / 2, 0.7853981633974483: sympy.pi / 4, 1.7320508075688772: sympy.sqrt(3), 0.8660254037844386: sympy.sqrt(3) / 2}


MP = mpmath.MPContext()
MP.dps = 50
EPS = MP.mpf(10) ** -30
NUMERIC = {n: getattr(MP, n) for n in ('sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'atan2', 'floor', 'ceil')}
NUMERIC.update(cbrt=lambda x: MP.sign(x) * abs(x) ** (MP.mpf(1) / 3), abs=abs, fabs=abs, hypot=lambda *a: MP.sqrt(sum(x * x for x in a)), pow=lambda a, b: a ** int(b) if b == int(b) else MP.power(a, b),
               min=min, fmin=min, max=max, fmax=max, clamp=lambda x, lo, hi: max(lo, min(hi, x)), copysign=lambda a, b: abs(a) if b >= 0 else -abs(a),
               rotation_angle=lambda w, x, y, z: 2 * MP.atan2(MP.sqrt(x * x + y * y + z * z), abs(w)), round=lambda x: MP.floor(x + MP.mpf(1) / 2) if x >= 0 else MP.ceil(x - MP.mpf(1) / 2))
EDGE = MP.mpf(10) ** -40
for _n in ('acos', 'asin'):                                 # what is 1 but for the fifty digits is 1
    NUMERIC[_n] = lambda x, f=NUMERIC[_n]: f(MP.sign(x) if 1 < abs(x) < 1 + EDGE else x)
NUMERIC['sqrt'] = lambda x: MP.sqrt(MP.mpf(0) if -EDGE < x < 0 else x)


class Point(dict):
    def __init__(self, d):
        super().__init__(d)
        self.key = tuple(sorted(((str(k), v) for k, v in d.items()), key=lambda kv: kv[0]))


def number(e, point):
    v = sympy.sympify(e).subs(point) if not isinstance(e, MP.mpf) else e
    if isinstance(v, MP.mpf):
        return v
    if v in (sympy.oo, -sympy.oo):
        return MP.inf if v == sympy.oo else -MP.inf
    v = v.evalf(50, maxn=400)
    if v.is_number and v.is_real is False and v.is_finite:
        r, i = v.as_real_imag()
        if abs(i) < Rational(1, 10 ** 40):
            v = r
    return MP.mpf(v._to_mpmath(200)) if v.is_number and v.is_real and v != sympy.nan else MP.nan


def points(syms, n, domains=(), seed=21):
    """generic points: rational, of the sign that a symbol is known to have, or of its domain"""
    rnd = random.Random(seed)
    domains = dict(domains)
    out = []
    for _ in range(n):
        d = {}
        for s in sorted(syms, key=str):
            if s in domains:
                lo, hi = domains[s]
                d[s] = lo + (hi - lo) * Rational(rnd.randint(1, 1023), 1024)
            else:
                v = Rational(rnd.randint(64, 4095), 1024)           # short binary numbers, of which sums and products are exact
                d[s] = v if s.is_positive or s.is_nonnegative else -v if s.is_negative else v * rnd.choice((1, -1))
        out.append(Point(d))
    return out


def initial(t):
    """the number that a field of a message has to begin with"""
    if t[0] == 'field' and isinstance(t[2], str) and t[2].startswith('geometry_msgs::msg::') and t[1][:1] == ('new',) and len(t[1]) == 2:
        return int(t[2] == 'geometry_msgs::msg::Quaternion::w')
    if t[0] == 'field' and isinstance(t[2], str) and t[2].startswith('geometry_msgs::msg::'):
        u = t[1]
        while u[0] == 'field':
            u = u[1]
        if u[:1] == ('new',) and len(u) == 2 and u[1].startswith('geometry_msgs::msg::'):
            return int(t[2] == 'geometry_msgs::msg::Quaternion::w')
    return None


def short(n):
    return n.split('::')[-1]


class Env:
    """values of the symbols, and of terms that stand for something else"""
    def __init__(self, values=(), functions=()):
        self.values, self.functions, self.memo, self.signs, self.numbers = dict(values), dict(functions), {}, {}, {}

    def val(self, t):
        if t not in self.memo:
            self.memo[t] = self._val(t)
        return self.memo[t]

    def _val(self, t):
        if t in self.values:
            return self.values[t]
        k = t[0]
        if k == 'i' or k == 'b':
            return Integer(int(t[1]))
        if k == 'f':
            x = float(t[1])
            if x in (float('inf'), -float('inf')):
                return sympy.oo if x > 0 else -sympy.oo
            for c, e in CONSTANTS.items():
                if abs(x) == c:
                    return e if x > 0 else -e
            return Integer(int(x)) if x.is_integer() else Rational(x) if x.as_integer_ratio()[0].bit_length() < 20 else sympy.nsimplify(x, rational=True)
        if k == 'op' and len(t) == 4:
            a, b = self.val(t[2]), self.val(t[3])
            return a + b if t[1] == '+' else a - b if t[1] == '-' else a * b if t[1] == '*' else a / b if t[1] == '/' else self.fail(t)
        if k == 'un' or (k == 'op' and len(t) == 3):
            a = self.val(t[2])
            return -a if t[1] == '-' else a if t[1] == '+' else self.fail(t)
        if k in ('cast', 'wrap'):
            return self.val(t[-1])
        if k == 'call':
            n, a = short(t[1]), t[2:]
            if n in self.functions:
                return self.functions[n](*[self.val(x) for x in a])
            if n in ONE and len(a) == 1:
                return ONE[n](self.val(a[0]))
            if n == 'hypot':
                return sqrt(sum(self.val(x) ** 2 for x in a))
            if n == 'pow' and len(a) == 2:
                return self.val(a[0]) ** self.val(a[1])
            if n == 'atan2' and len(a) == 2:
                return sympy.atan2(self.val(a[0]), self.val(a[1]))
            if n in ('min', 'fmin', 'max', 'fmax') and len(a) == 2:
                return (sympy.Min if 'min' in n else sympy.Max)(self.val(a[0]), self.val(a[1]))
            if n == 'clamp' and len(a) == 3:
                return sympy.Max(self.val(a[1]), sympy.Min(self.val(a[2]), self.val(a[0])))
            if n == 'rotation_angle':
                w, x, y, z = [self.val(x) for x in a]
                return 2 * sympy.atan2(sqrt(x * x + y * y + z * z), sympy.Abs(w))
        if k == 'sym':
            return Symbol(t[1], real=True)
        if initial(t) is not None:
            return Integer(initial(t))
        return self.fail(t)

    def fail(self, t):
        raise Undecided('a value that is no arithmetic: %s' % str(t)[:160])

    def at(self, t, point):
        """a term at a point, to fifty digits: nan if it is no number"""
        memo = self.numbers.setdefault(point.key, {})
        if t not in memo:
            memo[t] = self.round(t, self._at(t, point), point)
        return memo[t]

    def round(self, t, v, point):
        return v

    def _at(self, t, point):
        if t in self.values:
            return number(self.values[t], point)
        k = t[0]
        if k in ('i', 'b'):
            return MP.mpf(int(t[1]))
        if k == 'f':
            x = float(t[1])
            return number(self._val(t), point) if abs(x) in CONSTANTS else MP.mpf(x)
        if k == 'op' and len(t) == 4:
            a, b = self.at(t[2], point), self.at(t[3], point)
            if t[1] == '/':
                return MP.nan if b == 0 and (a == 0 or MP.isnan(a)) else MP.inf * MP.sign(a) if b == 0 else a / b
            return a + b if t[1] == '+' else a - b if t[1] == '-' else a * b if t[1] == '*' else self.fail(t)
        if k == 'un' or (k == 'op' and len(t) == 3):
            a = self.at(t[2], point)
            return -a if t[1] == '-' else a if t[1] == '+' else self.fail(t)
        if k in ('cast', 'wrap'):
            return self.at(t[-1], point)
        if k == 'trunc':
            a = self.at(t[-1], point)
            return a if not MP.isfinite(a) else MP.floor(a) if a >= 0 else MP.ceil(a)
        if k == 'call':
            n = short(t[1])
            a = [self.at(x, point) for x in t[2:]]
            if n in self.functions:
                return self.functions[n](*a)
            f = NUMERIC.get(n)
            if f is None:
                self.fail(t)
            if any(MP.isnan(x) for x in a):
                return MP.nan
            try:
                v = f(*a)
            except (ValueError, ZeroDivisionError, TypeError):
                return MP.nan
            return v if isinstance(v, MP.mpf) else MP.nan if isinstance(v, MP.mpc) else MP.mpf(v)
        if k == 'b2i':
            b = self.truth(t[1], point)
            return MP.mpf(int(b)) if b is not None else self.fail(t)
        if k == 'sym':
            s = Symbol(t[1], real=True)
            if s in point:
                return number(s, point)
        if initial(t) is not None:
            return MP.mpf(initial(t))
        return self.fail(t)

    def truth(self, t, point):
        """a term that is true or false, at a point: None if it is not understood"""
        k = t[0]
        if k == 'b':
            return bool(t[1])
        if k == 'call':
            n = short(t[1])
            if n in ('isnan', 'isfinite', 'isinf'):
                v = self.at(t[2], point)
                return bool(MP.isnan(v) if n == 'isnan' else MP.isfinite(v) if n == 'isfinite' else MP.isinf(v))
            if n == 'signbit':
                v = self.at(t[2], point)
                return bool(v < 0)
        if k == 'rel' and len(t) == 3:
            return self.relation(t, point)
        if k in ('un', 'op') and t[1] == '!' and len(t) == 3:
            v = self.truth(t[2], point)
            return None if v is None else not v
        if k == 'op' and t[1] in ('&&', '||') and len(t) == 4:
            a, b = self.truth(t[2], point), self.truth(t[3], point)
            return None if a is None or b is None else (a and b) if t[1] == '&&' else (a or b)
        if k == 'op' and t[1] in ('<', '<=', '>', '>=', '==', '!=') and len(t) == 4:
            r = self.relation(('rel', t[2], t[3]), point)
            if r is None:
                return None
            return r in {'<': '<', '<=': '<=', '>': '>', '>=': '>=', '==': '=', '!=': '<>'}[t[1]]
        return None

    def relation(self, k, point):
        """how two terms compare at a point: '' if one of them is no number, None if it is not understood"""
        try:
            a, b = self.at(k[1], point), self.at(k[2], point)
        except Undecided:
            return None
        if MP.isnan(a) or MP.isnan(b):
            return ''
        if a == b:
            return '='
        return '=' if MP.isfinite(a) and MP.isfinite(b) and abs(a - b) < EPS * (1 + min(abs(b), 10 ** 6)) else '<' if a < b else '>'

    def holds(self, facts, point):
        """whether what a path has found out holds at a point: False if something does not, None if something is not understood"""
        out = True
        for k, v in facts.items():
            if k[0] == 'rel':
                r = self.relation(k, point)
                ok = None if r is None else (r in v if r else False)
            else:
                t = None if v[0] != 'b' else self.truth(k, point)
                ok = None if t is None else t == bool(v[1])
            if ok is False:
                return False
            if ok is None:
                out = None
        return out

    def refuted(self, facts):
        """whether a relation of a path contradicts what is known of the symbols"""
        for k, v in facts.items():
            if k[0] != 'rel':
                continue
            try:
                d = self.val(k[1]) - self.val(k[2])
            except Undecided:
                continue
            if d not in self.signs:
                try:
                    self.signs[d] = algebra.sign(d) if rational(d) else None
                except Exception:
                    self.signs[d] = None
            if self.signs[d] and self.signs[d] not in v:
                return True
        return False


def unit(n):
    """a quaternion of length one, by its projection"""
    a, b, c = (Symbol(n + x, real=True) for x in 'abc')
    s = a * a + b * b + c * c
    return dict(w=(1 - s) / (1 + s), x=2 * a / (1 + s), y=2 * b / (1 + s), z=2 * c / (1 + s))


def qmul(a, b):
    return dict(w=a['w'] * b['w'] - a['x'] * b['x'] - a['y'] * b['y'] - a['z'] * b['z'],
                x=a['w'] * b['x'] + a['x'] * b['w'] + a['y'] * b['z'] - a['z'] * b['y'],
                y=a['w'] * b['y'] + a['y'] * b['w'] + a['z'] * b['x'] - a['x'] * b['z'],
                z=a['w'] * b['z'] + a['z'] * b['w'] + a['x'] * b['y'] - a['y'] * b['x'])


def conj(a):
    return dict(w=a['w'], x=-a['x'], y=-a['y'], z=-a['z'])


def rotate(q, v):
    """q v q* of a quaternion and (x, y, z)"""
    r = qmul(qmul(q, dict(w=Integer(0), x=v[0], y=v[1], z=v[2])), conj(q))
    return r['x'], r['y'], r['z']


class Verdict:
    def __init__(self):
        self.proved = self.compared = 0


def agree(paths, env, expected, domains=(), n=8, given=(), verdict=None, as_set=False, within=None):
    """Whether the paths of a function have the expected outcome all over a case: None, or a witness of the contrary.

    paths: [(facts, outcome)], where an outcome is a tuple of terms (numbers, or 'b' terms), or a string (an error).
    expected: a tuple of expressions (or True/False), a string, or a function of the point.
    The case is what env says of the symbols.  Paths that contradict it are left out; the outcomes of the others are compared
    as normal forms, and where those differ at generic points of the case, each on the path that it lies on.
    as_set: the values of an outcome are a set of numbers.  within: how far a value may be off, at a point."""
    verdict = verdict or Verdict()
    live = [(f, o) for f, o in paths if not env.refuted(f)]
    if not live:
        return 'no path is one of it'

    def like(o, exp):
        if isinstance(o, str) or isinstance(exp, str):
            return o == exp
        if len(o) != len(exp):
            return False
        for t, x in zip(o, exp):
            if x is True or x is False:
                if t != ('b', x):
                    return False
                continue
            if not normal(env.val(t) - x):
                return False
        return True
    try:
        if not callable(expected) and not as_set and all(like(o, expected) for _, o in live):
            verdict.proved += 1
            return None
    except Undecided:
        pass
    syms = set(given)
    for v in env.values.values():
        syms |= getattr(v, 'free_symbols', set())
    if not callable(expected) and not isinstance(expected, str):
        for v in expected:
            syms |= getattr(v, 'free_symbols', set())
    for _, o in live:                                       # a symbol that only the outcomes speak of is any number
        for t in () if isinstance(o, str) else o:
            syms |= {Symbol(x[1], real=True) for x in named(t) if x not in env.values}
    hit = 0
    for p in points(syms, n, domains):
        exp = expected(p) if callable(expected) else expected
        on = [(f, o, env.holds(f, p)) for f, o in live]
        sure = [o for f, o, h in on if h]
        if not sure:
            sure = [o for f, o, h in on if h is None]
            if not sure:
                return 'no path is one of it, at %s' % show(p)
            if len(sure) > 1 and len(set(sure)) > 1:
                raise Undecided('which of the paths is taken is not understood: %s' % str([f for f, o, h in on if h is None][0])[:300])
        hit += 1
        for o in sure[:1]:
            if isinstance(o, str) or isinstance(exp, str):
                if o != exp:
                    return 'it is %s, not %s, at %s' % (told(o, env, p), told(exp, env, p), show(p))
                continue
            if as_set:
                a, b = distinct(env.at(t, p) for t in o), distinct(number(x, p) for x in exp)
                if len(a) != len(b) or not all(abs(x - y) < MP.mpf(10) ** -12 * (1 + abs(y)) for x, y in zip(a, b)):
                    return 'it is {%s}, not {%s}, at %s' % (', '.join(map(brief, a)), ', '.join(map(brief, b)), show(p))
                continue
            if len(o) != len(exp):
                return 'it consists of %d values, not %d, at %s' % (len(o), len(exp), show(p))
            for i, (t, x) in enumerate(zip(o, exp)):
                if x is True or x is False:
                    b = env.truth(t, p)
                    if b is None:
                        raise Undecided('a truth value that is not understood: %s' % str(t)[:200])
                    if b is not x:
                        return 'it is %s, not %s, at %s' % (b, x, show(p))
                    continue
                a, b = env.at(t, p), number(x, p)
                if MP.isnan(a) or MP.isnan(b):
                    if MP.isnan(a) and MP.isnan(b):
                        continue
                    return 'value %d is %s, not %s, at %s' % (i, brief(a), brief(b), show(p))
                if a == b:
                    continue
                if not abs(a - b) < (within(p) if within else MP.mpf(10) ** -20 * (1 + abs(b))):
                    return 'value %d is %s, not %s, at %s' % (i, brief(a), brief(b), show(p))
    verdict.compared += 1
    return None


@functools.lru_cache(maxsize=100000)
def named(t):
    """the symbols of a term"""
    if not isinstance(t, tuple):
        return frozenset()
    if t[:1] == ('sym',) and len(t) == 2 and isinstance(t[1], str):
        return frozenset([t])
    return frozenset().union(*[named(x) for x in t]) if t else frozenset()


def distinct(values):
    out = []
    for v in sorted(values, key=lambda v: (bool(MP.isnan(v)), 0 if MP.isnan(v) else v)):
        if not out or MP.isnan(v) or not abs(v - out[-1]) < MP.mpf(10) ** -12 * (1 + abs(v)):
            out.append(v)
    return out


@functools.lru_cache(maxsize=200000)
def normal(e):
    e = sympy.sympify(e)
    if e == 0:
        return True
    if e.has(sympy.oo) or e.has(sympy.zoo):
        return False
    try:
        if rational(e):
            return cancel(e) == 0
        return e.count_ops() < 120 and expand(e) == 0
    except Exception:
        return False


def rational(e):
    return all(x.is_Symbol or x.is_number or x.is_Add or x.is_Mul or (x.is_Pow and x.exp.is_integer) for x in sympy.preorder_traversal(e))


def brief(v):
    return 'no number' if MP.isnan(v) else MP.nstr(v, 6)


def told(o, env, p):
    return o if isinstance(o, str) else 'an answer'


def show(p):
    return ', '.join('%s = %s' % (k, sympy.N(v, 4)) for k, v in sorted(p.items(), key=lambda kv: str(kv[0])))[:160]
