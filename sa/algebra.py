"""Terms of the abstract domain as rational functions over the reals, with what a case says about their signs.

A case maps symbols to expressions (a start in a cell, say, is an integer, or an integer and a part between 0 and 1).
Under a case, `val` gives the normal form of a term, `sign` its sign where it is settled, and `relation` reads a fact of a
path as a relation between two given expressions."""
import functools
import sys
try:
    import sympy
except ImportError:                                          # it lies in the environment of the tools that are installed here
    sys.path.append('/opt/veriftools/pyvenv/lib/python%d.%d/site-packages' % sys.version_info[:2])
    import sympy
from sympy import oo, cancel, factor, Integer, Float, Rational, Symbol

FRACTION = set()                # symbols that lie strictly between 0 and 1


def fraction(name):
    s = Symbol(name, positive=True)
    FRACTION.add(s)
    return s


@functools.lru_cache(maxsize=200000)
def norm(e):
    return cancel(e) if e.is_finite is not False else e


@functools.lru_cache(maxsize=200000)
def sign(e):
    """'<', '=' or '>' if it is settled, else None"""
    if e == oo:
        return '>'
    if e == -oo:
        return '<'
    e = norm(e)
    if e == 0:
        return '='
    for x in (e, factor(e)):
        if x.is_positive:
            return '>'
        if x.is_negative:
            return '<'
    return bounded(e)


def side(e):
    """the signs that an expression may have"""
    e = norm(e)
    return {'=', '>'} if e.is_nonnegative else {'<', '='} if e.is_nonpositive else {'<', '=', '>'}


def bounded(e):
    """the sign of a linear expression over symbols in (0, 1) and symbols of known sign"""
    d = e.as_coefficients_dict()
    lo = hi = 0
    for m, c in d.items():
        if not c.is_real:
            return None
        if m == 1:
            a, b = c, c
        elif m in FRACTION:
            a, b = (0, c) if c > 0 else (c, 0)
        elif (m.is_nonnegative and c > 0) or (m.is_nonpositive and c < 0):
            a, b = 0, oo
        elif (m.is_nonnegative and c < 0) or (m.is_nonpositive and c > 0):
            a, b = -oo, 0
        else:
            return None
        lo, hi = lo + a, hi + b
    strict = any(m in FRACTION for m in d)
    if lo > 0 or (lo == 0 and strict):
        return '>'
    if hi < 0 or (hi == 0 and strict):
        return '<'
    return None


def floor(e):
    """the integer below, if the expression is an integer and at most one part of a unit"""
    whole, rest = 0, 0
    for m, c in norm(e).as_coefficients_dict().items():
        if (m == 1 or m.is_integer) and c == int(c):
            whole += int(c) * m
        elif m in FRACTION and rest == 0 and c in (1, -1):
            rest = c
        elif m == 1 and rest == 0:
            k = sympy.floor(c)
            whole, rest = whole + k, 0
        else:
            return None
    return whole - (1 if rest == -1 else 0)


def number(x):
    return Integer(x) if isinstance(x, int) or float(x).is_integer() else sympy.nsimplify(x, rational=True)


class Case:
    def __init__(self, values, text=''):
        self.values, self.text, self.memo, self.orders, self.relations, self.sides = dict(values), text, {}, {}, {}, {}

    def val(self, t):
        if t not in self.memo:
            self.memo[t] = self._val(t)
        return self.memo[t]

    def _val(self, t):
        if t in self.values:
            return self.values[t]
        k = t[0]
        if k == 'i':
            return Integer(t[1])
        if k == 'f':
            x = float(t[1])
            return oo if x == float('inf') else -oo if x == float('-inf') else None if x != x else number(x)
        if k == 'b':
            return Integer(int(t[1]))
        if k == 'op' and len(t) == 4:
            a, b = self.val(t[2]), self.val(t[3])
            if a is None or b is None:
                return None
            return self.arith(t[1], a, b)
        if (k == 'op' and len(t) == 3) or k == 'un':
            a = self.val(t[2])
            return None if a is None else -a if t[1] == '-' else a if t[1] == '+' else None
        if k in ('trunc', 'cast', 'wrap') or (k == 'call' and t[1] in ('floor', 'ceil', 'trunc', 'abs', 'fabs', 'std::abs', 'round')):
            a = self.val(t[-1])
            if a is None or a in (oo, -oo):
                return None if a is None or k != 'call' or t[1] not in ('abs', 'fabs', 'std::abs') else oo
            what = t[1] if k == 'call' else 'trunc'
            if k in ('cast', 'wrap'):
                return a
            s = sign(a)
            if what in ('abs', 'fabs', 'std::abs'):
                return None if s is None else -a if s == '<' else a
            f = floor(a)
            if f is None:
                return None
            if what == 'floor' or f == norm(a):
                return f
            if what == 'ceil':
                return f + 1
            if what == 'trunc':
                return f if s == '>' else f + 1 if s == '<' else None
            return None
        if k == 'call' and t[1] == 'copysign':
            a, b = self.val(t[2]), self.val(t[3])
            if a is None or b is None:
                return None
            s, sb = sign(a), sign(b)
            if s is None or sb is None:
                return None
            m = -a if s == '<' else a
            return -m if sb == '<' else m
        if k == 'call' and t[1] in ('min', 'max', 'fmin', 'fmax') and len(t) == 4:
            a, b = self.val(t[2]), self.val(t[3])
            s = None if a is None or b is None else self.order(a, b)
            if s is None:
                return None
            return a if (s != '>') == (t[1][-3:] == 'min') else b
        return None

    def arith(self, op, a, b):
        inf = [x for x in (a, b) if x in (oo, -oo)]
        if op == '/':
            s = sign(b)
            if s == '=':                                    # a zero that comes out of a difference is a positive one
                sa = sign(a)
                return oo if sa == '>' else -oo if sa == '<' else None
            if b in (oo, -oo):
                return Integer(0) if not (a in (oo, -oo)) else None
            if a in (oo, -oo):
                return None if s is None else a if s == '>' else -a
            return norm(a / b)
        if inf:
            if op in '+-':
                if len(inf) == 2:
                    return None
                return a if a in (oo, -oo) else (b if op == '+' else -b)
            if op == '*':
                sa, sb = sign(a), sign(b)
                if None in (sa, sb) or '=' in (sa, sb):
                    return None
                return oo if sa == sb else -oo
            return None
        if op == '+':
            return norm(a + b)
        if op == '-':
            return norm(a - b)
        if op == '*':
            return norm(a * b)
        return None

    def order(self, a, b):
        """how two expressions compare, if it is settled"""
        if a in (oo, -oo) or b in (oo, -oo):
            return '=' if a == b else '>' if a == oo or b == -oo else '<'
        return sign(a - b)

    def relation(self, fact, a, b):
        """what a fact of a path ('rel', s, t) -> relations says of how a compares with b: a set of relations, or None"""
        key = (fact, a, b)
        if key not in self.relations:
            self.relations[key] = self._relation(fact, a, b)
        return self.relations[key]

    def _relation(self, fact, a, b):
        (_, s, t), rels = fact
        s, t = self.val(s), self.val(t)
        if s is None or t is None or {s, t, a, b} & {oo, -oo}:
            return None
        d, e = norm(s - t), norm(a - b)
        if e == 0 or d == 0:
            return None
        q = norm(d / e)
        k = sign(q)
        if k == '>':
            return set(rels)
        if k == '<':
            return {{'<': '>', '>': '<', '=': '='}[r] for r in rels}
        return None

    def known(self, facts, a, b):
        """all that a path says of how a compares with b"""
        if (a, b) not in self.orders:
            self.orders[a, b] = self.order(a, b)
        o = self.orders[a, b]
        out = {o} if o else {'<', '=', '>'} if {a, b} & {oo, -oo} else side(a - b)
        for k, rels in facts.items():
            if k[0] == 'rel':
                r = self.relation((k, rels), a, b)
                if r is not None:
                    out &= r
        return out

    def possible(self, facts):
        """whether the path is one of this case, as far as its facts are settled"""
        for k, rels in facts.items():
            if k[0] != 'rel':
                continue
            if k not in self.orders:
                s, t = self.val(k[1]), self.val(k[2])
                self.orders[k] = None if s is None or t is None else self.order(s, t)
            o = self.orders[k]
            if o is not None and o not in rels:
                return False
            if o is None and not rels & self.signs(k):
                return False
        return True

    def signs(self, k):
        """what is left open of the relation of two terms"""
        if k not in self.sides:
            s, t = self.val(k[1]), self.val(k[2])
            self.sides[k] = set('<=>') if s is None or t is None or {s, t} & {oo, -oo} else side(s - t)
        return self.sides[k]
