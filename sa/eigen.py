"""Small vectors, matrices and quaternions of Eigen (and tf2), element by element, for terms of the abstract domain."""
import re
from .absint import mkobj, of_get, VOID

MAT = re.compile(r'Eigen::(?:Matrix|Vector|Array)<\w+, (-?\d+)(?:, (-?\d+))?')


def mat(r, c, es):
    return mkobj('Eigen::Matrix<double, %d, %d>' % (r, c), ('mat', r, c), {('e', i): x for i, x in enumerate(es)})


def quat(w, x, y, z):
    return mkobj('Eigen::Quaternion<double>', ('quat',), {('q', 'w'): w, ('q', 'x'): x, ('q', 'y'): y, ('q', 'z'): z})


def dims(v):
    return v[2][1:3] if is_mat(v) else None


def is_mat(v):
    return v[0] == 'obj' and isinstance(v[2], tuple) and v[2][:1] == ('mat',)


def is_quat(v):
    return v[0] == 'obj' and v[2] == ('quat',)


def els(v):
    n = v[2][1] * v[2][2]
    d = dict(v[3])
    return [d[('e', i)] for i in range(n)]


def q4(v):
    d = dict(v[3])
    return [d[('q', k)] for k in 'wxyz']


class Ring:
    """arithmetic on terms, with what is trivially so about 0 and 1"""
    def __init__(self, ip, st):
        self.ip, self.st = ip, st

    def op(self, o, a, b):
        if a[0] in 'if' and b[0] in 'if' and a[0] in ('i', 'f') and b[0] in ('i', 'f'):
            return self.ip.arith(self.st, o, a, b)
        zero = lambda t: t in (('i', 0), ('f', 0.0))
        one = lambda t: t in (('i', 1), ('f', 1.0))
        if o == '+':
            if zero(a):
                return b
            if zero(b):
                return a
        if o == '-' and zero(b):
            return a
        if o == '*':
            if zero(a) or zero(b):
                return ('f', 0.0)
            if one(a):
                return b
            if one(b):
                return a
        if o == '/' and one(b):
            return a
        return self.ip.arith(self.st, o, a, b)

    def add(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.op('+', r, x)
        return r

    def mul(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.op('*', r, x)
        return r

    def sub(self, a, b):
        return self.op('-', a, b)

    def neg(self, a):
        return self.op('*', ('f', -1.0), a) if a[0] not in ('i', 'f') else (a[0], -a[1])

    def qmul(self, a, b):
        aw, ax, ay, az = a
        bw, bx, by, bz = b
        m, add, sub = self.mul, self.add, self.sub
        return [sub(sub(sub(m(aw, bw), m(ax, bx)), m(ay, by)), m(az, bz)),
                sub(add(m(aw, bx), m(ax, bw), m(ay, bz)), m(az, by)),
                sub(add(m(aw, by), m(ay, bw), m(az, bx)), m(ax, bz)),
                sub(add(m(aw, bz), m(az, bw), m(ax, by)), m(ay, bx))]

    def rotation(self, q):
        w, x, y, z = q
        m, add, sub = self.mul, self.add, self.sub
        one, two = ('f', 1.0), ('f', 2.0)

        def d(a, b):
            return sub(one, m(two, add(m(a, a), m(b, b))))

        def s(a, b, c, d_, sg):
            t = (add if sg > 0 else sub)(m(a, b), m(c, d_))
            return m(two, t)
        return [d(y, z), s(x, y, w, z, -1), s(x, z, w, y, 1), s(x, y, w, z, 1), d(x, z), s(y, z, w, x, -1), s(x, z, w, y, -1), s(y, z, w, x, 1), d(x, y)]

    def mmul(self, a, b):
        (r, n), (n2, c) = dims(a), dims(b)
        if n != n2:
            return None
        A, B = els(a), els(b)
        return mat(r, c, [self.add(*[self.mul(A[i * n + k], B[k * c + j]) for k in range(n)]) for i in range(r) for j in range(c)])

    def sqrt(self, x):
        return ('call', 'sqrt', x)


def last(name):
    depth = 0
    for i in range(len(name) - 1, 0, -1):
        if name[i] == '>' and not name[max(0, i - 1):i + 1] == '->' and 'operator' not in name[max(0, i - 10):i]:
            depth += 1
        elif name[i] == '<' and depth:
            depth -= 1
        elif not depth and name[i - 1:i + 1] == '::':
            return name[i + 1:]
    return name


def model(ip, st, e, o, args, f):
    name = f['n']
    fn = last(name)
    out = []
    ctor = e.get('k') == 'ctor' or re.match(r'(Matrix|Quaternion|AngleAxis|Vector|CommaInitializer|Translation)$', re.sub(r'<.*', '', fn)) and o is None
    for s, vals in ip.args(args, f, st):
        vs = [ip.load(s, v) for v in vals]
        R = Ring(ip, s)
        v = None
        if ctor:
            v = make(ip, s, R, e.get('t') or name, vs)
        else:
            r = member(ip, s, R, fn, name, o, vals, vs)
            if r is not None:
                if isinstance(r, tuple) and len(r) == 2 and hasattr(r[0], 'put'):
                    out.append(r)
                    continue
                v = r
        if v is None:
            return None
        out.append((s, v))
    return out


def make(ip, s, R, t, vs):
    t = re.sub(r'^const ', '', t)
    if 'Quaternion<' in t[:24]:
        if len(vs) == 4:
            return quat(*vs)
        if len(vs) == 1 and is_quat(vs[0]):
            return vs[0]
        if len(vs) == 1 and vs[0][0] == 'obj' and vs[0][2] == ('aa',):
            d = dict(vs[0][3])
            h = R.op('/', d['angle'], ('f', 2.0))
            c, n = ('call', 'cos', h), ('call', 'sin', h)
            return quat(c, *[R.mul(n, a) for a in els(d['axis'])])
        if not vs:
            return quat(('f', 1.0), ('f', 0.0), ('f', 0.0), ('f', 0.0))
        return None
    if 'AngleAxis<' in t[:24]:
        if len(vs) == 2 and is_mat(vs[1]):
            return mkobj('Eigen::AngleAxis<double>', ('aa',), {'angle': vs[0], 'axis': vs[1]})
        if len(vs) == 1 and is_quat(vs[0]):
            # the smaller of the two angles of the rotation
            return mkobj('Eigen::AngleAxis<double>', ('aa',), {'angle': ('call', 'rotation_angle') + tuple(q4(vs[0]))})
        return None
    m = MAT.match(t)
    if not m:
        return vs[0] if len(vs) == 1 and (is_mat(vs[0]) or is_quat(vs[0])) else None
    r, c = int(m.group(1)), int(m.group(2) or 1)
    if len(vs) == 1 and is_mat(vs[0]):
        return vs[0]
    if len(vs) == 1 and vs[0][0] == 'i' and r == -1 and c == 1:
        return mat(vs[0][1], 1, [('f', 0.0)] * vs[0][1])
    if len(vs) == 2 and (r, c) == (-1, -1) and vs[0][0] == vs[1][0] == 'i':
        return mat(vs[0][1], vs[1][1], [('f', 0.0)] * (vs[0][1] * vs[1][1]))
    if r > 0 and c > 0:
        if len(vs) == r * c and 1 < r * c <= 4 and not (r > 1 and c > 1):
            return mat(r, c, vs)
        if not vs or (len(vs) == 2 and vs == [('i', r), ('i', c)]) or (len(vs) == 1 and vs[0][0] == 'i'):
            return mat(r, c, [('f', 0.0)] * (r * c))
    return None


def element(s, o, v, key):
    """the element, as a place if the object has one"""
    if o is not None and o[0] == 'alias':
        return ('alias', o[1], o[2] + (key,))
    return of_get(v, key)


def member(ip, s, R, fn, name, o, vals, vs):
    if fn in ('Zero', 'Identity', 'UnitX', 'UnitY', 'UnitZ', 'Ones') and o is None:
        m = MAT.search(name)
        if 'Quaternion<' in name and fn == 'Identity':
            return quat(('f', 1.0), ('f', 0.0), ('f', 0.0), ('f', 0.0))
        if not m or int(m.group(1)) < 1 or int(m.group(2) or 1) < 1:
            return None
        r, c = int(m.group(1)), int(m.group(2) or 1)
        one, zero = ('f', 1.0), ('f', 0.0)
        if fn == 'Identity':
            return mat(r, c, [one if i == j else zero for i in range(r) for j in range(c)])
        if fn in ('Zero', 'Ones'):
            return mat(r, c, [zero if fn == 'Zero' else one] * (r * c))
        return mat(r, c, [one if i == 'XYZ'.index(fn[-1]) else zero for i in range(r * c)])
    if o is None:
        if fn.startswith('operator') and len(vs) == 2:
            return binary(R, fn[8:], vs[0], vs[1])
        return None
    me = ip.load(s, o)
    if me[0] == 'obj' and me[2] == ('comma',):
        d = dict(me[3])
        if fn == 'operator,':
            place, i = d['place'], d['i'][1]
            s = ip.store(s, (place[1], place[2] + (('e', i),)), vs[0])
            return s, mkobj('Eigen::CommaInitializer', ('comma',), {'place': place, 'i': ('i', i + 1)})
        return VOID if fn.startswith('~') else me
    if fn in ('eval', 'derived', 'noalias', 'matrix', 'array', 'cast', 'template cast') or fn.startswith('cast<') or fn.startswith('~'):
        return me
    if me[0] == 'obj' and me[2] == ('aa',):
        d = dict(me[3])
        return d.get(fn)
    if fn == 'operator=' and len(vs) == 1 and o[0] == 'alias':
        return ip.store(s, (o[1], o[2]), vs[0]), o
    if fn in ('operator+=', 'operator-=', 'operator*=', 'operator/=') and o[0] == 'alias':
        v = binary(R, fn[8], me, vs[0])
        return None if v is None else (ip.store(s, (o[1], o[2]), v), o)
    if is_quat(me):
        w, x, y, z = q4(me)
        if fn in 'wxyz' and not vs:
            return element(s, o, me, ('q', fn))
        if fn == 'conjugate':
            return quat(w, R.neg(x), R.neg(y), R.neg(z))
        n2 = R.add(*[R.mul(t, t) for t in (w, x, y, z)])
        if fn == 'inverse':
            return quat(*[R.op('/', t, n2) for t in (w, R.neg(x), R.neg(y), R.neg(z))])
        if fn == 'squaredNorm':
            return n2
        if fn == 'norm':
            return R.sqrt(n2)
        if fn == 'normalized':
            return quat(*[R.op('/', t, R.sqrt(n2)) for t in (w, x, y, z)])
        if fn in ('toRotationMatrix', 'matrix'):
            return mat(3, 3, R.rotation([w, x, y, z]))
        if fn == 'vec':
            return mat(3, 1, [x, y, z])
        if fn == 'angularDistance' and is_quat(vs[0]):
            return ('call', 'rotation_angle') + tuple(R.qmul([w, R.neg(x), R.neg(y), R.neg(z)], q4(vs[0])))
        if fn == 'dot':
            return R.add(*[R.mul(a, b) for a, b in zip(q4(me), q4(vs[0]))])
        if fn == '_transformVector':
            return binary(R, '*', me, vs[0])
    elif is_mat(me):
        r, c = dims(me)
        E_ = els(me)
        if fn in ('x', 'y', 'z', 'w') and not vs:
            return element(s, o, me, ('e', 'xyzw'.index(fn)))
        if fn in ('operator()', 'operator[]', 'coeff', 'coeffRef') and all(v[0] == 'i' for v in vs):
            i = vs[0][1] if len(vs) == 1 else vs[0][1] * c + vs[1][1]
            return element(s, o, me, ('e', i)) if 0 <= i < len(E_) else None
        if fn == 'operator<<' and len(vs) == 1 and o[0] == 'alias':
            s = ip.store(s, (o[1], o[2] + (('e', 0),)), vs[0])
            return s, mkobj('Eigen::CommaInitializer', ('comma',), {'place': o, 'i': ('i', 1)})
        if fn == 'transpose':
            return mat(c, r, [E_[j * c + i] for i in range(c) for j in range(r)])
        if fn in ('squaredNorm', 'norm'):
            n2 = R.add(*[R.mul(t, t) for t in E_])
            return n2 if fn == 'squaredNorm' else R.sqrt(n2)
        if fn == 'normalized':
            n = R.sqrt(R.add(*[R.mul(t, t) for t in E_]))
            return mat(r, c, [R.op('/', t, n) for t in E_])
        if fn == 'dot' and is_mat(vs[0]):
            return R.add(*[R.mul(a, b) for a, b in zip(E_, els(vs[0]))])
        if fn == 'cross' and is_mat(vs[0]):
            a, b = E_, els(vs[0])
            return mat(3, 1, [R.sub(R.mul(a[i], b[j]), R.mul(a[j], b[i])) for i, j in ((1, 2), (2, 0), (0, 1))])
        if fn == 'operator-' and not vs:
            return mat(r, c, [R.neg(t) for t in E_])
        if fn in ('rows', 'cols', 'size'):
            return ('i', r if fn == 'rows' else c if fn == 'cols' else r * c)
        if fn == 'sum':
            return R.add(*E_)
        if fn == 'value' and r * c == 1:
            return E_[0]
    if fn.startswith('operator') and len(vs) == 1:
        return binary(R, fn[8:], me, vs[0])
    return None


def binary(R, op, a, b):
    scalar = lambda v: v[0] in ('i', 'f', 'sym', 'op', 'call', 'field', 'trunc', 'cast')
    if is_quat(a) and is_quat(b) and op == '*':
        return quat(*R.qmul(q4(a), q4(b)))
    if is_quat(a) and is_mat(b) and op == '*' and dims(b) == (3, 1):
        return R.mmul(mat(3, 3, R.rotation(q4(a))), b)
    if is_mat(a) and is_mat(b):
        if op in '+-' and dims(a) == dims(b):
            return mat(*dims(a), [R.op(op, x, y) for x, y in zip(els(a), els(b))])
        if op == '*':
            return R.mmul(a, b)
    if is_mat(a) and scalar(b) and op in '*/':
        return mat(*dims(a), [R.op(op, x, b) for x in els(a)])
    if scalar(a) and is_mat(b) and op == '*':
        return mat(*dims(b), [R.op('*', a, x) for x in els(b)])
    return None


HOOKS = [(r'^Eigen::', model)]
