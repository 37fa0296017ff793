"""Vectors, quaternions, frames: what the functions of the geometry library compute, as expressions over the reals."""
import itertools
import random
from .. import algebra                                      # it finds sympy
import sympy
from sympy import Symbol, Integer, Rational, sqrt, oo, nan
from ..facts import load
from ..absint import Interp, State, mkobj
from ..symbolic import Env, MP, Verdict, agree, conj, points, qmul, rotate, show, unit
from ..eigen import HOOKS, is_mat, els
from ..rosmsg import BUILD, TF2

GEO = 'common/math/geometry/'
VEC, QUA = GEO + 'include/geometry/vector3/', GEO + 'include/geometry/quaternion/'
TRANS, PLANE, DIST, CONV = (GEO + 'src/' + x for x in ('transform.cpp', 'plane.cpp', 'distance.cpp', 'vector3/ros_msg_converter.cpp'))
GM = 'geometry_msgs::msg::'
PT, VT, QT, PO = (GM + x for x in ('Point', 'Vector3', 'Quaternion', 'Pose'))
EPSILON = Rational(1, 2 ** 52)


def sym(n):
    return ('sym', n)


def msg(t, n):
    return mkobj(t, None, {t + '::' + c: sym(n + c) for c in ('xyzw' if t == QT else 'xyz')})


def pose(n):
    return mkobj(PO, None, {PO + '::position': msg(PT, n + 'p'), PO + '::orientation': msg(QT, n + 'q')})


def S(n):
    return Symbol(n, real=True)


def xyz(n):
    return tuple(S(n + c) for c in 'xyz')


def direction(n):
    """a vector of length one"""
    a, b = S(n + 'a'), S(n + 'b')
    d = 1 + a * a + b * b
    return 2 * a / d, 2 * b / d, (1 - a * a - b * b) / d


def at(n, values, keys='xyz'):
    return {sym(n + k): v for k, v in zip(keys, values)}


def quaternion(n, q):
    return {sym(n + k): q[k] for k in 'wxyz'}


def parts(t, d):
    """the fields of a message, which begin with 0, but for the w of a quaternion"""
    return tuple(d.get(t + '::' + c, ('f', float(c == 'w'))) for c in ('xyzw' if t == QT else 'xyz'))


def numbers(v):
    """the terms that an answer consists of"""
    if v[0] == 'obj':
        d = dict(v[3])
        if is_mat(v):
            return tuple(els(v))
        t = v[1]
        if t == PO:
            return tuple(x for k, u in (('position', PT), ('orientation', QT)) for x in parts(u, dict(d[PO + '::' + k][3]) if PO + '::' + k in d else {}))
        return parts(t, d)
    if v[0] == 'list':
        return tuple(x for m in v[1] for x in numbers(m))
    if v[0] in ('none', 'some'):
        return (('b', v[0] == 'some'),) + (numbers(v[1]) if v[0] == 'some' else ())
    return (v,)


class Check:
    def __init__(self, rep, prog, id='C21'):
        self.rep, self.prog, self.id, self.memo, self.verdict = rep, prog, id, {}, Verdict()

    def paths(self, name, args, this=None, pred=None, after=None, hooks=()):
        key = (name, tuple(args), this, after, tuple(hooks), pred)
        if key not in self.memo:
            ip = Interp(self.prog, hooks=list(hooks) + BUILD + TF2 + HOOKS)
            st = State()
            vals = []
            for i, a in enumerate(args):
                if a[0] in ('obj', 'list'):
                    r = ('t', 'argument %d' % i)
                    st = st.put(r, a)
                    vals.append(('alias', r, ()))
                else:
                    vals.append(a)
            me = ('t', 'this')
            if this is not None:
                st = st.put(me, this)
            rets, throws = ip.run(self.prog.one(name, pred=pred) if pred else self.prog.one(name), st, ('ptr', me, ()), vals)
            self.rep.analysed(ip)
            out = []
            for s, v in rets:
                v = ip.load(s, ('alias', ('t', after), ()) if after else v)
                out.append((s.facts, numbers(v)))
            for s, x in throws:
                out.append((s.facts, x[1].split('::')[-1] if x[0] == 'obj' else 'an error'))
            self.memo[key] = out
        return self.memo[key]

    def __call__(self, id, text, where, paths, values, expected, domains=(), given=(), n=6, functions=(), as_set=False, within=None):
        env = Env(values, functions)
        w = agree(paths, env, expected, domains, n, given, self.verdict, as_set, within)
        self.rep.require(w is None, self.id + ':' + id, '%s: %s' % (text, w), where)
        if w is None:
            self.rep.ok(text, where)
        return w is None


def run(rep):
    rep.rule = ('abstract interpretation of every function over real terms; on each path the answer is compared, as a normal form, or else as an expression at generic points of the case, '
                'with the textbook definition; the cases (lengths above and below a bound, unit quaternions by their projection) cover the domain; where rounding could leave a domain, every operation carries its rounding')
    prog = load([TRANS, PLANE, DIST, CONV], probes=['geometry.cpp'])
    c = Check(rep, prog)
    vectors(rep, c)
    finite(rep, c)
    quaternions(rep, c)
    directions(rep, c)
    frames(rep, c)
    rounding(rep, c)
    rep.count('identities that hold as normal forms', c.verdict.proved)
    rep.count('identities compared at generic points', c.verdict.compared)


# ------------------------------------------------------------------ vectors
def vectors(rep, c):
    A, B, k = xyz('a'), xyz('b'), S('k')
    dot = lambda a, b: sum(x * y for x, y in zip(a, b))
    length = lambda a: sqrt(dot(a, a))
    for n, t in (('p', PT), ('v', VT)):
        a, b = msg(t, 'a'), msg(t, 'b')
        what = t.split('::')[-1]
        go = lambda f, *args, **kw: c.paths('probe::%s_%s' % (f, n), args, **kw)
        op = VEC + 'operator.hpp'
        c('vector:+', 'the sum of two of %s' % what, op, go('add', a, b), {}, tuple(x + y for x, y in zip(A, B)))
        c('vector:-', 'the difference of two of %s' % what, op, go('sub', a, b), {}, tuple(x - y for x, y in zip(A, B)))
        c('vector:*', 'a multiple of a %s' % what, op, go('mul', a, sym('k')), {}, tuple(x * k for x in A))
        c('vector:/', 'a part of a %s' % what, op, go('div', a, sym('k')), {}, tuple(x / k for x in A))
        c('vector:+=', 'what is added to a %s' % what, op, go('inc', a, b, after='argument 0'), {}, tuple(x + y for x, y in zip(A, B)))
        from ..eigen import mat
        c('vector:+eigen', 'the sum of a %s and a vector' % what, op, go('eig', a, mat(3, 1, [sym('bx'), sym('by'), sym('bz')])), {}, tuple(x + y for x, y in zip(A, B)))
        c('vector:dot', 'the inner product of two of %s' % what, VEC + 'inner_product.hpp', go('dot', a, b), {}, (dot(A, B),))
        c('vector:cross', 'the cross product in the plane of two of %s' % what, VEC + 'cross_2d.hpp', go('cross', a, b), {}, (A[0] * B[1] - A[1] * B[0],))
        c('vector:hypot', 'the distance of two of %s' % what, VEC + 'hypot.hpp', go('hypot', a, b), {}, (length([x - y for x, y in zip(A, B)]),))
        c('vector:norm', 'the length of a %s' % what, VEC + 'norm.hpp', go('norm', a), {}, (length(A),))
        # in a plane of the vector, so that the angle is known
        u, w = S('u'), Symbol('w', positive=True)
        m, l = Symbol('m', positive=True), Symbol('l', positive=True)
        e1, e2 = frame('f')
        cth, sth = (1 - w * w) / (1 + w * w), 2 * w / (1 + w * w)
        second = [l * (x * cth + y * sth) for x, y in zip(e1, e2)]
        c('vector:angle', 'the angle between two of %s' % what, VEC + 'internal_angle.hpp', go('angle', a, b), {**at('a', [m * x for x in e1]), **at('b', second)}, (2 * sympy.atan(w),))
        # truncation
        d, f = Symbol('d', positive=True), Symbol('f', positive=True)
        ud = direction('g')
        vec = [m * x for x in ud]
        go_t = go('truncate', a, sym('k'))
        T = VEC + 'truncate.hpp'
        c('vector:truncate', 'a %s shorter than the bound is left as it is' % what, T, go_t, {**at('a', vec), sym('k'): m + d}, tuple(vec))
        c('vector:truncate', 'a %s as long as the bound is left as it is' % what, T, go_t, {**at('a', vec), sym('k'): m}, tuple(vec))
        c('vector:truncate', 'a %s longer than the bound is shortened to it' % what, T, go_t, {**at('a', vec), sym('k'): m * f}, tuple(m * f * x for x in ud), {f: (0, 1)})
        c('vector:truncate', 'a %s of length 0 is left as it is' % what, T, go_t, {**at('a', [Integer(0)] * 3), sym('k'): m}, (Integer(0),) * 3)
        # normalization
        N = VEC + 'normalize.hpp'
        go_n = go('normalize', a)
        c('vector:normalize', 'a %s longer than epsilon is normalized' % what, N, go_n, at('a', [(EPSILON + d) * x for x in ud]), ud)
        c('vector:normalize', 'a %s hardly longer than epsilon is normalized' % what, N, go_n, at('a', [EPSILON * (1 + f) * x for x in ud]), ud, {f: (0, 1)})
        c('vector:normalize', 'a %s no longer than epsilon is rejected' % what, N, go_n, at('a', [EPSILON * f * x for x in ud]), 'SimulationError', {f: (0, 1)})
        c('vector:normalize', 'a %s of length 0 is rejected' % what, N, go_n, at('a', [Integer(0)] * 3), 'SimulationError')
        # equality
        fs = [S('f' + x) for x in 'xyz']
        go_e = go('eq', a, b)
        dom = {x: (-1, 1) for x in fs}
        c('vector:==', 'two of %s within epsilon of one another are equal' % what, op, go_e, at('b', [x + EPSILON * y for x, y in zip(A, fs)]), (True,), dom)
        c('vector:==', 'two of %s that are the same are equal' % what, op, go_e, at('b', A), (True,))
        for i, sg in itertools.product(range(3), (1, -1)):
            for by, text in ((EPSILON + d, 'differ'), (EPSILON * (1 + f), 'hardly differ')):
                far = [x + (sg * by if i == j else EPSILON * fs[j]) for j, x in enumerate(A)]
                c('vector:==', 'two of %s that %s in %s are not equal' % (what, text, 'xyz'[i]), op, go_e, at('b', far), (False,), {**dom, f: (0, 1)})
    op = VEC + 'operator.hpp'
    total = tuple(x + y for x, y in zip(A, B))
    c('vector:mixed', 'the sum of a point and a vector', op, c.paths('probe::mixed_pv', [msg(PT, 'a'), msg(VT, 'b')]), {}, total)
    c('vector:mixed', 'the sum of a vector and a point', op, c.paths('probe::mixed_vp', [msg(VT, 'a'), msg(PT, 'b')]), {}, total)
    c('vector:make', 'the vector of three numbers', VEC + 'vector3.hpp', c.paths('probe::vector', [sym('ax'), sym('ay'), sym('az')]), {}, A)
    c('vector:cast', 'the vector of a point', CONV, c.paths('math::geometry::castToVec', [msg(PT, 'a')]), {}, A)
    c('vector:cast', 'the point of a vector', CONV, c.paths('math::geometry::castToPoint', [msg(VT, 'a')]), {}, A)
    for s, t in itertools.product((PT, PO), (PT, PO)):
        val = lambda q, n: msg(PT, n) if q == PT else mkobj(PO, None, {PO + '::position': msg(PT, n), PO + '::orientation': msg(QT, n + 'q')})
        c('distance', 'the distance of a %s from a %s' % (s.split('::')[-1], t.split('::')[-1]), DIST,
          c.paths('math::geometry::getDistance', [val(s, 'a'), val(t, 'b')], pred=lambda f, s=s, t=t: [p['t'] for p in f.x['p']] == ['const %s &' % s, 'const %s &' % t]), {},
          (length([x - y for x, y in zip(A, B)]),))


def frame(n):
    """two perpendicular vectors of length one: the first two axes of a rotation"""
    q = unit(n)
    return rotate(q, (Integer(1), Integer(0), Integer(0))), rotate(q, (Integer(0), Integer(1), Integer(0)))


def finite(rep, c):
    for n, t in (('p', PT), ('v', VT)):
        paths = c.paths('probe::finite_' + n, [msg(t, 'a')])
        for bad in itertools.product((None, oo, -oo, nan), repeat=3):
            vals = {sym('a' + k): v for k, v in zip('xyz', bad) if v is not None}
            c('vector:finite', 'a %s of which %s' % (t.split('::')[-1], ', '.join('%s is %s' % (k, 'finite' if v is None else v) for k, v in zip('xyz', bad))), VEC + 'is_finite.hpp',
              paths, vals, (not vals,), given=[S('a' + k) for k in 'xyz'], n=2)


# ------------------------------------------------------------------ quaternions
def Q(n):
    return {k: S(n + k) for k in 'wxyz'}


def q4(q):
    return q['x'], q['y'], q['z'], q['w']


def quaternions(rep, c):
    A, B = Q('a'), Q('b')
    a, b = msg(QT, 'a'), msg(QT, 'b')
    op = QUA + 'operator.hpp'
    go = lambda f, *args, **kw: c.paths('probe::q_' + f, args, **kw)
    c('quaternion:+', 'the sum of two quaternions', op, go('add', a, b), {}, tuple(x + y for x, y in zip(q4(A), q4(B))))
    c('quaternion:-', 'the difference of two quaternions', op, go('sub', a, b), {}, tuple(x - y for x, y in zip(q4(A), q4(B))))
    c('quaternion:*', 'the product of two quaternions', op, go('mul', a, b), {}, q4(qmul(A, B)))
    c('quaternion:+=', 'what is added to a quaternion', op, go('inc', a, b, after='argument 0'), {}, tuple(x + y for x, y in zip(q4(A), q4(B))))
    c('quaternion:make', 'the quaternion of four numbers', QUA + 'make_quaternion.hpp', go('make', *[sym('a' + k) for k in 'xyzw']), {}, q4(A))
    c('quaternion:norm', 'the length of a quaternion', QUA + 'norm.hpp', go('norm', a), {}, (sqrt(sum(x * x for x in q4(A))),))
    u, v = unit('u'), unit('v')
    d, f = Symbol('d', positive=True), Symbol('f', positive=True)
    scaled = lambda q, s: {k: s * x for k, x in q.items()}
    N = QUA + 'normalize.hpp'
    c('quaternion:normalize', 'a quaternion longer than epsilon is normalized', N, go('normalize', a), quaternion('a', scaled(u, EPSILON + d)), q4(u))
    c('quaternion:normalize', 'a quaternion hardly longer than epsilon is normalized', N, go('normalize', a), quaternion('a', scaled(u, EPSILON * (1 + f))), q4(u), {f: (0, 1)})
    c('quaternion:normalize', 'a quaternion no longer than epsilon is rejected', N, go('normalize', a), quaternion('a', scaled(u, EPSILON * f)), 'SimulationError', {f: (0, 1)})
    c('quaternion:normalize', 'the quaternion of zeros is rejected', N, go('normalize', a), quaternion('a', {k: Integer(0) for k in 'wxyz'}), 'SimulationError')
    c('quaternion:rotation', 'the rotation from one orientation to another', QUA + 'get_rotation.hpp', go('rotation', a, b), {**quaternion('a', u), **quaternion('b', v)}, q4(qmul(conj(u), v)))
    units = [rotate(u, [Integer(int(i == j)) for j in range(3)]) for i in range(3)]
    c('quaternion:matrix', 'the rotation matrix of an orientation', QUA + 'get_rotation_matrix.hpp', go('matrix', a), quaternion('a', u), tuple(units[j][i] for i in range(3) for j in range(3)))
    c('quaternion:normal', 'the normal vector of an orientation', QUA + 'get_normal_vector.hpp', go('normal', a), quaternion('a', u), units[2])
    # the second is the first turned by a known angle
    w = Symbol('w', positive=True)
    turn = direction('t')
    # t = tan(angle / 4): cos(angle / 2) = (1 - t^2) / (1 + t^2)
    half, side = (1 - w * w) / (1 + w * w), 2 * w / (1 + w * w)
    turned = qmul(u, dict(w=half, x=side * turn[0], y=side * turn[1], z=side * turn[2]))
    two = {**quaternion('a', u), **quaternion('b', turned)}
    ang = go('angle', a, b)
    D = QUA + 'get_angle_difference.hpp'
    c('quaternion:angle', 'the angle between two orientations', D, ang, two, (4 * sympy.atan(w),), {w: (0, 1)})
    c('quaternion:angle', 'the angle between two orientations more than half a turn apart', D, ang, two, (2 * sympy.pi - 4 * sympy.atan(w),), {w: (1, 2)})
    c('quaternion:angle', 'the angle between an orientation and itself', D, ang, {**quaternion('a', u), **quaternion('b', u)}, (Integer(0),))
    c('quaternion:angle', 'the angle between an orientation and itself, of the other sign', D, ang, {**quaternion('a', u), **quaternion('b', scaled(u, -1))}, (Integer(0),))
    # interpolation: at a part k of the angle
    k = Symbol('k', positive=True)
    sl = go('slerp', a, b, sym('k'))
    SL = QUA + 'slerp.hpp'
    t = 2 * sympy.atan(w) * k
    part = qmul(u, dict(w=sympy.cos(t), x=sympy.sin(t) * turn[0], y=sympy.sin(t) * turn[1], z=sympy.sin(t) * turn[2]))
    c('quaternion:slerp', 'the interpolation between two orientations', SL, sl, {**two, sym('k'): k}, q4(part), {k: (0, 1), w: (Rational(1, 100), 1)})
    c('quaternion:slerp', 'the interpolation between two orientations begins at the first one', SL, sl, {**two, sym('k'): Integer(0)}, q4(u), {w: (Rational(1, 100), 1)})
    c('quaternion:slerp', 'the interpolation between two orientations ends at the second one', SL, sl, {**two, sym('k'): Integer(1)}, q4(turned), {w: (Rational(1, 100), 1)})
    c('quaternion:slerp', 'the interpolation between an orientation and itself', SL, sl, {**quaternion('a', u), **quaternion('b', u), sym('k'): k}, q4(u), {k: (0, 1)})


def directions(rep, c):
    a = msg(VT, 'a')
    r, p, y = (Symbol('h' + n, real=True) for n in 'rpy')
    dom = {r: (-3, 3), p: (Rational(-3, 2), Rational(3, 2)), y: (-3, 3)}
    rot = lambda ax, t: dict(w=sympy.cos(t / 2), **{n: sympy.sin(t / 2) if n == ax else Integer(0) for n in 'xyz'})
    q = qmul(qmul(rot('z', y), rot('y', p)), rot('x', r))
    c('euler:to', 'the quaternion of roll, pitch and yaw', QUA + 'euler_to_quaternion.hpp', c.paths('probe::q_of_euler', [a]), at('a', (r, p, y)), q4(q), dom)
    c('euler:from', 'roll, pitch and yaw of a quaternion', QUA + 'quaternion_to_euler.hpp', c.paths('probe::q_euler', [msg(QT, 'a')]), quaternion('a', q), (r, p, y), dom)
    # the orientation of a direction turns the x axis into it, and does not roll
    A = xyz('a')
    n = sqrt(A[0] ** 2 + A[1] ** 2 + A[2] ** 2)
    paths = [(f, o if isinstance(o, str) else turned(o)) for f, o in c.paths('probe::q_of_direction', [a])]
    c('direction:to', 'the orientation of a direction turns the x axis into it, and keeps the y axis level', QUA + 'direction_to_quaternion.hpp', paths, {},
      (A[0] / n, A[1] / n, A[2] / n, Integer(0)))
    m = Symbol('m', real=True)
    x = rotate(q, (Integer(1), Integer(0), Integer(0)))
    c('direction:from', 'the vector of a magnitude along an orientation', VEC + 'scalar_to_direction_vector.hpp', c.paths('probe::q_direction', [sym('m'), msg(QT, 'a')]),
      {**quaternion('a', q), sym('m'): m}, tuple(m * t for t in x), dom)


def turned(o):
    """the x axis and the height of the y axis that a quaternion turns them into, as terms"""
    x, y, z, w = o
    op = lambda k, a, b: ('op', k, a, b)
    two, one = ('f', 2.0), ('f', 1.0)
    mul = lambda a, b: op('*', a, b)
    add, sub = (lambda a, b: op('+', a, b)), (lambda a, b: op('-', a, b))
    return (sub(one, mul(two, add(mul(y, y), mul(z, z)))), mul(two, add(mul(x, y), mul(w, z))), mul(two, sub(mul(x, z), mul(w, y))), mul(two, add(mul(y, z), mul(w, x))))


# ------------------------------------------------------------------ frames
def frames(rep, c):
    u, v = unit('u'), unit('v')
    P, T, F = xyz('b'), xyz('ap'), xyz('bp')
    turn = {**quaternion('aq', u)}
    moved = tuple(x + y for x, y in zip(rotate(u, P), T))
    plain = lambda f: len(f.x['p']) == 2
    c('transform', 'a point of the frame of a pose', TRANS, c.paths('math::geometry::transformPoint', [pose('a'), msg(PT, 'b')], pred=plain), turn, moved)
    three = ('list', tuple(msg(PT, n) for n in 'bcd'))
    want = tuple(x for n in 'bcd' for x in [p + t for p, t in zip(rotate(u, xyz(n)), T)])
    c('transform:list', 'the points of the frame of a pose, in their order', TRANS, c.paths('math::geometry::transformPoints', [pose('a'), three], pred=plain), turn, want)
    c('transform:none', 'no points of the frame of a pose', TRANS, c.paths('math::geometry::transformPoints', [pose('a'), ('list', ())], pred=plain), turn, ())
    # in the frame of a sensor: its axes, and its origin
    both = {**turn, **quaternion('bq', v)}
    more = lambda f: len(f.x['p']) == 3
    two = ('list', tuple(msg(PT, n) for n in 'cd'))
    seen = c.paths('math::geometry::transformPoint', [pose('a'), pose('b'), msg(PT, 'c')], pred=more)
    listed = c.paths('math::geometry::transformPoints', [pose('a'), pose('b'), two], pred=more)
    upright = dict(w=Integer(1), x=Integer(0), y=Integer(0), z=Integer(0))
    for text, vals, s, shift in (('of the same place', {**both, **at('bp', T)}, v, (Integer(0),) * 3), ('that is not turned', {**turn, **quaternion('bq', upright)}, upright, tuple(t - f for t, f in zip(T, F)))):
        want = lambda n: [p + t for p, t in zip(rotate(qmul(conj(s), u), xyz(n)), shift)]
        c('transform:sensor', 'a point of the frame of a pose, for a sensor %s' % text, TRANS, seen, vals, tuple(want('c')))
        c('transform:sensor', 'the points of the frame of a pose, for a sensor %s' % text, TRANS, listed, vals, tuple(want('c') + want('d')))
    # the pose that, in the frame of the one, is the other
    dq = qmul(conj(u), v)
    dt = rotate(conj(u), tuple(f - t for f, t in zip(F, T)))
    c('relative', 'the pose of one pose in the frame of another', TRANS, c.paths('math::geometry::getRelativePose', [pose('a'), pose('b')]), both, tuple(dt) + q4(dq))
    plane(rep, c)


def plane(rep, c):
    PL = 'math::geometry::Plane'
    blank = mkobj(PL)
    ip = Interp(c.prog)
    st = State().put(('t', 'p'), blank).put(('t', 'a'), msg(PT, 'a')).put(('t', 'n'), msg(VT, 'n')).put(('t', 'b'), msg(PT, 'b'))
    rets, throws = ip.run(c.prog.one(PL + '::Plane'), st, ('ptr', ('t', 'p'), ()), [('alias', ('t', 'a'), ()), ('alias', ('t', 'n'), ())])
    c.rep.analysed(ip)
    out = []
    for s, _ in rets:
        ip = Interp(c.prog)
        rs, th = ip.run(c.prog.one(PL + '::offset'), s, ('ptr', ('t', 'p'), ()), [('alias', ('t', 'b'), ())])
        c.rep.analysed(ip)
        out += [(s2.facts, numbers(ip.load(s2, v))) for s2, v in rs] + [(s2.facts, 'an error') for s2, x in th]
    out += [(s.facts, x[1].split('::')[-1]) for s, x in throws]
    A, B, N = xyz('a'), xyz('b'), xyz('n')
    c('plane', 'the offset of a point from a plane', PLANE, out, {}, (sum(n * (b - a) for n, a, b in zip(N, A, B)),))
    for zero in itertools.product((0, 1), repeat=3):
        vals = {sym('n' + k): Integer(0) for k, z in zip('xyz', zero) if z}
        c('plane:normal', 'a plane whose normal vector has %d zeros' % sum(zero), PLANE, out, vals,
          'SimulationError' if all(zero) else (sum(n * (b - a) for n, a, b, z in zip(N, A, B, zero) if not z),), given=A + B)
    for k in 'xyz':
        c('plane:nan', 'a plane through a point whose %s is no number' % k, PLANE, out, {sym('a' + k): nan}, 'SimulationError', given=A + B + N)


# ------------------------------------------------------------------ rounding
def rounding(rep, c):
    """with each operation rounded, parallel vectors have an angle, and equal orientations an interpolation"""
    u, m, l = direction('g'), Symbol('m', positive=True), Symbol('l', positive=True)
    for n, t in (('p', PT), ('v', VT)):
        paths = c.paths('probe::angle_' + n, [msg(t, 'a'), msg(t, 'b')])
        for sg, text in ((1, 'alike'), (-1, 'opposite')):
            w = rounded(paths, {**at('a', [m * x for x in u]), **at('b', [sg * l * x for x in u])})
            rep.require(w is None, 'C21:rounding:angle', 'the angle between two parallel, %s, of %s: %s' % (text, t.split('::')[-1], w), VEC + 'internal_angle.hpp')
    q = unit('u')
    k = Symbol('k', positive=True)
    paths = c.paths('probe::q_slerp', [msg(QT, 'a'), msg(QT, 'b'), sym('k')])
    w = rounded(paths, {**quaternion('a', q), **quaternion('b', q), sym('k'): k}, {k: (0, 1)})
    rep.require(w is None, 'C21:rounding:slerp', 'the interpolation between an orientation and itself: %s' % w, QUA + 'slerp.hpp')


class Rounded(Env):
    """each operation is right but for a rounding of its own, by at most half a unit in the last place"""
    def __init__(self, values, seed):
        super().__init__(values)
        self.rnd = random.Random(seed)

    def round(self, t, v, point):
        return v * (1 + MP.mpf(self.rnd.choice((-1, 1, self.rnd.uniform(-1, 1)))) * MP.mpf(2) ** -53) if t[0] in ('op', 'call') or t in self.values else v


def rounded(paths, values, domains=(), n=40):
    syms = set()
    for v in values.values():
        syms |= v.free_symbols
    for i, p in enumerate(points(syms, n, domains)):
        env = Rounded(values, i)
        on = [o for f, o in paths if env.holds(f, p) is not False]
        if not on:
            return 'no path is one of it, at %s' % show(p)
        if isinstance(on[0], str):
            return 'it is %s, at %s' % (on[0], show(p))
        if any(not MP.isfinite(env.at(t, p)) for t in on[0]):
            return 'it is no number, at %s' % show(p)
    return None
