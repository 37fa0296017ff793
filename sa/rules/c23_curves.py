"""Line segments, curves, polynomials and boxes: what they say of a place on them, and where they meet."""
import itertools
from .. import algebra                                      # it finds sympy
import sympy
from sympy import Symbol, Integer, Rational, sqrt
from ..facts import load
from ..absint import Interp, State, mkobj
from ..symbolic import MP, number, rotate
from ..eigen import Ring
from ..boostgeo import BOOST, COMPLEX, CONSTANT, corners, is_point, is_polygon, point, polygon, xy
from .c21_geometry import Check, numbers as plain, msg, pose, sym, S, xyz, at, quaternion, GEO, GM, PT, VT, QT, PO

SRC = GEO + 'src/'
LINE, POLY, SOLVE, CURVE, BOX, CROSS, HIT = (SRC + x for x in ('polygon/line_segment.cpp', 'polygon/polygon.cpp', 'solver/polynomial_solver.cpp', 'spline/hermite_curve.cpp', 'bounding_box.cpp',
                                                               'intersection/intersection.cpp', 'intersection/collision.cpp'))
NS = 'math::geometry::'
LS, HC, PS = NS + 'LineSegment', NS + 'HermiteCurve', NS + 'PolynomialSolver'
BB = 'traffic_simulator_msgs::msg::BoundingBox'
FAR = ('f', 1e9)


def arity(n, *types):
    """a function of n parameters, the first of which mention these types"""
    def pred(f):
        ps = f.x['p']
        return len(ps) == n and all(t in p['t'] for t, p in zip(types, ps))
    pred.key = (n, types)
    return pred


_PREDS = {}


def of(n, *types):
    return _PREDS.setdefault((n, types), arity(n, *types))


def rounding(p):
    """what a constant like cos(pi / 2) may be off"""
    return MP.mpf(10) ** -12


def positive(n):
    return Symbol(n, positive=True)


class Curves(Check):
    def __init__(self, rep, prog):
        super().__init__(rep, prog, 'C23')

    def outcomes(self, name, args, this=None, pred=None, hooks=(), answer=None):
        key = (name, tuple(args), this, tuple(h[0] for h in hooks), tuple(id(h[1]) for h in hooks), pred, answer)
        if key not in self.memo:
            from ..rosmsg import BUILD, TF2
            from ..eigen import HOOKS
            ip = Interp(self.prog, max_steps=3000000, hooks=list(hooks) + BOOST + COMPLEX + CONSTANT + BUILD + TF2 + HOOKS)
            st, vals = State(), []
            for i, a in enumerate(args):
                if a[0] in ('obj', 'list'):
                    r = ('t', 'argument %d' % i)
                    st = st.put(r, a)
                    vals.append(('alias', r, ()))
                else:
                    vals.append(a)
            me = ('t', 'this')
            if this is not None:
                st = st.put(me, this)
            fn = self.prog.one(name, pred=pred) if pred else self.prog.one(name)
            rets, throws = ip.run(fn, st, ('ptr', me, ()), vals)
            self.rep.analysed(ip)
            get = answer or (lambda ip, s, v: numbers(ip, s, ip.load(s, v)))
            out = [(s.facts, get(ip, s, v)) for s, v in rets]
            out += [(s.facts, x[1].split('::')[-1] if x[0] == 'obj' else 'an error') for s, x in throws]
            self.memo[key] = (out, hooks)                   # the hooks stay alive: their ids are the key
        return self.memo[key][0]

    def made(self, name, args, pred, blank, hooks=()):
        """[(facts, object or error)] of a constructor"""
        return self.outcomes(name, args, blank, pred, hooks, answer=made_object)


def made_object(ip, s, v):
    return ip.load(s, ('alias', ('t', 'this'), ()))


def numbers(ip, s, v):
    v = ip.load(s, v)
    if v[0] == 'obj':
        d = dict(v[3])
        if is_point(v):
            return xy(v)
        if is_polygon(v):
            return tuple(x for c in corners(v) for x in xy(ip.load(s, c)))
        if v[1] == LS:
            return numbers(ip, s, d[LS + '::start_point']) + numbers(ip, s, d[LS + '::end_point'])
        if v[1].endswith('DistancesFromCenterToEdge'):
            return tuple(d[v[1] + '::' + k] for k in ('front', 'rear', 'left', 'right', 'up', 'down'))
    if v[0] == 'list':
        return tuple(x for m in v[1] for x in numbers(ip, s, m))
    if v[0] == 'some':
        return (('b', True),) + numbers(ip, s, v[1])
    return plain(v)


def run(rep):
    rep.rule = ('abstract interpretation of every function over real terms; a case is a construction (a place at a known part of a segment, a polynomial of known roots, lines that cross at a known point) '
                'by parameters that range over it, and on each path the answer is compared with the one that the construction gives')
    prog = load([LINE, POLY, SOLVE, CURVE, BOX, CROSS, HIT, SRC + 'transform.cpp'])
    c = Curves(rep, prog)
    solver(rep, c)
    segments(rep, c)
    crossings(rep, c)
    polygons(rep, c)
    curve(rep, c)
    boxes(rep, c)
    rep.count('identities that hold as normal forms', c.verdict.proved)
    rep.count('identities compared at generic points', c.verdict.compared)


# ------------------------------------------------------------------ polynomials
def solver(rep, c):
    me = mkobj(PS)
    t = S('t')
    names = 'abcd'
    coef = lambda roots, lead: sympy.Poly(sympy.expand(lead * sympy.prod([t - r for r in roots])), t).all_coeffs()
    for f, n in (('linear', 2), ('quadratic', 3), ('cubic', 4)):
        want = sum(S(k) * t ** (n - 1 - i) for i, k in enumerate(names[:n]))
        c('polynomial:' + f, 'the value of a %s polynomial' % f, SOLVE, c.outcomes(PS + '::' + f, [sym(k) for k in names[:n]] + [sym('t')], me), {}, (want,))
    at_ = lambda cs: {sym(k): x for k, x in zip(names, cs)}
    run_ = lambda f, n, lo=('f', -1e9), hi=FAR: c.outcomes(PS + '::' + f, [sym(k) for k in names[:n]] + [lo, hi], me)
    r, d, e, a, f = S('r'), positive('d'), positive('e'), S('a'), positive('f')
    lead = {a: (Rational(1, 4), 3)}
    apart = {**lead, d: (Rational(1, 20), 3), e: (Rational(1, 20), 3)}
    TOL = sympy.nsimplify(1e-7, rational=True)
    for sg in (1, -1):
        s = 'leads upwards' if sg > 0 else 'leads downwards'
        A = sg * a
        lin = run_('solveLinearEquation', 2)
        c('linear:root', 'the root of a linear polynomial that %s' % s, SOLVE, lin, at_(coef([r], A)), (r,), lead, as_set=True)
        c('linear:root', 'the root of a linear polynomial that hardly %s' % s, SOLVE, lin, at_(coef([r], A * 10 ** -6)), (r,), lead, as_set=True)
        c('linear:none', 'a constant other than zero has no root', SOLVE, lin, {sym('a'): Integer(0), sym('b'): A}, (), lead)
        quad = run_('solveQuadraticEquation', 3)
        c('quadratic:roots', 'the roots of a quadratic polynomial that %s' % s, SOLVE, quad, at_(coef([r, r + d], A)), (r, r + d), apart, as_set=True)
        c('quadratic:double', 'the double root of a quadratic polynomial that %s' % s, SOLVE, quad, at_(coef([r, r], A)), (r,), apart, as_set=True)
        c('quadratic:roots', 'the roots of a quadratic polynomial that %s, close to each other' % s, SOLVE, quad, at_(coef([r, r + d], A)), (r, r + d), {d: (Rational(1, 500), Rational(1, 30)), a: (Rational(1, 4), 1)}, as_set=True)
        p = [A, -2 * A * r, A * (r * r + d * d)]
        c('quadratic:none', 'a quadratic polynomial that %s and does not reach zero has no root' % s, SOLVE, quad, at_(p), (), apart)
        c('quadratic:linear', 'a quadratic polynomial that is linear and %s' % s, SOLVE, quad, at_([Integer(0)] + coef([r], A)), (r,), apart, as_set=True)
        cub = run_('solveCubicEquation', 4)
        S_, C = SOLVE, lambda text, cs, want: c('cubic:roots', 'a cubic polynomial that %s: %s' % (s, text), SOLVE, cub, at_(cs), want, apart, as_set=True, n=8)
        C('three roots', coef([r, r + d, r + d + e], A), (r, r + d, r + d + e))
        C('three roots, of which the middle one is half-way', coef([r, r + d, r + d + d], A), (r, r + d, r + 2 * d))
        C('a double root and one above it', coef([r, r, r + d], A), (r, r + d))
        C('a double root and one below it', coef([r, r, r - d], A), (r, r - d))
        C('a triple root', coef([r, r, r], A), (r,))
        one = lambda x, y, k: sympy.Poly(sympy.expand(A * (t - x) * ((t - y) ** 2 + k * k)), t).all_coeffs()
        C('one root, above the turning point', one(r + d, r, e), (r + d,))
        C('one root, below the turning point', one(r - d, r, e), (r - d,))
        C('one root, at the turning point', one(r, r, e), (r,))
        c('cubic:roots', 'a cubic polynomial that %s: a root far away and two that are double but for less than the tolerance' % s, SOLVE, cub, at_(one(r + d, r, Rational(5, 10 ** 8))), (r, r + d),
          {**lead, d: (200, 300)}, as_set=True)
        C('one root of three that coincide but for a constant', sympy.Poly(sympy.expand(A * ((t - r) ** 3 - d ** 3)), t).all_coeffs(), (r + d,))
        C('it is quadratic', [Integer(0)] + coef([r, r + d], A), (r, r + d))
        C('it is linear', [Integer(0), Integer(0)] + coef([r], A), (r,))
    c('linear:any', 'an equation that every number solves is rejected', SOLVE, lin, at_([Integer(0), Integer(0)]), 'SimulationError')
    # the roots of the range
    lo, hi = sym('lo'), sym('hi')
    L, w, k = S('lo'), positive('w'), positive('k')
    dom = {k: (0, 1), w: (Rational(1, 10), 3), **lead}
    near = {**dom, f: (0, 1)}
    for name, n, pad in (('solveLinearEquation', 2, 0), ('solveQuadraticEquation', 3, 1), ('solveCubicEquation', 4, 2)):
        paths = run_(name, n, lo, hi)
        lift = lambda x: {**at_([Integer(0)] * pad + coef([x], a)), hi: L + w}
        c('range', '%s: a root of the range' % name, SOLVE, paths, lift(L + k * w), (L + k * w,), dom, as_set=True, given=[L], n=4)
        c('range', '%s: a root at the lower end of the range' % name, SOLVE, paths, lift(L), (L,), dom, as_set=True, given=[L], n=4)
        c('range', '%s: a root at the upper end of the range' % name, SOLVE, paths, lift(L + w), (L + w,), dom, as_set=True, given=[L], n=4)
        c('range', '%s: a root beyond the range' % name, SOLVE, paths, lift(L + w + k + Rational(1, 10 ** 6)), (), dom, given=[L], n=4)
        c('range', '%s: a root short of the range' % name, SOLVE, paths, lift(L - k - Rational(1, 10 ** 6)), (), dom, given=[L], n=4)
        c('range', '%s: a root hardly beyond the range is the end of it' % name, SOLVE, paths, lift(L + w + f * TOL), (L + w,), near, given=[L], n=4)
        c('range', '%s: a root hardly short of the range is the start of it' % name, SOLVE, paths, lift(L - f * TOL), (L,), near, given=[L], n=4)
    paths = run_('solveQuadraticEquation', 3, lo, hi)
    two = lambda x, y: {**at_(coef([x, y], a)), hi: L + w}
    c('range:two', 'of two roots, the one of the range', SOLVE, paths, two(L + k * w, L + w + d), (L + k * w,), {**apart, **dom}, as_set=True, given=[L], n=4)
    c('range:two', 'of two roots, the one of the range', SOLVE, paths, two(L + k * w, L - d), (L + k * w,), {**apart, **dom}, as_set=True, given=[L], n=4)
    x, y = S('x'), S('y')
    same = c.outcomes(PS + '::isApproximatelyEqualTo', [sym('x'), sym('y')], me)
    g = positive('g')
    for sg in (1, -1):
        c('close', 'two values closer than the tolerance are taken as equal', SOLVE, same, {sym('y'): x + sg * f * TOL}, (True,), {f: (0, 1)})
        c('close', 'two values further apart are not', SOLVE, same, {sym('y'): x + sg * (1 + g) * TOL}, (False,))


# ------------------------------------------------------------------ segments
def segment(c, n, m, vals=None):
    """a segment between two points, as its constructor makes it"""
    out = c.made(LS + '::LineSegment', [msg(PT, n), msg(PT, m)], of(2), mkobj(LS))
    if len(out) != 1 or isinstance(out[0][1], str):
        c.rep.bad('C23:segment', 'a segment is made of any two points', LINE)
        return None
    return out[0][1]


def segments(rep, c):
    s = segment(c, 'a', 'b')
    if s is None:
        return
    A, B, P = xyz('a'), xyz('b'), xyz('p')
    V = tuple(b - a for a, b in zip(A, B))
    length, flat = sqrt(sum(v * v for v in V)), sqrt(V[0] ** 2 + V[1] ** 2)
    d = dict(s[3])
    field = lambda k: plain(d[LS + '::' + k])
    for k, want in (('start_point', A), ('end_point', B), ('vector', V), ('vector_2d', V[:2] + (Integer(0),)), ('length', (length,)), ('length_2d', (flat,))):
        c('segment:' + k, 'the %s of a segment between two points' % k, LINE, [({}, field(k))], {}, want)
    # from a direction and a length
    along = c.made(LS + '::LineSegment', [msg(PT, 'a'), msg(VT, 'v'), sym('l')], of(3), mkobj(LS))
    ends = lambda o: o if isinstance(o, str) else plain(dict(o[3])[LS + '::start_point']) + plain(dict(o[3])[LS + '::end_point'])
    out = [(f, ends(o)) for f, o in along]
    l, u, m = positive('l'), positive('u'), positive('m')
    vx, vy = S('vx'), S('vy')
    n = sqrt(vx * vx + vy * vy)
    c('segment:along', 'a segment of a length along a direction', LINE, out, {sym('l'): l, sym('vz'): Integer(0)}, A + (A[0] + vx / n * l, A[1] + vy / n * l, A[2]), given=[vx, vy])
    c('segment:along', 'a segment along a direction of length 0 is rejected', LINE, out, {sym('l'): l, sym('vx'): Integer(0), sym('vy'): Integer(0)}, 'SimulationError', given=[S('vz')])
    # a place on it
    k = positive('k')
    part = {k: (0, 1)}
    on = lambda t: tuple(a + v * t for a, v in zip(A, V))
    b = lambda x: ('b', x)
    for den, unit_, w in ((False, Integer(1), 'its length'), (True, length, 'metres')):
        what = 'at a part of %s' % w
        get = lambda f, *args: c.outcomes(LS + '::' + f, list(args), s)
        pt = get('getPoint', sym('s'), b(den))
        for t, text in ((k, 'inside'), (Integer(0), 'at the start'), (Integer(1), 'at the end')):
            c('segment:point', 'the point of a segment %s, %s' % (what, text), LINE, pt, {sym('s'): t * unit_}, on(t), part, given=A + B)
        for t in (-k, 1 + k):
            c('segment:point', 'a place off the segment, %s, is rejected' % what, LINE, pt, {sym('s'): t * unit_}, 'SimulationError', given=A + B)
        sq = get('getSquaredDistanceIn2D', msg(PT, 'p'), sym('s'), b(den))
        c('segment:distance', 'the squared distance of a point from a place %s' % what, LINE, sq, {sym('s'): k * unit_}, (sum((p - x) ** 2 for p, x in list(zip(P, on(k)))[:2]),), part, given=A + B)
        vec = get('getSquaredDistanceVector', msg(PT, 'p'), sym('s'), b(den))
        c('segment:distance', 'the way to a point from a place %s' % what, LINE, vec, {sym('s'): k * unit_}, tuple(p - x for p, x in zip(P, on(k))), part, given=A + B)
        for pitch in (True, False):
            ps = [(f, o if isinstance(o, str) else o[:3] + heading(o[3:])) for f, o in get('getPose', sym('s'), b(den), b(pitch))]
            want = tuple(v / length for v in V) if pitch else (V[0] / flat, V[1] / flat, Integer(0))
            c('segment:pose', 'the pose on a segment %s, %s' % (what, 'along it' if pitch else 'level'), LINE, ps, {sym('s'): k * unit_}, on(k) + want + (Integer(0),), part, given=A + B)
            c('segment:pose', 'a pose off the segment, %s, is rejected' % what, LINE, ps, {sym('s'): (1 + k) * unit_}, 'SimulationError', given=A + B)
    c('segment:normal', 'the normal vector of a segment', LINE, c.outcomes(LS + '::getNormalVector', [], s), {}, (-V[1], V[0], Integer(0)), within=rounding)
    slope = c.outcomes(LS + '::get2DVectorSlope', [], s)
    for sg in (1, -1):
        c('segment:slope', 'the slope of a segment that runs %s' % ('forwards' if sg > 0 else 'backwards'), LINE, slope, {sym('bx'): A[0] + sg * k}, (V[1].subs(S('bx'), 0) / (sg * k),), given=A + B)
    c('segment:slope', 'an upright segment has no slope', LINE, slope, {sym('bx'): A[0]}, 'SimulationError', given=A + B)
    # where a point is
    g, h = S('g'), positive('h')
    beside = lambda t, o: {sym('px'): A[0] + V[0] * t - V[1] * o, sym('py'): A[1] + V[1] * t + V[0] * o}
    side = c.outcomes(LS + '::relativePointPosition2D', [msg(PT, 'p')], s)
    for o, want, text in ((h, 1, 'to the left of'), (-h, -1, 'to the right of'), (Integer(0), 0, 'in line with')):
        c('segment:side', 'a point %s a segment' % text, LINE, side, beside(g, o), (Integer(want),), given=A + B + (g,))
    # in its bounds: at a part of both extents
    bounds = c.outcomes(LS + '::isInBounds2D', [msg(PT, 'p')], s)
    for (tx, ty), want in zip(itertools.product((k, Integer(0), Integer(1), -k, 1 + k), repeat=2), itertools.product((True, True, True, False, False), repeat=2)):
        c('segment:bounds', 'a point at %s and %s of the extents of a segment' % (tx, ty), LINE, bounds, {sym('px'): A[0] + V[0] * tx, sym('py'): A[1] + V[1] * ty}, (all(want),), part if (tx, ty).count(k) else {}, given=A + B, n=4)
    meets = c.outcomes(LS + '::isIntersect2D', [msg(PT, 'p')], s, of(1, 'Point'))
    for den, unit_ in ((False, Integer(1)), (True, length)):
        where = c.outcomes(LS + '::get2DIntersectionSValue', [msg(PT, 'p'), b(den)], s, of(2, 'Point'))
        for t, hit in ((k, True), (Integer(0), True), (Integer(1), True), (-k, False), (1 + k, False)):
            vals = beside(t, Integer(0))
            dom = part if hit else {}
            c('segment:on', 'a point at %s of a segment is %s it' % (t, 'on' if hit else 'off'), LINE, meets, vals, (hit,), dom, given=A + B + (P[2],))
            c('segment:s', 'the place of a point at %s of a segment' % t, LINE, where, vals, (True, t * unit_) if hit else (False,), dom, given=A + B + (P[2],))
        for o in (h, -h):
            c('segment:on', 'a point beside a segment is off it', LINE, meets, beside(k, o), (False,), part, given=A + B + (P[2],))
            c('segment:s', 'a point beside a segment has no place on it', LINE, where, beside(k, o), (False,), part, given=A + B + (P[2],))
    # of a pose: where the line across it meets the segment
    for den, unit_ in ((False, Integer(1)), (True, length)):
        sv = c.outcomes(LS + '::getSValue', [pose('q'), sym('w'), b(den)], s, None, KNOWN)
        y, o = S('y'), S('o')
        # heading y: tan of half the yaw; the pose is o to the right of the place k
        cy, sy = (1 - y * y) / (1 + y * y), 2 * y / (1 + y * y)
        half = sqrt(1 + y * y)
        q = dict(w=1 / half, x=Integer(0), y=Integer(0), z=y / half)
        w = positive('w')
        vals = lambda t, o: {**quaternion('qq', q), sym('qpx'): A[0] + V[0] * t + sy * o, sym('qpy'): A[1] + V[1] * t - cy * o}
        for o in (f * w * sg for f in (k,) for sg in (1, -1)):
            c('segment:pose-s', 'the place of a pose across which the segment runs', LINE, sv, {**vals(positive('t'), o), sym('w'): w}, (True, positive('t') * unit_), {k: (0, 1), positive('t'): (0, 1)}, given=A + B + (S('qpz'),))
            c('segment:pose-s', 'a pose behind the segment has no place on it', LINE, sv, {**vals(-positive('t'), o), sym('w'): w}, (False,), {k: (0, 1)}, given=A + B + (S('qpz'),))
        for o in (w * (1 + k), -w * (1 + k)):
            c('segment:pose-s', 'a pose further away than the threshold has no place on it', LINE, sv, {**vals(positive('t'), o), sym('w'): w}, (False,), {positive('t'): (0, 1)}, given=A + B + (S('qpz'),))


def beside(ip, st, e, o, args, f):
    """on which side of a segment a point is, as it is checked above"""
    out = []
    for s, vs in ip.args(args, f, st):
        d = dict(ip.load(s, o)[3])
        (ax, ay, _), (bx, by, _), (px, py, _) = (numbers(ip, s, v) for v in (d[LS + '::start_point'], d[LS + '::end_point'], vs[0]))
        R = Ring(ip, s)
        det = R.sub(R.mul(R.sub(bx, ax), R.sub(py, by)), R.mul(R.sub(by, ay), R.sub(px, bx)))
        for s2, left in ip.compare(s, '>', det, ('f', 0.0)):
            if left:
                out.append((s2, ('i', 1)))
            else:
                out += [(s3, ('i', -int(right))) for s3, right in ip.compare(s2, '<', det, ('f', 0.0))]
    return out


def within(ip, st, e, o, args, f):
    """whether a point is in the bounds of a segment, as it is checked above"""
    out = []
    for s, vs in ip.args(args, f, st):
        d = dict(ip.load(s, o)[3])
        a, b, p = (numbers(ip, s, v) for v in (d[LS + '::start_point'], d[LS + '::end_point'], vs[0]))
        R = Ring(ip, s)
        states = [s]
        for i in range(2):
            more = []
            for s2 in states:
                for s3, ok in ip.compare(s2, '<=', R.mul(R.sub(p[i], a[i]), R.sub(p[i], b[i])), ('f', 0.0)):
                    if ok:
                        more.append(s3)
                    else:
                        out.append((s3, ('b', False)))
            states = more
        out += [(s2, ('b', True)) for s2 in states]
    return out


KNOWN = ((r'LineSegment::relativePointPosition2D$', beside), (r'LineSegment::isInBounds2D$', within))


def heading(q):
    from .c21_geometry import turned
    return turned(q)


# ------------------------------------------------------------------ crossings
def crossings(rep, c):
    s, o = segment(c, 'a', 'b'), segment(c, 'p', 'q')
    if s is None or o is None:
        return
    A, B, P, Q = xyz('a'), xyz('b'), xyz('p'), xyz('q')
    V, W = (B[0] - A[0], B[1] - A[1]), (S('wx'), S('wy'))
    k, m, h = positive('k'), positive('m'), positive('h')
    two = of(2, 'LineSegment', 'LineSegment')
    meets = {'free': c.outcomes(NS + 'isIntersect2D', [s, o], None, two, KNOWN), 'method': c.outcomes(LS + '::isIntersect2D', [o], s, of(1, 'LineSegment'), KNOWN)}
    point_ = {'free': c.outcomes(NS + 'getIntersection2D', [s, o], None, two, KNOWN), 'method': c.outcomes(LS + '::getIntersection2D', [o], s, None, KNOWN)}
    place = {d: c.outcomes(LS + '::get2DIntersectionSValue', [o, ('b', d)], s, of(2, 'LineSegment'), KNOWN) for d in (True, False)}
    def case(text, vals, dom, hit, at_=None, t=None, overlap=False):
        given = A + B + (P[2], Q[2])
        for how in ('free', 'method'):
            c('cross', 'whether two segments meet: %s' % text, CROSS, meets[how], vals, (hit,), dom, given=given, n=4)
            want = 'SimulationError' if overlap else (True,) + at_ + (Integer(0),) if hit else (False,)
            c('cross:point', 'where two segments meet: %s' % text, CROSS, point_[how], vals, want, dom, given=given, n=4)
        if t is not None or not hit:
            length = sqrt(sum((b - a) ** 2 for a, b in zip(A, B)))
            for d in (True, False):
                c('cross:s', 'the place on a segment where another one meets it: %s' % text, LINE, place[d], vals, (True, t * (length if d else 1)) if hit else (False,), dom, given=given, n=4)
    values = ((k, True, 'inside'), (Integer(0), True, 'at the start'), (Integer(1), True, 'at the end'), (-k, False, 'before the start'), (1 + k, False, 'past the end'))
    for (t, th, tt), (u, uh, ut) in itertools.product(values, values):
        u = u.subs(k, m)
        X = (A[0] + V[0] * t, A[1] + V[1] * t)
        vals = {sym('px'): X[0] - W[0] * u, sym('py'): X[1] - W[1] * u, sym('qx'): X[0] - W[0] * u + W[0], sym('qy'): X[1] - W[1] * u + W[1]}
        dom = {**({k: (0, 1)} if t == k else {}), **({m: (0, 1)} if u == m else {})}
        case('%s of the one, %s of the other' % (tt, ut), vals, dom, th and uh, X, t)
    on = lambda t, off=0: (A[0] + V[0] * t - V[1] * off, A[1] + V[1] * t + V[0] * off)
    def along(t, u, off=0):
        x, y = on(t, off), on(u, off)
        return {sym('px'): x[0], sym('py'): x[1], sym('qx'): y[0], sym('qy'): y[1]}
    inside = {k: (0, 1), m: (0, 1)}
    case('the one overlaps the other', along(k, 1 + m), inside, True, overlap=True)
    case('the other overlaps the one', along(-m, k), inside, True, overlap=True)
    case('the one contains the other', along(k, k * m), inside, True, overlap=True)
    case('the other contains the one', along(-k, 1 + m), {}, True, overlap=True)
    case('they are the same', along(Integer(0), Integer(1)), {}, True, overlap=True)
    case('they are opposite', along(Integer(1), Integer(0)), {}, True, overlap=True)
    case('the one is in line with the other, beyond it', along(1 + k, 1 + k + m), {}, False)
    case('the one is in line with the other, short of it', along(-k, -k - m), {}, False)
    case('they are parallel', along(k, m, h), {}, False)
    case('they are parallel, on the other side', along(k, -m, -h), {}, False)
    case('the one is a point of the other', along(k, k), {k: (0, 1)}, True, overlap=True)
    case('the one is a point beside the other', along(k, k, h), {k: (0, 1)}, False)
    case('the one is a point in line with the other', along(1 + k, 1 + k), {}, False)
    # of several: any two of them
    segs = [mkobj(LS, None, {LS + '::start_point': ('sym', 'segment %d' % i)}) for i in range(3)]
    pairs = [(0, 1), (0, 2), (1, 2)]
    def which(ip, s, v):
        v = ip.load(s, v)
        t = dict(v[3])[LS + '::start_point'] if v[0] == 'obj' else ('sym', '?')
        return t[1][-1]
    for hit in itertools.chain.from_iterable(itertools.combinations(pairs, n) for n in range(4)):
        def pair(ip, st, e, o_, args, f, hit=hit, point=False):
            out = []
            for s_, vs in ip.args(args, f, st):
                vs = ([o_] if o_ is not None else []) + vs
                if len(vs) != 2:
                    return None
                ij = tuple(sorted(which(ip, s_, v) for v in vs))
                yes = ij in [(str(x), str(y)) for x, y in hit]
                out.append((s_, ('b', yes) if not point else ('some', mkobj(PT, None, {PT + '::x': sym('x' + ''.join(ij)), PT + '::y': sym('y' + ''.join(ij)), PT + '::z': ('f', 0.0)})) if yes else ('none',)))
            return out
        hooks = ((r'^math::geometry::(LineSegment::)?isIntersect2D$', pair), (r'^math::geometry::(LineSegment::)?getIntersection2D$', lambda *a, pair=pair: pair(*a, point=True)))
        got = c.outcomes(NS + 'isIntersect2D', [('list', tuple(segs))], None, of(1, 'vector'), hooks)
        c('cross:any', 'whether any two of three segments meet, of which %s do' % (list(hit) or 'none'), CROSS, got, {}, (bool(hit),))
        got = c.outcomes(NS + 'getIntersection2D', [('list', tuple(segs))], None, of(1, 'vector'), hooks)
        want = [S('%s%d%d' % (v, i, j)) for i, j in hit for v in 'xy'] + ([Integer(0)] if hit else [])
        c('cross:all', 'where any two of three segments meet, of which %s do' % (list(hit) or 'none'), CROSS, got, {}, tuple(want), as_set=True)


# ------------------------------------------------------------------ polygons
def polygons(rep, c):
    names = 'def'
    pts = lambda n: ('list', tuple(msg(PT, k) for k in names[:n]))
    same = lambda ip, s, v: numbers(ip, s, ip.load(s, v))
    P = [xyz(k) for k in names]
    for close in (False, True):
        for n in (0, 1):
            c('segments', 'the segments between %d points' % n, LINE, c.outcomes(NS + 'getLineSegments', [pts(n), ('b', close)]), {}, ())
        for n in (2, 3):
            edges = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if close else [])
            out = c.outcomes(NS + 'getLineSegments', [pts(n), ('b', close)])
            for eq in [None] + edges[:n - 1]:
                vals = at(names[eq[1]], P[eq[0]]) if eq else {}
                left = [e for e in edges if not eq or set(e) != set(eq)]
                Q = [P[eq[0]] if eq and i == eq[1] else p for i, p in enumerate(P)]
                c('segments', 'the segments between %d points%s%s' % (n, ', closed' if close else '', ', of which two are the same' if eq else ''), LINE, out, vals,
                  tuple(x for i, j in left for x in Q[i] + Q[j]), given=sum(P[:n], ()))
    if c.prog.named(NS + 'getMaxValue') is None:
        return
    for axis, i in (('X', 0), ('Y', 1), ('Z', 2)):
        v = ('e', 'math::geometry::Axis', axis)
        ax = enum(c, axis)
        for n in (0, 1, 2, 3):
            for f, pick in (('getMaxValue', max), ('getMinValue', min)):
                want = 'SimulationError' if n == 0 else (lambda p, n=n, pick=pick: (pick(p[P[j][i]] for j in range(n)),))
                c('polygon:' + f, '%s along %s of %d points' % (f, axis, n), POLY, c.outcomes(NS + f, [pts(n), ax]), {}, want, given=sum(P[:n], ()))
            c('polygon:axis', 'the coordinates along %s of %d points' % (axis, n), POLY, c.outcomes(NS + 'filterByAxis', [pts(n), ax]), {}, tuple(P[j][i] for j in range(n)), given=sum(P[:n], ()))


def enum(c, name):
    """the value of Axis::name"""
    c.rep.need(NS + 'Axis' in c.prog.enums, 'the axes vanished')
    return ('i', {n: int(v) for n, v in c.prog.enums[NS + 'Axis']['e']}[name])


# ------------------------------------------------------------------ curves
def long(ip, st, e, o, args, f):
    return [(s, sym('L')) for s, vs in ip.args(args, f, st)]


LENGTH = ((r'HermiteCurve::getLength$', long),)


def curve(rep, c):
    made = c.made(HC + '::HermiteCurve', [pose('p'), pose('q'), msg(VT, 'u'), msg(VT, 'v')], of(4), mkobj(HC), LENGTH)
    coefs = c.made(HC + '::HermiteCurve', [sym(a + b) for b in 'xyz' for a in 'abcd'], of(12), mkobj(HC), LENGTH)
    ok = all(len(x) == 1 and not isinstance(x[0][1], str) for x in (made, coefs))
    rep.require(ok, 'C23:curve', 'a curve is made of any two poses, or coefficients', CURVE)
    if not ok:
        return
    made, coefs = made[0][1], coefs[0][1]
    s, L, k = S('s'), positive('L'), positive('k')
    Z, O = Integer(0), Integer(1)
    poly = [tuple(S(a + x) for a in 'abcd') for x in 'xyz']
    at_ = lambda t: tuple(a * t ** 3 + b * t ** 2 + c_ * t + d for a, b, c_, d in poly)
    speed = lambda t: tuple(3 * a * t ** 2 + 2 * b * t + c_ for a, b, c_, d in poly)
    bend = lambda t: tuple(6 * a * t + 2 * b for a, b, c_, d in poly)
    b = lambda x: ('b', x)
    P = xyz('p')
    get = lambda f, *args, this=coefs, **kw: c.outcomes(HC + '::' + f, list(args), this, hooks=LENGTH, **kw)
    for den, unit_ in ((False, O), (True, L)):
        what = 'at a part of its length' if not den else 'at metres'
        v = {sym('s'): s * unit_, sym('L'): L}
        C = lambda id, text, paths, want, **kw: c('curve:' + id, 'the %s of a curve %s' % (text, what), CURVE, paths, v, want, **kw)
        C('point', 'point', get('getPoint', sym('s'), b(den)), at_(s))
        C('tangent', 'tangent', get('getTangentVector', sym('s'), b(den)), speed(s))
        C('normal', 'normal vector', get('getNormalVector', sym('s'), b(den)), (-speed(s)[1], speed(s)[0], Z), within=rounding)
        x, y = speed(s)[:2]
        C('curvature', 'curvature', get('get2DCurvature', sym('s'), b(den)), ((x * bend(s)[1] - y * bend(s)[0]) / sqrt(x * x + y * y) ** 3,))
        C('distance', 'squared distance of a point', get('getSquaredDistanceIn2D', msg(PT, 'p'), sym('s'), b(den)), (sum((p - q) ** 2 for p, q in list(zip(P, at_(s)))[:2]),))
        C('distance', 'way to a point', get('getSquaredDistanceVector', msg(PT, 'p'), sym('s'), b(den)), tuple(p - q for p, q in zip(P, at_(s))))
        n3, n2 = sqrt(sum(t * t for t in speed(s))), sqrt(x * x + y * y)
        for pitch in (True, False):
            ps = [(f, o if isinstance(o, str) else o[:3] + heading(o[3:])) for f, o in get('getPose', sym('s'), b(den), b(pitch))]
            want = tuple(t / n3 for t in speed(s)) if pitch else (x / n2, y / n2, Z)
            C('pose', 'pose, %s,' % ('along it' if pitch else 'level'), ps, at_(s) + want + (Z,))
    # what it is made of
    two = {sym('L'): L}
    ends = lambda f, t: get(f, ('f', t), b(False), this=made)
    for t, p, v in ((0.0, 'pp', 'u'), (1.0, 'qp', 'v')):
        where = 'start' if t == 0.0 else 'end'
        c('curve:ends', 'the %s of a curve between two poses' % where, CURVE, ends('getPoint', t), two, xyz(p))
        c('curve:ends', 'the direction at the %s of a curve between two poses' % where, CURVE, ends('getTangentVector', t), two, xyz(v))
    # its length: exact where it is straight, else no further off than how its speed varies
    length = lambda n: c.outcomes(HC + '::getLength', [('i', n)], coefs, of(1))
    for n in (3, 5):
        straight = {sym(a + x): Z for a in 'ab' for x in 'xyz'}
        c('curve:length', 'the length of a straight curve, by %d parts' % n, CURVE, length(n), straight, (sqrt(sum(S('c' + x) ** 2 for x in 'xyz')),))
    n = 12
    f = lambda p: (lambda t: MP.sqrt(sum((3 * q[0] * t * t + 2 * q[1] * t + q[2]) ** 2 for q in [[number(S(a + x), p) for a in 'abc'] for x in 'xyz'])))
    whole = lambda p: (MP.quad(f(p), [0, .25, .5, .75, 1]),)
    varies = lambda p: sum(abs(f(p)(MP.mpf(i + 1) / 400) - f(p)(MP.mpf(i) / 400)) for i in range(400)) / n + MP.mpf(10) ** -10
    c('curve:length', 'the length of a curve, by %d parts' % n, CURVE, length(n), {}, whole, given=[S(a + x) for a in 'abcd' for x in 'xyz'], n=3, within=varies)
    # points along it
    for n in (0, 1, 2, 5):
        got = c.outcomes(HC + '::getTrajectory', [('i', n)], coefs, of(1), LENGTH)
        want = tuple(x for i in range(n) for x in at_(Rational(i, n - 1) if n > 1 else Z))
        c('curve:trajectory', '%d points along a curve' % n, CURVE, got, {}, want)
    meets(rep, c, coefs)
    # the largest curvature
    def bent(ip, st, e, o, args, f):
        return [(s_, ('call', 'curvature', ip.load(s_, vs[0]))) for s_, vs in ip.args(args, f, st)]
    extremes = lambda p: (lambda ip, st, e, o, args, f: [(st, ('list', (sym('lo'), sym('hi'))))])
    got = c.outcomes(HC + '::getMaximum2DCurvature', [], coefs, hooks=EXTREMES)
    lo, hi = S('lo'), S('hi')
    for text, vals, want in (('to the left', {sym('lo'): -k, sym('hi'): k + L}, k + L), ('to the right', {sym('lo'): -k - L, sym('hi'): k}, -k - L), ('to the left only', {sym('lo'): k, sym('hi'): k + L}, k + L),
                             ('to the right only', {sym('lo'): -k - L, sym('hi'): -k}, -k - L)):
        c('curve:bend', 'the largest curvature of a curve that bends more %s' % text, CURVE, got, vals, (want,))


EXTREMES = ((r'HermiteCurve::get2DMinMaxCurvatureValue$', lambda ip, st, e, o, args, f: [(st, mkobj('std::pair', None, {'std::pair::first': sym('lo'), 'std::pair::second': sym('hi')}))]),)


def meets(rep, c, coefs):
    """where a curve crosses a segment: the polynomial whose roots are taken, and which of them count"""
    P, Q = xyz('p'), xyz('q')
    E = (Q[0] - P[0], Q[1] - P[1])
    t, L, k = S('t'), positive('L'), positive('k')
    asked = ((r'PolynomialSolver::solveCubicEquation$', lambda ip, st, e, o, args, f: [(s.event('solve', tuple(ip.load(s, v) for v in vs)), ('list', (sym('t'),))) for s, vs in ip.args(args, f, st)]),) + LENGTH
    four = of(4, 'Point', 'Point')
    for back in (False, True):
        for den in (False, True):
            got = c.outcomes(HC + '::getCollisionPointsIn2D', [msg(PT, 'p'), msg(PT, 'q'), ('b', back), ('b', den)], coefs, four, asked, answer=with_equation)
            eqs = {q for f, o in got if not isinstance(o, str) for q in o[1]}
            for q in eqs:
                rep.require(len(q) == 6, 'C23:meet:equation', 'the equation of a curve and a segment has four coefficients and a range', CURVE)
                line = lambda x: (x[1] - P[1]) * E[0] - (x[0] - P[0]) * E[1]
                X = tuple(sum(S(a + z) * t ** (3 - i) for i, a in enumerate('abcd')) for z in 'xy')
                from ..symbolic import Env
                env = Env()
                poly = sum(env.val(x) * t ** (3 - i) for i, x in enumerate(q[:4]))
                same = sympy.expand(poly - line(X)) == 0 or sympy.expand(poly + line(X)) == 0
                rep.require(same, 'C23:meet:equation', 'the equation whose roots are taken is that the curve is in line with the segment', CURVE)
                rep.require([float(x[1]) if x[0] in 'if' and x[0] in ('i', 'f') else None for x in q[4:]] == [0.0, 1.0], 'C23:meet:range', 'the roots are those of the whole curve', CURVE)
            paths = [(f, o if isinstance(o, str) else o[0]) for f, o in got]
            scale = L if den else 1
            forms = (('oblique', {}), ('along x', {sym('qy'): P[1]}), ('along y', {sym('qx'): P[0]}))
            for text, form in forms:
                F = (E[0] if 'y' not in text[-1:] else Integer(0), E[1] if 'x' not in text[-1:] else Integer(0))
                for u, hit in ((k, True), (-k, False), (1 + k, False)):
                    at_ = tuple(P[i] + F[i] * u for i in range(2))
                    vals = {sym('L'): L, **form}
                    for i, z in enumerate('xy'):
                        off = 0 if F[i] else S('off') / 10 ** 16        # how far the root is off, by rounding
                        vals[sym('d' + z)] = at_[i] + off - sum(S(a + z) * t ** (3 - j) for j, a in enumerate('abc'))
                    c('meet', 'a curve that meets a segment %s at %s of it' % (text, u), CURVE, paths, vals, (t * scale,) if hit else (), {k: (0, 1)} if u == k else {}, given=[t] + list(P + Q) + [S(a + z) for a in 'abc' for z in 'xy'], n=4, as_set=True)
    # the first or the last of them
    both = ((r'HermiteCurve::getCollisionPointsIn2D$', lambda ip, st, e, o, args, f: [(s, ('list', (sym('s1'), sym('s2')))) for s, vs in ip.args(args, f, st)]),)
    none = ((r'HermiteCurve::getCollisionPointsIn2D$', lambda ip, st, e, o, args, f: [(s, ('list', ())) for s, vs in ip.args(args, f, st)]),)
    poly = ('list', tuple(msg(PT, x) for x in 'pqr'))
    for what, args, pred in (('a segment', lambda back: [msg(PT, 'p'), msg(PT, 'q'), ('b', back), ('b', False)], four), ('a polygon', lambda back: [poly, ('b', back), ('b', True), ('b', False)], of(4, 'vector'))):
        for back in (False, True):
            c('meet:first', 'the %s place where a curve meets %s' % ('last' if back else 'first', what), CURVE, c.outcomes(HC + '::getCollisionPointIn2D', args(back), coefs, pred, both), {}, (True, S('s2' if back else 's1')))
            c('meet:first', 'a curve that does not meet %s' % what, CURVE, c.outcomes(HC + '::getCollisionPointIn2D', args(back), coefs, pred, none), {}, (False,))
    # each edge of a polygon
    def edge(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            ends = [numbers(ip, s, v) for v in vs[:2]] if len(vs) == 4 and len(f['pt']) == 4 else []
            if not ends or len(ends[0]) != 3 or len(ends[1]) != 3:
                return None
            i, j = (x[0][1][0] for x in ends)
            out.append((s.event('edge', (i, j, ip.load(s, vs[2]), ip.load(s, vs[3]))), ('list', (sym('s' + i + j),))))
        return out
    for n in range(4):
        for close, back, den in itertools.product((True, False), repeat=3):
            p = ('list', tuple(msg(PT, x) for x in 'pqr'[:n]))
            got = c.outcomes(HC + '::getCollisionPointsIn2D', [p, ('b', back), ('b', close), ('b', den)], coefs, of(4, 'vector'), ((r'HermiteCurve::getCollisionPointsIn2D$', edge),), answer=with_edges)
            flags = {x[2:] for f, o in got if not isinstance(o, str) for x in o[1]}
            rep.require(flags <= {(('b', back), ('b', den))}, 'C23:meet:edges', 'the edges of a polygon are searched like the polygon', CURVE)
            want = ['pqr'[i] + 'pqr'[i + 1] for i in range(n - 1)] + (['pqr'[n - 1] + 'p'] if close and n > 1 else [])
            c('meet:edges', 'the edges of a polygon of %d points%s that a curve may meet' % (n, ', closed' if close else ''), CURVE, [(f, o if isinstance(o, str) else o[0]) for f, o in got], {}, tuple(S('s' + w) for w in want), as_set=True)
    # of a pose: where the line across it meets the curve
    def across(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            ends = [numbers(ip, s, v) for v in vs[:2]]
            out.append((s.event('line', tuple(ends[0] + ends[1])), ('some', sym('t'))))
        return out
    y, w = S('y'), positive('w')
    half = sqrt(1 + y * y)
    q = dict(w=1 / half, x=Integer(0), y=Integer(0), z=y / half)
    left = rotate(q, (Integer(0), w, Integer(0)))
    T = xyz('gp')
    for den in (False, True):
        got = c.outcomes(HC + '::getSValue', [pose('g'), sym('w'), ('b', den)], coefs, of(3), ((r'HermiteCurve::getCollisionPointIn2D$', across),) + LENGTH, answer=with_line)
        for sg in (1, -1):
            pass
        lines = [(f, o if isinstance(o, str) else o[1]) for f, o in got]
        c('meet:across', 'the line across a pose', CURVE, lines, {**quaternion('gq', q), sym('w'): w}, tuple(a + b for a, b in zip(T, left)) + tuple(a - b for a, b in zip(T, left)))
        c('meet:across', 'the place of a pose on a curve', CURVE, [(f, o if isinstance(o, str) else o[0]) for f, o in got], {sym('L'): L}, (True, t * (L if den else 1)))


def with_equation(ip, s, v):
    return numbers(ip, s, ip.load(s, v)), tuple(x[1] for x in s.g('trace', ()) if x[0] == 'solve')


def with_edges(ip, s, v):
    return numbers(ip, s, ip.load(s, v)), tuple(x[1] for x in s.g('trace', ()) if x[0] == 'edge')


def with_line(ip, s, v):
    return numbers(ip, s, ip.load(s, v)), [x[1] for x in s.g('trace', ()) if x[0] == 'line'][0]


# ------------------------------------------------------------------ boxes
def box(n):
    return mkobj(BB, None, {BB + '::center': msg(PT, n + 'c'), BB + '::dimensions': msg(VT, n + 'd')})


def boxes(rep, c):
    C, D = xyz('bc'), xyz('bd')
    lo = tuple(x - d / 2 for x, d in zip(C, D))
    hi = tuple(x + d / 2 for x, d in zip(C, D))
    c('box:edges', 'how far the edges of a box are', BOX, c.outcomes(NS + 'getDistancesFromCenterToEdge', [box('b')]), {}, (hi[0], lo[0], hi[1], lo[1], hi[2], lo[2]))
    r, l, f, b = (S('e' + k) for k in 'rlfb')
    corners_ = c.outcomes(NS + 'getPointsFromBbox', [box('b')] + [sym('e' + k) for k in 'rlfb'])
    ring = [(hi[0] + f, hi[1] + l), (lo[0] - b, hi[1] + l), (lo[0] - b, lo[1] - r), (hi[0] + f, lo[1] - r)]
    c('box:corners', 'the corners of a box, widened, in order', BOX, corners_, {}, tuple(x for p in ring for x in p + (hi[2],)))
    y = S('y')
    half = sqrt(1 + y * y)
    q = dict(w=1 / half, x=Integer(0), y=Integer(0), z=y / half)
    T = xyz('pp')
    turned = [rotate(q, (x, z, hi[2])) for x, z in [(hi[0], hi[1]), (lo[0], hi[1]), (lo[0], lo[1]), (hi[0], lo[1])]]
    placed = [(p[0] + T[0], p[1] + T[1]) for p in turned]
    c('box:placed', 'the outline of a box at a pose is closed', BOX, c.outcomes(NS + 'toPolygon2D', [pose('p'), box('b')], None, of(2)), quaternion('pq', q), tuple(x for p in placed + placed[:1] for x in p))
    hull = ((r'get2DConvexHull$', lambda ip, st, e, o, args, f_: [(s, ip.load(s, vs[0])) for s, vs in ip.args(args, f_, st)]),)
    got = [(fa, o if isinstance(o, str) else tuple(x for i in range(0, len(o), 3) for x in [('op', '+', ('op', '*', o[i], ('f', 1000.0)), o[i + 1])])) for fa, o in c.outcomes(NS + 'toPolygon2D', [box('b')], None, of(1), hull)]
    c('box:outline', 'the outline of a box is the hull of its corners', BOX, got, {}, tuple(1000 * x + z for x in (lo[0], hi[0]) for z in (lo[1], hi[1])), as_set=True)
    # the nearest place of a segment
    p, a, d = (point(sym(n + 'x'), sym(n + 'y')) for n in 'pab')
    proj = c.outcomes(NS + 'pointToSegmentProjection', [p, a, d])
    A, V, k, h = (S('ax'), S('ay')), (S('bx') - S('ax'), S('by') - S('ay')), positive('k'), S('h')
    beside = lambda t: {sym('px'): A[0] + V[0] * t - V[1] * h, sym('py'): A[1] + V[1] * t + V[0] * h}
    B = (S('bx'), S('by'))
    for t, want, dom, text in ((k, (A[0] + V[0] * k, A[1] + V[1] * k), {k: (0, 1)}, 'beside it'), (-k, A, {}, 'behind it'), (1 + k, B, {}, 'past it'), (Integer(0), A, {}, 'at its start'), (Integer(1), B, {}, 'at its end')):
        c('box:nearest', 'the place of a segment that is nearest to a point %s' % text, BOX, proj, beside(t), want, dom, given=A + B + (h,))
    c('box:nearest', 'the place of a segment of no length that is nearest to a point', BOX, proj, {sym('bx'): A[0], sym('by'): A[1]}, A, given=A + (S('px'), S('py')))
    # of the edges of a polygon: the nearest of them all
    def nearest(ip, st, e, o, args, f_):
        out = []
        for s, vs in ip.args(args, f_, st):
            x = [numbers(ip, s, v) for v in vs]
            i, j = sorted(t[0][1] for t in x[1:])
            out.append((s.event('edge', (i, j)), point(('op', '+', sym('px'), sym('d' + i + j)), sym('py'))))
        return out
    names = ['v0', 'v1', 'v2']
    edges = ['v0v1', 'v1v2', 'v0v2']
    ring = polygon([point(sym(n), ('f', 0.0)) for n in names + names[:1]])
    got = c.outcomes(NS + 'getClosestPointOnPolygon', [p, ring], None, None, ((r'pointToSegmentProjection$', nearest),))
    for order in itertools.permutations(edges):
        x = [positive('g%d' % i) for i in range(3)]
        vals = {sym('d' + order[0]): x[0], sym('d' + order[1]): x[0] + x[1], sym('d' + order[2]): -x[0] - x[1] - x[2], **{sym('d' + n + n): 1000 + x[0] for n in names}}
        c('box:closest', 'the place of a polygon that is nearest to a point', BOX, got, vals, (S('px') + x[0], S('py')), n=2)
    # what the library tells of two boxes
    two = [pose('p'), box('b'), pose('q'), box('c')]
    both = [(fa, o) for fa, o in c.outcomes(NS + 'getPolygonDistance', two)]
    told(rep, c, both, 'box:distance', 'the distance between two boxes that are apart is the one between their outlines', 'two boxes that meet have no distance')
    hit(rep, c)
    c('box:subtract', 'the difference of two poses in the plane', BOX, c.outcomes(NS + 'subtractPoses', [pose('p'), pose('q')]), {}, (S('ppx') - S('qpx'), S('ppy') - S('qpy'), Integer(0)) + (Integer(0),) * 3 + (Integer(1),))
    c('box:pose', 'the pose of a point of the plane', BOX, c.outcomes(NS + 'toPose', [p]), {}, (S('px'), S('py'), Integer(0)) + (Integer(0),) * 3 + (Integer(1),))
    c('box:point', 'the point of the plane of a point', BOX, c.outcomes(NS + 'toBoostPoint', [msg(PT, 'p')]), {}, (S('px'), S('py')))


def outline(t):
    """the names of the pose and the box that a ring is made of: those of the symbols of its terms"""
    names = set()
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'sym':
                names.add(x[1][0])
            else:
                for y in x:
                    go(y)
    go(t)
    return names


def asked(facts):
    return {k: bool(v[1]) for k, v in facts.items() if k[0] == 'call' and k[1] == 'bg::intersects' and v[0] == 'b'}


def told(rep, c, paths, id, apart, meet):
    for f, o in paths:
        q = asked(f)
        rep.require(q and all({frozenset(outline(r)) for r in k[2:]} == {frozenset('pb'), frozenset('qc')} for k in q), 'C23:' + id, 'what is asked of two boxes is asked of the outlines of both at their poses', BOX)
        if isinstance(o, str):
            rep.bad('C23:' + id, 'two boxes have no distance: %s' % o, BOX)
            continue
        if any(q.values()):
            rep.require(o == (('b', False),), 'C23:' + id, meet, BOX)
        else:
            good = len(o) == 2 and o[0] == ('b', True) and o[1][0] == 'call' and o[1][1] == 'bg::distance' and {frozenset(outline(r)) for r in o[1][2:]} == {frozenset('pb'), frozenset('qc')}
            rep.require(good, 'C23:' + id, apart, BOX)


def hit(rep, c):
    """boxes collide if their heights and their outlines overlap"""
    from ..symbolic import Env, points
    paths = c.outcomes(NS + 'checkCollision2D', [pose('p'), box('b'), pose('q'), box('c')])
    z = {'p': S('ppz') + S('bcz'), 'q': S('qpz') + S('ccz')}
    b, d = positive('bdz'), positive('cdz')
    k = positive('k')
    for t, reach, text in ((k, True, 'overlap in height'), (1 + k, False, 'are one above the other')):
        for sg in (1, -1):
            vals = {sym('bdz'): b, sym('cdz'): d, sym('ppz'): S('qpz') + S('ccz') - S('bcz') + sg * t * (b + d) / 2}
            env = Env(vals)
            for x in points({S('qpz'), S('ccz'), S('bcz'), b, d, k}, 4, {k: (0, 1)} if reach else {}):
                on = [(f, o) for f, o in paths if env.holds({a: v for a, v in f.items() if a[0] == 'rel'}, x) is not False]
                rep.require(bool(on), 'C23:box:collision', 'two boxes that %s collide, or not' % text, HIT)
                for f, o in on:
                    q = asked(f)
                    want = reach and any(q.values())
                    rep.require(not q or all({frozenset(outline(r)) for r in a[2:]} == {frozenset('pb'), frozenset('qc')} for a in q), 'C23:box:collision', 'whether two boxes collide is asked of the outlines of both at their poses', HIT)
                    rep.require(not reach or bool(q), 'C23:box:collision', 'whether two boxes that %s collide depends on their outlines' % text, HIT)
                    rep.require(o == (('b', want),), 'C23:box:collision', 'two boxes that %s, and whose outlines %s, %s' % (text, 'meet' if q and any(q.values()) else 'do not meet' if q else 'are not looked at', 'collide' if want else 'do not collide'), HIT)
    # a point of a polygon
    ps = ('list', tuple(msg(PT, n) for n in 'def'))
    got = c.outcomes(NS + 'contains', [ps, msg(PT, 'p')])
    for f, o in got:
        q = [(k_, bool(v[1])) for k_, v in f.items() if k_[0] == 'call' and k_[1] in ('bg::within', 'bg::covered_by') and v[0] == 'b']
        good = len(q) == 1 and q[0][0][2] == (sym('px'), sym('py')) and q[0][0][3][0] == 'ring' and tuple(q[0][0][3][1:4]) == tuple((sym(n + 'x'), sym(n + 'y')) for n in 'def') and o == (('b', q[0][1]),)
        rep.require(good, 'C23:box:contains', 'whether a polygon contains a point is what the library tells of its corners, in their order', HIT)
