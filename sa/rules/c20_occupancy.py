"""The occupancy grid: which cells a line passes through, which cells a polygon covers, what the grid says of each cell."""
import itertools
from ..facts import load
from ..absint import Interp, State, mkobj, VOID
from ..algebra import Case, fraction, oo
from .. import eigen
from sympy import Symbol, Integer, expand, Rational

SS = 'simulation/simple_sensor_simulator/'
SRC = SS + 'src/sensor_simulation/occupancy_grid/'
TRAV = SRC + 'grid_traversal.cpp'
BUILDER = SRC + 'occupancy_grid_builder.cpp'
SENSOR = SRC + 'occupancy_grid_sensor.cpp'
B = 'simple_sensor_simulator::OccupancyGridBuilder'
PT, QT, PO = ('geometry_msgs::msg::' + x for x in ('Point', 'Quaternion', 'Pose'))
G = 'simple_sensor_simulator::GridTraversal'
T, IT = ('t', 'T'), ('t', 'it')
ARGS = [('sym', x) for x in ('sx', 'sy', 'ex', 'ey')]


def run(rep):
    rep.rule = ('abstract interpretation over real terms, whose normal forms are compared with those of the crossings of the grid lines, by cases of the direction and of where the start lies in its cell; '
                'the cells that a polygon marks and the values that are built of them, for every pair of cells about a small grid, with symbolic costs; the transformations as normal forms modulo |q| = 1; '
                'the sensor on symbolic entities: what it adds, and where it says the grid lies')
    prog = load([TRAV, BUILDER, SENSOR])
    traversal(rep, prog)
    transformations(rep, prog)
    clipping(rep, prog)
    marking(rep, prog)
    adding(rep, prog)
    sensor(rep, prog)


# ------------------------------------------------------------------ traversal
def axis(n):
    """the cases of one axis: where the start lies, and which way the line goes"""
    N, r, v = Symbol('n' + n, integer=True, nonnegative=True), fraction('r' + n), Symbol('v' + n, positive=True)
    out = []
    for what, s, cell in (('in a cell', N + r, N), ('on a grid line', N, N), ('in a cell of negative index', -N - r, -N - 1), ('on a grid line of negative index', -N - 1, -N - 1)):
        for way, d in (('up', v), ('down', -v), ('level', Integer(0))):
            out.append(('%s %s' % (way, what), s, cell, d))
    return out


def traversal(rep, prog):
    depth = 5 if rep.tier == 'thorough' else 3
    ip = Interp(prog)
    rets, throws = ip.run(prog.one(G + '::GridTraversal'), State().put(T, mkobj(G)), ('ptr', T, ()), ARGS)
    rep.analysed(ip)
    starts = []
    for s, _ in rets:
        ip = Interp(prog)
        rs, th = ip.run(prog.one(G + '::begin'), s, ('ptr', T, ()), [])
        rep.analysed(ip)
        throws = throws + th
        starts += [s2.put(IT, ip.load(s2, v)) for s2, v in rs]
    if not rep.require(starts and not throws, 'C20:begin', 'a traversal does not begin', TRAV):
        return
    # every sequence of steps: the cells, as terms, and what each path has found out of the terms
    runs = []

    def go(st, cells, k):
        ip = Interp(prog)
        rs, th = ip.run(prog.one(G + '::Iterator::operator!='), st, ('ptr', IT, ()), [mkobj(G + '::Sentinel')])
        rep.analysed(ip)
        rep.require(not th, 'C20:traversal:error', 'a traversal fails', TRAV)
        for s, v in rs:
            for s, more in ip.truth(s, ip.load(s, v)):
                if not more or k == depth:
                    runs.append((s.facts, cells, more))
                    continue
                ip2 = Interp(prog)
                ds, th = ip2.run(prog.one(G + '::Iterator::operator*'), s, ('ptr', IT, ()), [])
                rep.analysed(ip2)
                for s2, c in ds:
                    c = ip2.load(s2, c)
                    ip3 = Interp(prog)
                    ns, th2 = ip3.run(prog.one(G + '::Iterator::operator++'), s2, ('ptr', IT, ()), [])
                    rep.analysed(ip3)
                    rep.require(not th and not th2, 'C20:traversal:error', 'a traversal fails', TRAV)
                    for s3, _ in ns:
                        go(s3, cells + (c,), k + 1)
    for st in starts:
        go(st, (), 0)
    rep.count('paths', len(runs))
    n = 0
    for tx, sx, cx, vx in axis('x'):
        for ty, sy, cy, vy in axis('y'):
            case = Case({ARGS[0]: sx, ARGS[1]: sy, ARGS[2]: sx + vx, ARGS[3]: sy + vy})
            before = len(rep.violations)
            seen = 0
            for facts, cells, more in runs:
                if case.possible(facts):
                    seen += follow(rep, case, facts, cells, more, (sx, cx, vx), (sy, cy, vy), 'x %s, y %s' % (tx, ty))
            n += seen
            rep.require(seen > 0, 'C20:traversal', 'a line with x %s, y %s: no path of the traversal is one of it' % (tx, ty), TRAV)
            if len(rep.violations) == before:
                rep.ok('line with x %s, y %s' % (tx, ty), TRAV)
    rep.count('paths compared with a line', n)


def crossing(s, c, v):
    """when the line leaves a cell in this direction"""
    return oo if v == 0 else ((c + 1 if v.is_positive else c) - s) / v


def follow(rep, case, facts, cells, more, X, Y, text):
    (sx, cx, vx), (sy, cy, vy) = X, Y
    for k, c in enumerate(cells + (None,)):
        X_, Y_ = crossing(sx, cx, vx), crossing(sy, cy, vy)
        x1, y1 = case.known(facts, X_, Integer(1)), case.known(facts, Y_, Integer(1))
        if not x1 or not y1:
            return 0
        if c is None:
            if more:
                return 1            # the bound on the steps
            for o, d in ((x1, 'x'), (y1, 'y')):
                if not rep.require(o <= {'>'}, 'C20:traversal:end', 'a line with %s: the traversal ends after %d cells though the line still crosses a grid line in %s' % (text, k, d), TRAV):
                    break
            return 1
        if not rep.require(x1 <= {'<', '='} or y1 <= {'<', '='}, 'C20:traversal:end', 'a line with %s: the traversal goes on after %d cells though the line may have ended' % (text, k), TRAV):
            return 1
        got = pair(case, c)
        if got is None:
            rep.need(False, 'the cell %s is not understood' % (c,))
        rep.count('cells compared')
        if not rep.require(got == (case_norm(cx), case_norm(cy)), 'C20:traversal', 'a line with %s: cell %d is (%s, %s), and not (%s, %s), where the line is' % (text, k, got[0], got[1], cx, cy), TRAV):
            return 1
        # the next cell, as the line goes: across the grid line that it meets first, either one if it meets both at once
        o = case.known(facts, X_, Y_)
        if not o:
            return 0
        if k + 1 < len(cells):
            nxt = pair(case, cells[k + 1])
            dx = (cx + (1 if vx.is_positive else -1), cy) if vx != 0 else None
            dy = (cx, cy + (1 if vy.is_positive else -1)) if vy != 0 else None
            if dx and nxt == tuple(map(case_norm, dx)) and o <= {'<', '='}:
                cx, cy = dx
            elif dy and nxt == tuple(map(case_norm, dy)) and o <= {'>', '='}:
                cx, cy = dy
            else:
                rep.require(False, 'C20:traversal', 'a line with %s: after (%s, %s) it goes on to (%s, %s), while the crossing in x is %s the one in y' % (
                    (text, cx, cy) + (nxt or ('?', '?')) + (' or '.join({'<': 'before', '=': 'with', '>': 'after'}[q] for q in sorted(o)),)), TRAV)
                return 1
        elif more or k + 1 == len(cells):
            if o <= {'<'} or (o <= {'<', '='} and vx != 0):
                cx = cx + (1 if vx.is_positive else -1) if vx != 0 else cx
            elif o <= {'>', '='} and vy != 0:
                cy = cy + (1 if vy.is_positive else -1)
            else:
                return 1
    return 1


def case_norm(e):
    from ..algebra import norm
    return norm(Integer(0) + e)


def pair(case, c):
    if c[0] == 'obj' and len(c[3]) == 2:
        a, b = case.val(dict(c[3]).get('first', c[3][0][1])), case.val(dict(c[3]).get('second', c[3][1][1]))
    elif c[0] in ('tuple', 'pair') or (c[0] == 'obj'):
        return None
    else:
        return None
    return None if a is None or b is None else (a, b)


# ------------------------------------------------------------------ the builder
def sym(n):
    return ('sym', n)


def point(x, y, z=('f', 0.0)):
    return mkobj(PT, None, {PT + '::x': x, PT + '::y': y, PT + '::z': z})


def builder(rep, prog, w, h):
    ip = Interp(prog)
    fs = [f for f in prog.by_name[B + '::OccupancyGridBuilder']]
    rets, throws = ip.run(fs[0], State().put(T, mkobj(B)), ('ptr', T, ()), [sym('res'), h, w, sym('occ'), sym('inv')])
    rep.analysed(ip)
    rep.need(len(fs) == 1 and len(rets) == 1 and not throws, 'an OccupancyGridBuilder is made in one way')
    return rets[0][0]


def reset_to(rep, prog, st, origin):
    ip = Interp(prog)
    rets, throws = ip.run(prog.one(B + '::reset'), st, ('ptr', T, ()), [origin])
    rep.analysed(ip)
    rep.require(len(rets) == 1 and not throws, 'C20:reset', 'reset has one outcome', BUILDER)
    return rets[0][0]


QUAT = [Symbol('q' + k, real=True) for k in 'wxyz']


def unit(e):
    """a polynomial in a unit quaternion, with w^2 replaced"""
    w, x, y, z = QUAT
    e = expand(e)
    from sympy import Poly
    p = Poly(e, w)
    return expand(sum(c * (w if k % 2 else 1) * (1 - x**2 - y**2 - z**2)**(k // 2) for (k,), c in p.terms()))


def turned(v, inverse=False):
    w, x, y, z = QUAT
    R = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
         [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
         [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
    return [sum((R[j][i] if inverse else R[i][j]) * v[j] for j in range(3)) for i in range(3)]


def symbols(n):
    return {sym(n + k): Symbol(n + k, real=True) for k in 'xyz'}


def coords(v):
    d = dict(v[3])
    return [d.get(PT + '::' + k) for k in 'xyz']


def transformations(rep, prog):
    st = builder(rep, prog, sym('W'), sym('H'))
    pose = mkobj(PO, None, {PO + '::position': point(sym('ox'), sym('oy'), sym('oz')), PO + '::orientation': mkobj(QT, None, {QT + '::' + k: sym('q' + k) for k in 'wxyz'})})
    st = reset_to(rep, prog, st, pose)
    case = Case({**{sym('q' + k): QUAT['wxyz'.index(k)] for k in 'wxyz'}, **symbols('o'), **symbols('p'), sym('res'): Symbol('res', positive=True), sym('W'): Symbol('W', positive=True), sym('H'): Symbol('H', positive=True)})
    S = case.values
    p, o = ([S[sym(n + k)] for k in 'xyz'] for n in 'po')
    for name, want, n in (('transformToGrid', turned([a - b for a, b in zip(p, o)], True), 3),
                          ('transformToPixel', [p[0] / S[sym('res')] + S[sym('W')] / 2, p[1] / S[sym('res')] + S[sym('H')] / 2], 2)):
        ip = Interp(prog, hooks=eigen.HOOKS)
        rets, throws = ip.run(prog.one(B + '::' + name), st, ('ptr', T, ()), [point(sym('px'), sym('py'), sym('pz'))])
        rep.analysed(ip)
        rep.require(rets and not throws, 'C20:' + name, '%s fails' % name, BUILDER)
        for s, v in rets:
            got = [None if c is None else case.val(c) for c in coords(ip.load(s, v))[:n]]
            rep.need(None not in got, '%s: %s is not understood' % (name, ip.load(s, v)))
            for k, g, x in zip('xyz', got, want):
                rep.require(unit(g * S[sym('res')] - x * S[sym('res')]) == 0, 'C20:' + name, '%s: the %s coordinate of a point is %s and not %s' % (name, k, g, x), BUILDER)


XY = 'point_xy'


def ring_made(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        vs = [v for v in (ip.load(s, v) for v in vs) if v[0] == 'list']
        out.append((s, vs[0] if vs else ('list', ())))
    return out


def xy_made(ip, st, e, o, args, f):
    return [(s, mkobj(XY, None, {'x': ip.load(s, vs[0]), 'y': ip.load(s, vs[1])})) for s, vs in ip.args(args, f, st) if len(vs) >= 2] or None


def xy_read(ip, st, e, o, args, f):
    v = xy(ip.load(st, o))
    return v and [(st, v['xy'.index(f['n'].split('::')[-1])])]


def xy(v):
    if v[0] == 'obj' and v[1] == XY:
        d = dict(v[3])
        return d['x'], d['y']
    if v[0] == 'obj' and XY in v[1] and isinstance(v[2], tuple) and len(v[2]) >= 4:
        return v[2][2], v[2][3]
    return None


def rings(ip, s, v):
    """the points of a ring"""
    if v[0] == 'obj' and isinstance(v[2], tuple) and len(v[2]) > 2 and v[2][2][0] == 'list':
        v = v[2][2]
    v = ip.load(s, v)
    return [xy(ip.load(s, x)) for x in v[1]] if v[0] == 'list' else None


def clipping(rep, prog):
    """makeOccupiedArea: the hull of the primitive, in the grid's frame, cut to the grid"""
    st = builder(rep, prog, sym('W'), sym('H'))
    st = st.put(('t', 'p'), mkobj('simple_sensor_simulator::primitives::Box'))
    case = Case({sym('res'): Symbol('res', positive=True), sym('W'): Symbol('W', positive=True), sym('H'): Symbol('H', positive=True)})
    res, W, H = (case.values[sym(k)] for k in ('res', 'W', 'H'))
    for n in (0, 1, 3):
        hull = [point(sym('hx%d' % i), sym('hy%d' % i), sym('hz%d' % i)) for i in range(n)]
        for m in (0, 1, 2):
            def cut(ip, st, e, o, args, f):
                out = []
                for s, vs in ip.args(args, f, st):
                    s = s.event(('cut', tuple(tuple(rings(ip, s, ip.load(s, v)) or ()) for v in vs[:2])))
                    s = ip.write(s, vs[2], ('list', tuple(('list', (mkobj(XY, None, {'x': sym('ix%d' % j), 'y': sym('iy%d' % j)}),)) for j in range(m))), e)
                    out.append((s, ('b', True)))
                return out

            def grid(ip, st, e, o, args, f):
                return [(s, point(*[('call', 'grid', k, ip.load(s, vs[0])) for k in 'xyz'])) for s, vs in ip.args(args, f, st)]
            ip = Interp(prog, hooks=[(r'::get2DConvexHull$', lambda ip, st, e, o, args, f: [(st, ('list', tuple(hull)))]), (r'^boost::geometry::intersection', cut), (r'::transformToGrid$', grid),
                                     (r'ring<.*::ring$', ring_made), (r'point_xy<.*::point_xy$', xy_made), (r'point_xy<.*::[xy]$', xy_read)])
            rets, throws = ip.run(prog.one(B + '::makeOccupiedArea'), st, ('ptr', T, ()), [('alias', ('t', 'p'), ())])
            rep.analysed(ip)
            where = BUILDER
            rep.require(rets and not throws, 'C20:occupied', 'makeOccupiedArea fails', where)
            for s, v in rets:
                v = ip.load(s, v)
                cuts = [x[0][1] for x in s.g('trace', ()) if x[0][0] == 'cut']
                rep.need(v[0] == 'list', 'makeOccupiedArea gives a list')
                got = [coords(ip.load(s, p))[:2] for p in v[1]]
                if n == 0 and not cuts:
                    rep.require(not got, 'C20:occupied', 'makeOccupiedArea gives an area for a primitive without a hull', where)
                    continue
                want = [[sym('ix0'), sym('iy0')]] if m else []
                rep.require(got == want, 'C20:occupied', 'makeOccupiedArea does not give the part of the primitive that lies in the grid: %s' % (got,), where)
                if not rep.require(len(cuts) == 1, 'C20:occupied', 'makeOccupiedArea cuts the primitive %d times' % len(cuts), where):
                    continue
                half = [(a * W * res / 2, b * H * res / 2) for a, b in ((1, 1), (1, -1), (-1, -1), (-1, 1))]
                body = [(('call', 'grid', 'x', p), ('call', 'grid', 'y', p)) for p in hull]
                ok = [False, False]
                for c in cuts[0]:
                    if list(c) == body:
                        ok[0] = True
                        continue
                    pts = [(case.val(a), case.val(b)) for a, b in c]
                    if None not in sum(map(list, pts), []):
                        ok[1] |= any([(expand(a - x), expand(b - y)) for (a, b), (x, y) in zip(pts, half[k:] + half[:k])] == [(0, 0)] * 4 for k in range(4)) and len(pts) == 4
                rep.require(ok[0], 'C20:occupied', 'makeOccupiedArea does not cut the hull of the primitive, in the frame of the grid', where)
                rep.require(ok[1], 'C20:occupied', 'makeOccupiedArea does not cut it with the area of the grid (clockwise)', where)


PAIR = 'std::pair<int, int>'


def cells_of(ip, st, e, o, args, f):
    """the cells of a line, as the rule says, with the points the line was asked for"""
    out = []
    for s, vs in ip.args(args, f, st):
        if len(vs) != 4:
            return None
        key = tuple(ip.load(s, v) for v in vs)
        s = s.event(('line', key))
        out.append((s, ('list', tuple(mkobj(PAIR, None, {'std::pair::first': ('i', a), 'std::pair::second': ('i', b)}) for a, b in s.g('cells').get(key, ())))))
    return out


def pixels(ip, st, e, o, args, f):
    return [(s, ip.load(s, vs[0])) for s, vs in ip.args(args, f, st)]


def marking(rep, prog):
    """addPolygon and build: for each row, what lies between the outermost cells that the edges pass through"""
    w, h = 3, 2
    base = builder(rep, prog, ('i', w), ('i', h))
    case = [(c, r) for r in range(-1, h + 1) for c in range(-1, w + 1)]
    hooks = [(r'GridTraversal::GridTraversal$', cells_of), (r'OccupancyGridBuilder::transformToPixel$', pixels)]
    polys = [(a, b) for a in case for b in case if a <= b] + [(a, b, c) for a in case[::3] for b in case[::4] for c in case[::(1 if rep.tier == 'thorough' else 5)]]
    n = 0
    grids = {}
    for k, poly in enumerate(polys):
        pts = [point(('f', c + .5), ('f', r + .25)) for c, r in poly]
        edges = {}
        visited = set(poly)
        for i, p in enumerate(poly):
            q = poly[(i + 1) % len(poly)]
            xs = tuple(x for t in (i, (i + 1) % len(poly)) for x in coords(pts[t])[:2])
            line = [p] + ([] if k % 3 else [q])            # some lines cross more than the cell of their start
            edges.setdefault(xs, tuple(line if p != q else []))
        for what in ('occupied', 'invisible'):
            if what == 'invisible' and k % 2 and rep.tier != 'thorough':
                continue
            st = base.gset(cells=_D(edges)).put(('t', 'hull'), ('list', tuple(pts)))
            ip = Interp(prog, hooks=hooks)
            rets, throws = ip.run(prog.one(B + '::addPolygon'), st, ('ptr', T, ()), [('alias', T, (B + '::%s_grid_' % what,)), ('alias', ('t', 'hull'), ())])
            rep.analysed(ip)
            rep.require(rets and not throws, 'C20:mark', 'addPolygon fails', BUILDER)
            for s, _ in rets:
                asked = {x[0][1] for x in s.g('trace', ()) if x[0][0] == 'line'}
                turned_ = {x[2:] + x[:2] for x in asked}
                rep.require(set(edges) <= asked | turned_, 'C20:mark:edges', 'a polygon of %d points: not all of its edges are passed along' % len(poly), BUILDER)
                rep.require(asked <= set(edges) | {x[2:] + x[:2] for x in edges}, 'C20:mark:edges', 'a polygon of %d points: something else than its edges is passed along' % len(poly), BUILDER)
                n += 1
                finished(rep, prog, s, poly, visited, what, w, h)
                if k % 7 == 0 and what == 'occupied':
                    grids[poly] = (s, visited)
    # an empty polygon marks nothing; two polygons, and cells both occupied and invisible
    st = base.gset(cells=_D({})).put(('t', 'hull'), ('list', ()))
    ip = Interp(prog, hooks=hooks)
    for s, _ in ip.run(prog.one(B + '::addPolygon'), st, ('ptr', T, ()), [('alias', T, (B + '::occupied_grid_',)), ('alias', ('t', 'hull'), ())])[0]:
        finished(rep, prog, s, (), set(), 'occupied', w, h)
    for poly, (s, visited) in grids.items():
        for second in (polys[5], polys[len(polys) // 2], polys[-1]):
            for what in ('occupied', 'invisible'):
                pts = [point(('f', c + .5), ('f', r + .25)) for c, r in second]
                s2 = s.gset(cells=_D({})).put(('t', 'hull'), ('list', tuple(pts)))
                ip = Interp(prog, hooks=hooks)
                rets, throws = ip.run(prog.one(B + '::addPolygon'), s2, ('ptr', T, ()), [('alias', T, (B + '::%s_grid_' % what,)), ('alias', ('t', 'hull'), ())])
                rep.require(rets and not throws, 'C20:mark', 'addPolygon fails', BUILDER)
                for s3, _ in rets:
                    n += 1
                    finished(rep, prog, s3, poly + second, visited, 'occupied', w, h, (set(second), what))
    rep.count('polygons marked', n)
    # after a reset, nothing of the last grid is left
    for poly, (s, visited) in list(grids.items())[:5]:
        s = reset_to(rep, prog, s, mkobj(PO, None, {}))
        finished(rep, prog, s, (), set(), 'reset', w, h)


class _D:
    def __init__(self, d):
        self.d = d

    def get(self, k, default):
        return self.d.get(k, default)


def covered(visited, w, h):
    out = set()
    for r in range(h):
        cs = [c for c, q in visited if q == r]
        out |= {(c, r) for c in range(w) if cs and min(cs) <= c <= max(cs)}
    return out


def finished(rep, prog, st, poly, visited, what, w, h, more=None):
    ip = Interp(prog)
    rets, throws = ip.run(prog.one(B + '::build'), st, ('ptr', T, ()), [])
    rep.analysed(ip)
    rep.require(rets and not throws, 'C20:build', 'build fails', BUILDER)
    occ, inv = (covered(visited, w, h) if what in (k, 'reset') else set() for k in ('occupied', 'invisible'))
    if more and more[1] == 'occupied':
        occ = occ | covered(more[0], w, h)
    if more and more[1] == 'invisible':
        inv = inv | covered(more[0], w, h)
    want = [sym('occ') if (c, r) in occ else sym('inv') if (c, r) in inv else ('i', 0) for r in range(h) for c in range(w)]
    for s, _ in rets:
        ip = Interp(prog)
        for s2, v in ip.run(prog.one(B + '::get'), s, ('ptr', T, ()), [])[0]:
            v = ip.load(s2, v)
            if v[0] != 'list':
                rep.need(False, 'the values of the grid are a list')
            got = [('i', x[1]) if x[0] in ('i', 'f', 'b') else x for x in v[1]]
            rep.require(got == want, 'C20:%s' % ('reset' if what == 'reset' else 'values'), 'a grid of %d x %d, %s cells %s%s: the values are %s' % (
                w, h, what, sorted(visited), ' and then %s cells %s' % (more[1], sorted(more[0])) if more else '', [x[1] for x in got]), BUILDER)


def recorded(name, value=None):
    def h(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            vs = tuple(ip.load(s, v) for v in vs)
            out.append((s.event((name,) + vs), value if value is not None else ('call', name) + vs))
        return out
    return h


def adding(rep, prog):
    """add: what hides and what is hidden go to their own grids, up to the number of primitives that a counter can hold"""
    def marked(ip, st, e, o, args, f):
        return [(s.event(('mark', vs[0], ip.load(s, vs[1]))), VOID) for s, vs in ip.args(args, f, st)]
    base = builder(rep, prog, ('i', 3), ('i', 2)).put(('t', 'p'), mkobj('simple_sensor_simulator::primitives::Box'))
    hooks = [(r'::makeOccupiedArea$', recorded('occupied')), (r'::makeInvisibleArea$', recorded('invisible')), (r'OccupancyGridBuilder::addPolygon$', marked)]
    ip = Interp(prog, hooks=hooks)
    rets, throws = ip.run(prog.one(B + '::add'), base, ('ptr', T, ()), [('alias', ('t', 'p'), ())])
    rep.analysed(ip)
    rep.require(rets and not throws, 'C20:add', 'the first primitive is not accepted', BUILDER)
    occ = ('call', 'occupied', mkobj('simple_sensor_simulator::primitives::Box'))
    want = {('alias', T, (B + '::occupied_grid_',)): occ, ('alias', T, (B + '::invisible_grid_',)): ('call', 'invisible', occ)}
    for s, _ in rets:
        marks = [x[0][1:] for x in s.g('trace', ()) if x[0][0] == 'mark']
        rep.require(len(marks) == 2 and dict(marks) == want, 'C20:add', 'a primitive does not mark the area it occupies as occupied and the area it hides as invisible, once each', BUILDER)
    # the cells count primitives in the type of the counter
    full = ('i', 32767)
    cur = dict(ip.load(base, ('alias', T, ()))[3])
    for n, accepted in ((('i', 32766), True), (full, False)):
        st = base.put(T, mkobj(B, None, {**cur, B + '::primitive_count_': n}))
        ip = Interp(prog, hooks=hooks)
        rets, throws = ip.run(prog.one(B + '::add'), st, ('ptr', T, ()), [('alias', ('t', 'p'), ())])
        rep.require(bool(rets) == accepted and bool(throws) != accepted, 'C20:add:limit', 'primitive number %d is %s' % (n[1] + 1, 'refused' if accepted else 'accepted, though the cells cannot count it'), BUILDER)
        for s, v in throws:
            rep.require(not [x for x in s.g('trace', ()) if x[0][0] == 'mark'], 'C20:add:limit', 'a primitive that is refused is marked', BUILDER)
        if not accepted:
            ip = Interp(prog, hooks=hooks)
            rets, throws = ip.run(prog.one(B + '::add'), reset_to(rep, prog, st, mkobj(PO, None, {})), ('ptr', T, ()), [('alias', ('t', 'p'), ())])
            rep.require(rets and not throws, 'C20:reset', 'a grid that was full accepts no primitive after a reset', BUILDER)


# ------------------------------------------------------------------ the sensor
OB = 'simple_sensor_simulator::OccupancyGridSensorBase'
O = 'simple_sensor_simulator::OccupancyGridSensor<nav_msgs::msg::OccupancyGrid>'


def msg(t, **k):
    return mkobj(t, None, {'.' + a: v for a, v in k.items()})


def vector(n):
    return msg('geometry_msgs::Point', x=sym(n + 'x'), y=sym(n + 'y'), z=sym(n + 'z'))


def entity(n, type_=('sym', 'type'), name=None):
    return msg('traffic_simulator_msgs::EntityStatus', name=('s', name or n),
               pose=msg('geometry_msgs::Pose', position=vector(n), orientation=msg('geometry_msgs::Quaternion', **{k: sym(n + 'q' + k) for k in 'wxyz'})),
               bounding_box=msg('traffic_simulator_msgs::BoundingBox', center=vector(n + 'c'), dimensions=vector(n + 'd')), type=msg('traffic_simulator_msgs::EntityType', type=type_))


def accessor(ip, st, e, o, args, f):
    """a field of a message, which is a record of the rule's making"""
    if args or o is None:
        return None
    v = ip.load(st, o)
    k = '.' + f['n'].split('::')[-1]
    if v[0] == 'obj' and k in dict(v[3]):
        return [(st, ('alias', o[1], o[2] + (k,)) if o[0] in ('alias', 'ptr') else dict(v[3])[k])]
    return None


def to_msg(ip, st, e, o, args, f):
    def conv(m):
        t = m[1].replace('geometry_msgs::', 'geometry_msgs::msg::')
        return mkobj(t, None, {t + '::' + k[1:]: conv(v) if v[0] == 'obj' else v for k, v in m[3]})
    return [(ip.write(s, vs[1], conv(ip.load(s, vs[0])), e), VOID) for s, vs in ip.args(args, f, st)]


def box_made(ip, st, e, o, args, f):
    return [(s, mkobj('box', None, {'b': ('tuple',) + tuple(ip.load(s, v) for v in vs)})) for s, vs in ip.args(args, f, st)]


ACCESS = [(r'(_msgs|_schema)::\w+::\w+$', accessor)]
EGO = ('enum', 'EGO')


def sensor(rep, prog):
    cfg = msg('OccupancyGridSensorConfiguration', entity=('s', 'ego'), filter_by_range=sym('filter'), height=sym('H'), width=sym('W'), resolution=sym('res'), range=sym('range'))
    base = State().put(T, mkobj(O, None, {OB + '::configuration_': cfg}))
    hooks = ACCESS + [(r'simulation_interface::toMsg$', to_msg), (r'OccupancyGridBuilder::(reset|add|build)$', lambda ip, st, e, o, args, f: recorded(f['n'].split('::')[-1], VOID)(ip, st, e, o, args, f)),
                      (r'OccupancyGridBuilder::get$', lambda ip, st, e, o, args, f: [(st.event(('get',)), sym('grid'))]), (r'::getDetectedObjects$', recorded('detected', ('list', (('s', 'b'),)))),
                      (r'primitives::Box::Box$', box_made)] + eigen.HOOKS
    n = 0
    for names in (('ego', 'a', 'b'), ('a', 'ego'), ('b', 'a', 'ego'), ('ego',), ('a', 'b'), ('ego', 'a', 'a')):
        for lidar in ((), ('a',), ('b', 'a'), ('a', 'ego'), ('c',)):
            st = base.put(('t', 'es'), ('list', tuple(entity(x + '%d' % i, name=x) for i, x in enumerate(names)))).put(('t', 'ld'), ('list', tuple(('s', x) for x in lidar)))
            ip = Interp(prog, hooks=hooks)
            rets, throws = ip.run(prog.one(O + '::getOccupancyGrid'), st, ('ptr', T, ()), [('alias', ('t', 'es'), ()), sym('stamp'), ('alias', ('t', 'ld'), ())])
            rep.analysed(ip)
            text = 'with the entities %s and %s seen by the lidar, ' % (list(names), list(lidar))
            fine = 'ego' in names and len(set(names)) == len(names)
            if not fine:
                rep.require(throws and not rets, 'C20:sensor:error', text + 'there is no error', SENSOR)
                continue
            rep.require(rets and not throws, 'C20:sensor:error', text + 'there is no grid', SENSOR)
            seen = set()
            for s, v in rets:
                n += 1
                tr = [x[0] for x in s.g('trace', ())]
                filt = s.facts.get(sym('filter'))
                filt = any(x[0] == 'detected' for x in tr) if filt is None else filt[1]
                seen.add(filt)
                detected = {'b'} if filt else set(lidar)
                grid(rep, ip, s, ip.load(s, v), tr, names, [(i, x) for i, x in enumerate(names) if x != 'ego' and x in detected], text + ('filtered by range, ' if filt else ''))
            rep.require(seen == {True, False}, 'C20:sensor:filter', text + 'the configuration does not tell whether to filter by range', SENSOR)
    rep.count('grids of the sensor', n)
    lookups(rep, prog)


def flat(v, *path):
    for k in path:
        v = {a.split('::')[-1]: b for a, b in v[3]}.get(k) if v is not None and v[0] == 'obj' else None
    return v


def grid(rep, ip, s, v, tr, names, want, text):
    i = names.index('ego')
    ego = 'ego%d' % i
    syms = {}
    for j, x in enumerate(names):
        b = x + '%d' % j
        syms.update({**symbols(b), **symbols(b + 'c'), **symbols(b + 'd'), **{sym(b + 'q' + k): QUAT['wxyz'.index(k)] for k in 'wxyz'}})
    syms.update({sym(k): Symbol(k, positive=True) for k in ('W', 'H', 'res')})
    case = Case(syms)
    order = [x[0] for x in tr if x[0] != 'detected']
    rep.require(order[:1] == ['reset'] and order[-2:] == ['build', 'get'] and order.count('reset') == order.count('build') == 1 and order[1:-2] == ['add'] * len(want), 'C20:sensor:entities',
                text + 'the grid is not reset, given the %d detected entities, built and read, in this order: %s' % (len(want), order), SENSOR)
    for x in tr:
        if x[0] == 'reset':
            rep.require([flat(x[1], 'position', k) for k in 'xyz'] == [sym(ego + k) for k in 'xyz'] and flat(x[1], 'orientation') is not None and identity(flat(x[1], 'orientation')),
                        'C20:sensor:origin', text + 'the grid is not placed at the ego, facing as the map does', SENSOR)
    boxes = [dict(x[1][3])['b'][1:] for x in tr if x[0] == 'add' and x[1][0] == 'obj' and x[1][1] == 'box']
    rep.need(len(boxes) == sum(x[0] == 'add' for x in tr), 'what is added to the grid is a box')
    for (j, x), b in zip(want, boxes):
        n = x + '%d' % j
        rep.require(list(b[:3]) == [sym(n + 'd' + k) for k in 'xyz'], 'C20:sensor:box', text + 'the box of entity %s is not of its dimensions' % x, SENSOR)
        c = turned([syms[sym(n + 'c' + k)] for k in 'xyz'])
        got = [case.val(flat(b[3], 'position', k)) if flat(b[3], 'position', k) else None for k in 'xyz']
        rep.need(None not in got, 'the position of a box is understood')
        rep.require(all(unit(g - syms[sym(n + k)] - c['xyz'.index(k)]) == 0 for k, g in zip('xyz', got)), 'C20:sensor:box', text + 'the box of entity %s is not where the entity is' % x, SENSOR)
        rep.require([flat(b[3], 'orientation', k) for k in 'wxyz'] == [sym(n + 'q' + k) for k in 'wxyz'], 'C20:sensor:box', text + 'the box of entity %s is not turned as the entity is' % x, SENSOR)
    rep.require(flat(v, 'data') == sym('grid') and flat(v, 'info', 'height') == sym('H') and flat(v, 'info', 'width') == sym('W') and flat(v, 'info', 'resolution') == sym('res'), 'C20:sensor:message',
                text + 'the message does not hold the grid and its size', SENSOR)
    rep.require('stamp' in str(flat(v, 'header', 'stamp')) and flat(v, 'header', 'frame_id') == ('s', 'map'), 'C20:sensor:message', text + 'the message is not stamped with the time and the frame of the map', SENSOR)
    at = [case.val(flat(v, 'info', 'origin', 'position', k)) for k in 'xyz'] if flat(v, 'info', 'origin', 'position', 'x') else [None]
    rep.need(None not in at, 'the origin of the message is understood')
    off = (syms[sym('W')] * syms[sym('res')] / 2, syms[sym('H')] * syms[sym('res')] / 2, 0)
    rep.require(all(expand(a - syms[sym(ego + k)] + d) == 0 for a, k, d in zip(at, 'xyz', off)) and identity(flat(v, 'info', 'origin', 'orientation')), 'C20:sensor:origin',
                text + 'the origin of the message is (%s, %s), and not the corner of a grid that has the ego at its center' % (at[0], at[1]), SENSOR)


def identity(q):
    d = {a.split('::')[-1]: b for a, b in q[3]}
    return q[0] == 'obj' and all(d.get(k) in (None, ('i', 0), ('f', 0.0)) for k in 'xyz') and d.get('w') in (None, ('i', 1), ('f', 1.0))


def lookups(rep, prog):
    """getSensorPose, getDetectedObjects"""
    kinds = prog.enums.get('traffic_simulator_msgs::EntityType_Enum') or {}
    cfg = msg('OccupancyGridSensorConfiguration', entity=('s', 'ego'), range=sym('range'))
    base = State().put(T, mkobj(O, None, {OB + '::configuration_': cfg}))
    for names in (('ego', 'a', 'b'), ('a', 'ego'), ('a', 'b'), ()):
        es = tuple(entity(x, type_=sym('t' + x)) for x in names)
        st = base.put(('t', 'es'), ('list', es))
        ip = Interp(prog, hooks=ACCESS)
        rets, throws = ip.run(prog.one(OB + '::getSensorPose'), st, ('ptr', T, ()), [('alias', ('t', 'es'), ())])
        rep.analysed(ip)
        for s, v in rets:
            v = ip.load(s, v)
            rep.require('ego' in names and v == dict(dict(es[names.index('ego')][3]))['.pose'], 'C20:sensor:pose', 'with the entities %s, the pose of the sensor is that of %s' % (list(names), v), SENSOR)
            rep.require(any(k[0] == 'rel' and sym('tego') in k and r == frozenset('=') for k, r in s.facts.items()), 'C20:sensor:pose', 'the sensor may be attached to what is no ego entity', SENSOR)
        rep.require(bool(rets) == ('ego' in names), 'C20:sensor:pose', 'with the entities %s, the sensor has %s pose' % (list(names), 'no' if 'ego' in names else 'a'), SENSOR)
        rep.require(bool(throws), 'C20:sensor:pose', 'with the entities %s, there is always a pose' % (list(names),), SENSOR)
        for lidar in ((), ('a',), ('b', 'a', 'ego'), ('c',)):
            if 'ego' not in names:
                continue
            st2 = st.put(('t', 'ld'), ('list', tuple(('s', x) for x in lidar)))
            ip = Interp(prog, hooks=ACCESS + [(r'::getSensorPose$', lambda ip, st, e, o, args, f: [(st, dict(es[names.index('ego')][3])['.pose'])])])
            rets, throws = ip.run(prog.one(OB + '::getDetectedObjects'), st2, ('ptr', T, ()), [('alias', ('t', 'es'), ()), ('alias', ('t', 'ld'), ())])
            rep.analysed(ip)
            want = set()
            near = [x for x in names if x != 'ego' and x in lidar]
            for bits in itertools.product((True, False), repeat=len(near)):
                want.add(tuple((x, b) for x, b in zip(near, bits)))
            got = set()
            for s, v in rets:
                v = [x[1] for x in ip.load(s, v)[1]]
                row = []
                for x in near:
                    d = [r for k, r in s.facts.items() if k[0] == 'rel' and sym('range') in k and any(('sym', x + 'x') in flatten(t) for t in k[1:]) and distance(k, x)]
                    far = [r for k, r in s.facts.items() if k[0] == 'rel' and sym('range') in k and distance(k, x)]
                    rels = far[0] if far else None
                    rep.require(rels is not None, 'C20:sensor:range', 'entity %s is %s without regard to its distance from the sensor' % (x, 'detected' if x in v else 'not detected'), SENSOR)
                    if rels is None:
                        row.append((x, x in v))
                        continue
                    k = [k for k, r in s.facts.items() if k[0] == 'rel' and sym('range') in k and distance(k, x)][0]
                    if k[1] == sym('range'):
                        rels = frozenset({'<': '>', '>': '<', '=': '='}[r] for r in rels)
                    rep.require((x in v) == (rels <= {'<', '='}) and rels in (frozenset('<='), frozenset('>'), frozenset('<'), frozenset('=')), 'C20:sensor:range', 'entity %s, at a distance %s the range, is %s' % (
                        x, '/'.join(sorted(rels)), 'detected' if x in v else 'not detected'), SENSOR)
                    row.append((x, x in v))
                rep.require(set(v) <= set(near) and len(set(v)) == len(v), 'C20:sensor:detected', 'with the entities %s and %s seen by the lidar, %s are detected' % (list(names), list(lidar), v), SENSOR)
                got.add(tuple(row))
            rep.require(got == want and not throws, 'C20:sensor:detected', 'with the entities %s and %s seen by the lidar, what is detected is not what is seen within the range' % (list(names), list(lidar)), SENSOR)


def flatten(t):
    out = {t}
    for x in t:
        if isinstance(x, tuple):
            out |= flatten(x)
    return out


def distance(k, x):
    """the other side of a comparison with the range is the distance between an entity and the ego"""
    t = k[2] if k[1] == sym('range') else k[1]
    if t[0] != 'call' or not t[1].endswith(('hypot', 'sqrt', 'distance', 'norm')):
        return False
    case = Case({**symbols(x), **symbols('ego')})
    args = t[2:]
    want = sum((case.values[sym(x + c)] - case.values[sym('ego' + c)])**2 for c in 'xyz')
    vals = [case.val(a) for a in args]
    if None in vals:
        return False
    got = sum(v**2 for v in vals) if t[1].endswith('hypot') else vals[0]
    return expand(got - want) == 0
