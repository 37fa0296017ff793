"""Points and polygons of Boost.Geometry, as it is documented, for terms of the abstract domain.

Whether polygons meet, and how far apart they are, is left to the library: a symbol of the polygons."""
import re
from .absint import mkobj, VOID
from .eigen import Ring

OUTER = 'bg::outer'


def point(x, y):
    return mkobj('boost_point', ('bg',), {'bg::x': x, 'bg::y': y})


def is_point(v):
    return v[0] == 'obj' and v[2] == ('bg',)


def xy(v):
    d = dict(v[3])
    return d['bg::x'], d['bg::y']


def polygon(points):
    return mkobj('boost_polygon', ('bgp',), {OUTER: ('list', tuple(points))})


def is_polygon(v):
    return v[0] == 'obj' and v[2] == ('bgp',)


def corners(v):
    l = dict(v[3])[OUTER]
    return l[1] if l[0] == 'list' else None


def place(v):
    return (v[1], v[2]) if v is not None and v[0] in ('alias', 'ptr') else None


def members(ip, st, e, o, args, f):
    cls = re.match(r'^boost::geometry::model::(?:d2::)?(\w+)', f['n']).group(1)
    fn = f['n'].split('::')[-1].split('<')[0]
    out = []
    for s, vals in ip.args(args, f, st):
        vs = [ip.load(s, v) for v in vals]
        me = ip.load(s, o) if o is not None else None
        if fn == cls:
            if len(vs) == 1:
                out.append((s, vs[0]))
            elif cls == 'point_xy':
                out.append((s, point(*vs) if len(vs) == 2 else point(('sym', 'unset x'), ('sym', 'unset y'))))
            else:
                out.append((s, polygon(())))
        elif fn == 'operator=':
            out.append((ip.store(s, place(o), vs[0]), o))
        elif fn in ('x', 'y') and not vs and is_point(me):
            out.append((s, xy(me)[fn == 'y']))
        elif fn in ('x', 'y') and len(vs) == 1 and is_point(me):
            out.append((ip.store(s, place(o), point(*[vs[0] if k == fn else t for k, t in zip('xy', xy(me))])), VOID))
        elif fn == 'outer' and place(o):
            out.append((s, ('alias', o[1], o[2] + (OUTER,))))
        else:
            return None
    return out


def functions(ip, st, e, o, args, f):
    fn = f['n'].split('::')[-1].split('<')[0]
    out = []
    for s, vals in ip.args(args, f, st):
        vs = [ip.load(s, v) for v in vals]
        R = Ring(ip, s)
        p = [xy(v) if is_point(v) else None for v in vs]
        if fn in ('subtract_point', 'add_point') and p[0] and p[1]:
            op = R.sub if fn[0] == 's' else R.add
            out.append((ip.store(s, place(vals[0]), point(*[op(a, b) for a, b in zip(p[0], p[1])])), VOID))
        elif fn in ('multiply_value', 'divide_value') and p[0]:
            op = R.mul if fn[0] == 'm' else lambda a, b: R.op('/', a, b)
            out.append((ip.store(s, place(vals[0]), point(*[op(a, vs[1]) for a in p[0]])), VOID))
        elif fn == 'dot_product':
            out.append((s, R.add(R.mul(p[0][0], p[1][0]), R.mul(p[0][1], p[1][1]))))
        elif fn in ('distance', 'comparable_distance') and p[0] and p[1]:
            d = ('call', 'hypot', R.sub(p[0][0], p[1][0]), R.sub(p[0][1], p[1][1]))
            out.append((s, d if fn == 'distance' else R.mul(d, d)))
        elif fn == 'exterior_ring' and place(vals[0]):
            out.append((s, ('alias', vals[0][1], vals[0][2] + (OUTER,))))
        elif fn == 'append' and place(vals[0]) and p[1] and is_polygon(vs[0]):
            out.append((ip.store(s, place(vals[0]), polygon(corners(vs[0]) + (vs[1],))), VOID))
        elif fn in ('intersects', 'disjoint', 'distance', 'within', 'covered_by', 'overlaps', 'touches'):
            # disjoint is defined as what does not intersect; both are symmetric
            key = vs if fn == 'within' or fn == 'covered_by' else sorted(vs, key=repr)
            name = 'intersects' if fn == 'disjoint' else fn
            t = ('call', 'bg::' + name) + tuple(shape(v) for v in key)
            if fn == 'distance':
                out.append((s, t))
            else:
                out += [(n, ('b', b != (fn == 'disjoint'))) for n, b in ip.truth(s, t)]
        else:
            return None
    return out


def shape(v):
    if is_polygon(v):
        return ('ring',) + tuple(xy(c) for c in corners(v))
    return xy(v) if is_point(v) else v


BOOST = [(r'^boost::geometry::model::(d2::)?(point_xy|polygon)<.*>::[^:]+$', members), (r'^boost::geometry::(?!model)\w+', functions)]


# ------------------------------------------------------------------ complex numbers
def number(re_, im):
    return mkobj('complex', ('cx',), {'cx::re': re_, 'cx::im': im})


def complex_(ip, st, e, o, args, f):
    fn = f['n'].split('::')[-1].split('<')[0]
    out = []
    for s, vals in ip.args(args, f, st):
        vs = [ip.load(s, v) for v in vals]
        me = ip.load(s, o) if o is not None else vs[0] if vs else None
        R = Ring(ip, s)
        cx = lambda v: (dict(v[3])['cx::re'], dict(v[3])['cx::im']) if v[0] == 'obj' and v[2] == ('cx',) else (v, ('f', 0.0))
        if fn == 'complex':
            out.append((s, vs[0] if len(vs) == 1 and vs[0][0] == 'obj' else number(*(vs + [('f', 0.0)] * (2 - len(vs))))))
        elif fn in ('real', 'imag') and me is not None and me[0] == 'obj' and me[2] == ('cx',) and len(vs) <= (o is None):
            out.append((s, cx(me)[fn == 'imag']))
        elif fn in ('operator+', 'operator-') and len(vs) == 2 and any(v[0] == 'obj' and v[2] == ('cx',) for v in vs):
            op = R.add if fn[-1] == '+' else R.sub
            out.append((s, number(*[op(a, b) for a, b in zip(cx(vs[0]), cx(vs[1]))])))
        elif fn in ('conj',) and me[0] == 'obj':
            out.append((s, number(cx(me)[0], R.neg(cx(me)[1]))))
        else:
            return None
    return out


COMPLEX = [(r'^std::complex<\w+>::\w+$', complex_), (r'^std::(real|imag|conj)$', complex_)]


# ------------------------------------------------------------------ constants
PI = 3.141592653589793
NAMED = {'pi': PI, 'two_pi': 2 * PI, 'half_pi': PI / 2, 'third_pi': PI / 3, 'two_thirds_pi': 2 * PI / 3, 'root_three': 3 ** .5, 'half_root_three': 3 ** .5 / 2, 'half': .5, 'third': 1 / 3, 'root_two': 2 ** .5}


def constant(ip, st, e, o, args, f):
    n = f['n'].split('::')[-1].split('<')[0]
    return [(st, ('f', NAMED[n]))] if n in NAMED else None


CONSTANT = [(r'^boost::math::constants::\w+(<.*>)?$', constant)]
