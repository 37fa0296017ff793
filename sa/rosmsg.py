"""What the message builders and the transformations of ROS do, for terms of the abstract domain."""
import re
from .absint import mkobj, VOID
from .eigen import Ring, quat, mat, q4, els, is_quat, is_mat


def build(ip, st, e, o, args, f):
    return [(st, mkobj('builder', None, {}))]


def set_field(ip, st, e, o, args, f):
    m = re.search(r'(\w+)::(msg|srv)::builder::Init_(\w+?)_(\w+)::(\w+)$', f['n'])
    pkg, kind, msg, first, field = m.groups()
    t = '%s::%s::%s' % (pkg, kind, msg)
    if first != field:
        return None
    me = ip.load(st, o) if o is not None else None
    have = dict(me[3]) if me is not None and me[0] == 'obj' else {}
    out = []
    for s, vs in ip.args(args, f, st):
        out.append((s, mkobj(t, None, {**have, t + '::' + field: ip.load(s, vs[0])})))
    return out


def equal(ip, st, e, o, args, f):
    """messages are equal if all of their fields are"""
    m = re.match(r'(\w+::msg::)operator([!=]=)$', f['n'])
    out = []
    for s, vals in ip.args(args, f, st):
        a, b = [ip.load(s, v) for v in vals]
        if a[0] != 'obj' or b[0] != 'obj' or a[1] not in (GM + 'Point', GM + 'Vector3', GM + 'Quaternion'):
            return None
        names = 'xyzw' if a[1].endswith('Quaternion') else 'xyz'
        states = [s]
        for x, y in zip(fields(a, a[1], names), fields(b, a[1], names)):
            more = []
            for s2 in states:
                for s3, t in ip.compare(s2, '==', x, y):
                    if t:
                        more.append(s3)
                    else:
                        out.append((s3, ('b', m.group(2) == '!=')))
            states = more
        out += [(s2, ('b', m.group(2) == '==')) for s2 in states]
    return out


BUILD = [(r'^geometry_msgs::msg::operator[!=]=$', equal), (r'^\w+::build$', build), (r'::builder::Init_\w+::\w+$', set_field)]

GM = 'geometry_msgs::msg::'


def fields(v, t, names):
    d = dict(v[3])
    return [d.get(t + '::' + n, ('f', 0.0)) for n in names]


def of_quat(v):
    x, y, z, w = fields(v, GM + 'Quaternion', 'xyzw')
    return quat(w, x, y, z)


def to_quat(v):
    w, x, y, z = q4(v)
    return mkobj(GM + 'Quaternion', None, {GM + 'Quaternion::' + n: t for n, t in zip('wxyz', (w, x, y, z))})


def of_vec(v, t):
    return mat(3, 1, fields(v, GM + t, 'xyz'))


def to_vec(v, t):
    return mkobj(GM + t, None, {GM + t + '::' + n: x for n, x in zip('xyz', els(v))})


def transform(q, p):
    return mkobj('tf2::Transform', ('tf',), {'q': q, 'p': p})


def is_tf(v):
    return v[0] == 'obj' and v[2] == ('tf',)


def zeros():
    return mat(3, 1, [('f', 0.0)] * 3)


def identity():
    return quat(('f', 1.0), ('f', 0.0), ('f', 0.0), ('f', 0.0))


def conjugate(R, q):
    w, x, y, z = q4(q)
    return quat(w, R.neg(x), R.neg(y), R.neg(z))


def inverse(R, tf):
    d = dict(tf[3])
    c = conjugate(R, d['q'])
    t = R.mmul(mat(3, 3, R.rotation(q4(c))), d['p'])
    return transform(c, mat(3, 1, [R.neg(x) for x in els(t)]))


def apply(R, tf, v):
    d = dict(tf[3])
    t = R.mmul(mat(3, 3, R.rotation(q4(d['q']))), v)
    return mat(3, 1, [R.add(a, b) for a, b in zip(els(t), els(d['p']))])


def compose(R, a, b):
    return transform(quat(*R.qmul(q4(dict(a[3])['q']), q4(dict(b[3])['q']))), apply(R, a, dict(b[3])['p']))


def of_rpy(R, r, p, y):
    c = lambda t: ('call', 'cos', R.op('/', t, ('f', 2.0)))
    s = lambda t: ('call', 'sin', R.op('/', t, ('f', 2.0)))
    qx = [c(r), s(r), ('f', 0.0), ('f', 0.0)]
    qy = [c(p), ('f', 0.0), s(p), ('f', 0.0)]
    qz = [c(y), ('f', 0.0), ('f', 0.0), s(y)]
    return quat(*R.qmul(R.qmul(qz, qy), qx))


def rpy(R, q):
    w, x, y, z = q4(q)
    m, two, one = R.mul, ('f', 2.0), ('f', 1.0)
    return (('call', 'atan2', m(two, R.add(m(w, x), m(y, z))), R.sub(one, m(two, R.add(m(x, x), m(y, y))))),
            ('call', 'asin', m(two, R.sub(m(w, y), m(z, x)))),
            ('call', 'atan2', m(two, R.add(m(w, z), m(x, y))), R.sub(one, m(two, R.add(m(y, y), m(z, z))))))


def tf2(ip, st, e, o, args, f):
    """tf2 as it is documented; rotations are of length one"""
    fn = f['n'][5:]
    out = []
    for s, vals in ip.args(args, f, st):
        vs = [ip.load(s, v) for v in vals]
        R = Ring(ip, s)
        me = ip.load(s, o) if o is not None else None
        r = one(ip, s, R, fn, o, me, vals, vs)
        if r is None:
            return None
        out.append(r if hasattr(r[0], 'put') else (s, r))
    return out


def put(ip, s, place, v):
    return ip.store(s, (place[1], place[2]), v)


def one(ip, s, R, fn, o, me, vals, vs):
    n = len(vs)
    if fn == 'Vector3::Vector3':
        return zeros() if n == 0 else mat(3, 1, vs) if n == 3 else vs[0] if n == 1 and is_mat(vs[0]) else None
    if fn == 'Quaternion::Quaternion':
        return identity() if n == 0 else quat(vs[3], *vs[:3]) if n == 4 else vs[0] if n == 1 and is_quat(vs[0]) else None
    if fn == 'Matrix3x3::Matrix3x3':
        return mkobj('tf2::Matrix3x3', ('rot',), {'q': identity() if n == 0 else vs[0]}) if n == 0 or is_quat(vs[0]) else vs[0] if n == 1 else None
    if fn == 'Transform::Transform':
        return transform(identity(), zeros()) if n == 0 else vs[0] if is_tf(vs[0]) else transform(vs[0], vs[1] if n > 1 else zeros())
    if fn == 'fromMsg' and n == 2 and vals[1][0] == 'alias':
        t = vs[0][1][len(GM):] if vs[0][0] == 'obj' else ''
        if t == 'Quaternion':
            v = of_quat(vs[0])
        elif t in ('Vector3', 'Point'):
            v = of_vec(vs[0], t)
        elif t == 'Transform':
            a, b = fields(vs[0], GM + t, ('translation', 'rotation'))
            v = transform(of_quat(b), of_vec(a, 'Vector3'))
        elif t == 'Pose':
            a, b = fields(vs[0], GM + t, ('position', 'orientation'))
            v = transform(of_quat(b), of_vec(a, 'Point'))
        else:
            return None
        return put(ip, s, vals[1], v), VOID
    if fn == 'toMsg':
        if n == 1:
            if is_tf(vs[0]):
                d = dict(vs[0][3])
                return mkobj(GM + 'Transform', None, {GM + 'Transform::translation': to_vec(d['p'], 'Vector3'), GM + 'Transform::rotation': to_quat(d['q'])})
            return to_quat(vs[0]) if is_quat(vs[0]) else to_vec(vs[0], 'Vector3') if is_mat(vs[0]) else None
        if is_tf(vs[0]):
            d = dict(vs[0][3])
            return put(ip, s, vals[1], mkobj(GM + 'Pose', None, {GM + 'Pose::position': to_vec(d['p'], 'Point'), GM + 'Pose::orientation': to_quat(d['q'])})), VOID
        return (put(ip, s, vals[1], to_vec(vs[0], 'Point')), VOID) if is_mat(vs[0]) else None
    if fn == 'quatRotate' and is_quat(vs[0]):
        return R.mmul(mat(3, 3, R.rotation(q4(vs[0]))), vs[1])
    if me is None:
        return None
    m = fn.split('::')[-1]
    if m == 'operator=' and n == 1 and o[0] == 'alias':
        return put(ip, s, o, vs[0]), o
    if is_quat(me):
        w, x, y, z = q4(me)
        if m in ('x', 'y', 'z', 'w', 'getX', 'getY', 'getZ', 'getW') and n == 0:
            return dict(w=w, x=x, y=y, z=z)[m[-1].lower()]
        if m == 'setRPY' and n == 3:
            return put(ip, s, o, of_rpy(R, *vs)), VOID
        if m == 'inverse':
            return conjugate(R, me)
        if m == 'operator*' and is_quat(vs[0]):
            return quat(*R.qmul(q4(me), q4(vs[0])))
    if is_mat(me):
        if m in ('x', 'y', 'z', 'getX', 'getY', 'getZ') and n == 0:
            return els(me)['xyz'.index(m[-1].lower())]
        if m in ('operator+', 'operator-') and n == 1 and is_mat(vs[0]):
            return mat(3, 1, [R.op(m[8], a, b) for a, b in zip(els(me), els(vs[0]))])
        if m == 'operator*' and n == 1 and not is_mat(vs[0]):
            return mat(3, 1, [R.mul(a, vs[0]) for a in els(me)])
        if m == 'dot':
            return R.add(*[R.mul(a, b) for a, b in zip(els(me), els(vs[0]))])
    if me[0] == 'obj' and me[2] == ('rot',):
        q = dict(me[3])['q']
        if m == 'getRPY' and n >= 3 and all(v[0] == 'alias' for v in vals[:3]):
            for v, t in zip(vals, rpy(R, q)):
                s = put(ip, s, v, t)
            return s, VOID
        if m == 'operator*' and is_mat(vs[0]):
            return R.mmul(mat(3, 3, R.rotation(q4(q))), vs[0])
        if m in ('inverse', 'transpose'):
            return mkobj('tf2::Matrix3x3', ('rot',), {'q': conjugate(R, q)})
    if is_tf(me):
        d = dict(me[3])
        if m == 'inverse':
            return inverse(R, me)
        if m == 'inverseTimes':
            return compose(R, inverse(R, me), vs[0])
        if m == 'operator*':
            return compose(R, me, vs[0]) if is_tf(vs[0]) else apply(R, me, vs[0]) if is_mat(vs[0]) else None
        if m in ('getRotation', 'getOrigin'):
            return d['q' if m == 'getRotation' else 'p']
        if m in ('setRotation', 'setOrigin') and o[0] == 'alias':
            return put(ip, s, o, transform(vs[0], d['p']) if m == 'setRotation' else transform(d['q'], vs[0])), VOID
    return None


TF2 = [(r'^tf2::', tf2)]
