"""nlohmann::json: a value is null, what it was made from, an object by its keys, or an array of items."""
from .absint import NIL, VOID, mkobj

J = r'^nlohmann::.*basic_json<.*>::'
OBJECT, ARRAY = 'nlohmann::object', 'nlohmann::array'


def _loc(o):
    return (o[1], o[2])


def make(ip, st, e, o, args, f):
    """a value is what it is made from, and null without it"""
    out = []
    real = [a for a in args if not (a or {}).get('dflt')]
    for s, vs in ip.args(args, f, st):
        v = ip.load(s, vs[0]) if real else NIL
        if v == ('list', ()) and 'initializer_list' in str((f.get('pt') or [''])[0]):
            v = NIL
        out.append((s, v))
    return out


def array(ip, st, e, o, args, f):
    return [(st, mkobj(ARRAY, None, {'items': ('list', ())}))]


def index(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        k = ip.load(s, vs[0])
        if o is None or o[0] not in ('alias', 'ptr'):
            return None
        c = ip.loadraw(s, _loc(o))
        key = ('json', k)
        if c[0] != 'obj' or c[1] != OBJECT:
            s = ip.store(s, _loc(o), mkobj(OBJECT, None, {key: NIL}))
        elif key not in dict(c[3]):
            s = ip.store(s, _loc(o), mkobj(OBJECT, None, {**dict(c[3]), key: NIL}))
        out.append((s, ('alias', o[1], o[2] + (key,))))
    return out


def assign(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        v = ip.load(s, vs[0])
        out.append((ip.store(s, _loc(o), v), o))
    return out


def push(ip, st, e, o, args, f):
    out = []
    for s, vs in ip.args(args, f, st):
        c = ip.loadraw(s, _loc(o))
        items = dict(c[3])['items'][1] if c[0] == 'obj' and c[1] == ARRAY else () if c == NIL else None
        if items is None:
            return None
        out.append((ip.store(s, _loc(o), mkobj(ARRAY, None, {'items': ('list', items + (ip.load(s, vs[0]),))})), VOID))
    return out


def dump(ip, st, e, o, args, f):
    return [(s, ('dumped', ip.loadraw(s, _loc(o)) if o[0] == 'alias' else o)) for s, vs in ip.args(args, f, st)]


JSON = [(J + r'basic_json$', make), (J + 'array$', array), (J + r'operator\[\]$', index), (J + 'operator=$', assign), (J + '(push_back|emplace_back|operator\\+=)$', push), (J + 'dump$', dump)]


# ---- boost::json: the same values; an element is put in place empty and then filled
B = r'^boost::json::'


def emplace(kind):
    def h(ip, st, e, o, args, f):
        empty = mkobj(ARRAY, None, {'items': ('list', ())}) if kind == ARRAY else mkobj(OBJECT, None, {})
        return [(ip.store(st, _loc(o), empty), o)]
    return h


def holder(empty):
    def h(ip, st, e, o, args, f):
        out = []
        for s, vs in ip.args(args, f, st):
            v = ip.load(s, vs[0]) if vs else NIL
            out.append((s, v if v[0] == 'obj' and v[1] in (OBJECT, ARRAY) else empty))
        return out
    return h


def insert(ip, st, e, o, args, f):
    """array::emplace_back and push_back give the element"""
    r = push(ip, st, e, o, args, f)
    if r is None:
        return None
    out = []
    for s, _ in r:
        n = len(items(ip.loadraw(s, _loc(o))))
        out.append((s, ('alias', o[1], o[2] + ('items', ('ix', n - 1)))))
    return out


def at(ip, st, e, o, args, f):
    """an element of an array"""
    xs = items(ip.loadraw(st, _loc(o)))
    n = f['n'].split('::')[-1]
    if not xs:
        return None
    return [(st, ('alias', o[1], o[2] + ('items', ('ix', 0 if n == 'front' else len(xs) - 1))))]


BOOST = [(B + 'array::(front|back)$', at), (r'^boost::core::basic_string_view<char>::basic_string_view$', make), (B + r'object::operator\[\]$', index), (B + 'value::operator=$', assign), (B + 'value::emplace_array$', emplace(ARRAY)),
         (B + 'value::emplace_object$', emplace(OBJECT)), (B + 'array::(push_back|emplace_back)$', insert), (B + 'object::object$', holder(mkobj(OBJECT, None, {}))),
         (B + 'array::array$', holder(mkobj(ARRAY, None, {'items': ('list', ())}))), (B + 'value::value$', make), (B + '(object|array|value)::storage$', lambda ip, st, e, o, args, f: [(st, NIL)]),
         (B + 'storage_ptr::storage_ptr$', lambda ip, st, e, o, args, f: [(st, NIL)]), (B + '(object|array)::operator=$', assign), (B + 'value::(as|get)_(object|array)$', lambda ip, st, e, o, args, f: [(st, o)])]


def members(v):
    """{key: value} of a json object, None of anything else"""
    return {k[1][1] if k[1][0] == 's' else k[1]: x for k, x in v[3] if k[0] == 'json'} if v[0] == 'obj' and v[1] == OBJECT else None


def items(v):
    return dict(v[3])['items'][1] if v[0] == 'obj' and v[1] == ARRAY else None
