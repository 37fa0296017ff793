"""Abstract transformers for the standard library, Boost and a few ROS idioms."""
import re
from .absint import (TRUE, FALSE, NIL, VOID, NONE, I, Sx, is_const, is_num, mkobj, of_get, of_set, strip_type,
                     mutable_ref, dedupe, Undecided)

SEQ = r'std::(?:__cxx11::)?(?:vector|list|deque|set|map|unordered_map|unordered_set|multimap|multiset|array|initializer_list|__cxx11::list|_Base_bitset|basic_string_view|span)|std::filesystem::(?:__cxx11::)?(?:recursive_)?directory|boost::iterator_range'
PTR = r'std::(?:shared_ptr|unique_ptr|__shared_ptr|__shared_ptr_access|weak_ptr|__uniq_ptr_impl)'
OPT = r'std::optional|boost::optional|std::_Optional_base_impl|boost::optional_detail'
ITER = r'__gnu_cxx::__normal_iterator|std::_List_(?:const_)?iterator|std::_Rb_tree_(?:const_)?iterator|std::__detail::_Node_(?:const_)?iterator|std::_Deque_iterator|std::reverse_iterator|std::move_iterator|std::__detail::_Node_iterator_base|std::_Fwd_list_iterator'


def short(n):
    i = n.rfind('::')
    # operators such as "operator std::string" keep their tail
    j = n.find('::operator')
    if j >= 0:
        return n[j + 2:]
    return n[i + 2:] if i >= 0 else n


def owner(n):
    j = n.find('::operator')
    if j >= 0:
        return n[:j]
    i = n.rfind('::')
    return n[:i] if i >= 0 else ''


def loc(a):
    return (a[1], a[2])


INTS = {'bool': (0, 1), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1), 'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1),
        'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1), 'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1)}


def limit(t, what):
    if t in ('double', 'float'):
        d = {'double': {'epsilon': 2.0**-52, 'max': 1.7976931348623157e308, 'min': 2.2250738585072014e-308}, 'float': {'epsilon': 2.0**-23, 'max': 3.4028234663852886e38, 'min': 1.1754943508222875e-38}}[t]
        d = dict(d, lowest=-d['max'], infinity=float('inf'), quiet_NaN=float('nan'))
        return ('f', d[what]) if what in d and what != 'quiet_NaN' else ('call', 'nan') if what == 'quiet_NaN' else None
    if t in INTS and what in ('min', 'max', 'lowest'):
        return I(INTS[t][1 if what == 'max' else 0])
    return None


def abs_f(ip, e, f, st):
    if len(e['a']) != 1:
        return None
    out = []
    for s, vs in ip.args(e['a'], None, st):
        v = ip.load(s, vs[0])
        out.append((s, (v[0], abs(v[1])) if v[0] in ('i', 'f') else ('call', 'std::abs', v)))
    return out


def call(ip, e, f, st, o):
    n = f['n']
    s = short(n)
    own = owner(n)
    std = n.startswith('std::') or n.startswith('boost::') or n.startswith('__gnu_cxx::')
    if n in ('exit', 'abort', '_exit', '_Exit', 'std::exit', 'std::abort', 'std::terminate', 'std::quick_exit', 'quick_exit', '__assert_fail', 'std::_Exit'):
        for s2, vals in ip.args(e['a'], f, st):
            ip.throw(s2, mkobj('$' + s, None, {'code': ip.load(s2, vals[0])} if vals else {}))
        return []
    if o is None:
        mm = re.match(r'std::numeric_limits<(.*)>::(\w+)$', n)
        if mm:
            v = limit(mm.group(1), mm.group(2))
            if v is not None:
                return [(st, v)]
        if n == '__builtin_expect':
            return ip.ev(e['a'][0], st)
        if not std and s.startswith('operator'):
            return None
        if re.match(r'std::filesystem::(__cxx11::)?operator/$', n):
            return fs_join(ip, e, f, st)
        fn = (BOOST.get(s) if n.startswith('boost::') else None) or (FREE.get(s) if (std or n in FREE_ANY) else None)
        if fn is not None:
            return fn(ip, e, f, st)
        return None
    if o is not None and std and re.match(r'(?:%s|std::queue|std::stack)' % SEQ, own):
        o = ('alias',) + ip.cloc(st, loc(o))
    key = None
    if s == 'operator!' and re.match(r'std::(_Expr|valarray)', own):
        x = ip.load(st, o)
        while x[0] == 'obj' and x[1].startswith('std::valarray') and x[2] and x[2][0] == 'new' and len(x[2]) >= 3:
            x = x[2][-1]
        return [(s2, ('b', not b)) for s2, b in ip.truth(st, x)]
    mm = re.match(r'std::(less|greater|less_equal|greater_equal|equal_to|not_equal_to|plus|minus|multiplies|divides)\b', own)
    if mm and s == 'operator()' and len(e['a']) == 2:
        op = {'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!=', 'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/'}[mm.group(1)]
        res = []
        for s2, vs in ip.args(e['a'], f, st):
            for s3, a in arithmetic_value(ip, s2, ip.load(s2, vs[0]), e):
                for s4, b in arithmetic_value(ip, s3, ip.load(s3, vs[1]), e):
                    res.append((s4, ip.arith(s4, op, a, b)))
        return res
    if re.match(r'(?:%s)' % ITER, own):
        key = ITER_M
    elif re.match(r'(?:%s)' % PTR, own):
        key = PTR_M
    elif re.match(r'(?:%s)' % OPT, own):
        key = OPT_M
    elif re.match(r'std::(?:__cxx11::)?basic_string', own):
        key = STR_M
    elif re.match(r'(?:%s)' % SEQ, own):
        key = SEQ_M
    elif re.match(r'std::(queue|stack)\b', own):
        key = QUEUE_M if 'queue' in own[:11] else STACK_M
    elif own.startswith('std::__exception_ptr'):
        key = PTR_M
    elif own.startswith('std::function') or own.startswith('std::_Maybe_unary'):
        key = FUN_M
    elif re.match(r'std::(atomic|__atomic_base)', own):
        key = ATOM_M
    elif own.startswith('std::reference_wrapper'):
        key = REF_M
    elif re.match(r'std::filesystem::(__cxx11::)?path$', own):
        if s.startswith('operator ') :
            return fs_id(ip, e, f, st, o)
        key = PATH_M
    elif own.startswith('std::variant') and s == 'operator=':
        return assign(ip, e, f, st, o)
    elif own.startswith('std::type_info') or own.startswith('std::type_index'):
        key = TY_M
    elif own.startswith('std::basic_ostream') or own.startswith('std::basic_istream') or 'stringstream' in own or own.startswith('std::basic_ios'):
        key = STREAM_M
    elif own.startswith('std::match_results') or own.startswith('std::__cxx11::match_results'):
        key = MATCH_M
    elif re.match(r'std::(__cxx11::)?regex_(token_)?iterator', own):
        key = RX_M
    elif re.match(r'std::(__cxx11::)?sub_match', own):
        if s.startswith('operator basic_string') or s.startswith('operator std::') or s.startswith('operator string'):
            return submatch_str(ip, e, f, st, o)
        key = SUBMATCH_M
    if key is not None:
        h = key.get(s)
        if h is not None:
            return h(ip, e, f, st, o)
    if s == 'what' and f.get('const'):
        t = told_what(ip.load(st, o))
        if t is not None:
            return [(st, t)]
        return [(st, ('call', 'what', ip.load(st, o)))]
    return None


# ------------------------------------------------------------------ helpers
def arithmetic_value(ip, st, v, e):
    """what a class object with a conversion to an arithmetic type converts to"""
    if v[0] == 'obj':
        r = ip.prog.records.get(v[1])
        for m in (r or {}).get('m', []):
            if re.match(r'operator (bool|char|short|int|long|unsigned|float|double|value_type)', m['n']):
                fn = ip.prog.func(m['k'])
                if fn is not None and ip.may_inline(fn):
                    s, a = ip.temp(st, v, (id(e), 'conv'))
                    return [(s2, ip.load(s2, x)) for s2, x in ip.invoke(fn, s, ('ptr',) + a[1:], [], e)]
    return [(st, v)]


def vals(ip, e, f, st):
    for s, vs in ip.args(e['a'], f, st):
        yield s, vs


def ret_arg(i=0):
    def h(ip, e, f, st):
        return ip.ev(e['a'][i], st)
    return h


# ------------------------------------------------------------------ iterators
def begin(pos):
    def free(ip, e, f, st):
        out = []
        for s, a in ip.lv(e['a'][0], st):
            out.append((s, ('iter', ip.cloc(s, loc(a)), pos)))
        return out
    return free


def mbegin(pos):
    def m(ip, e, f, st, o):
        return [(st, ('iter', ip.cloc(st, loc(o)), pos))]
    return m


def itval(ip, st, o):
    return ip.load(st, o)


def it_pos(ip, st, v):
    """(sequence, position) of an iterator into a known sequence"""
    c = ip.loadraw(st, v[1])
    if c[0] not in ('list', 's'):
        return c, None
    p = 0 if v[2] == 'begin' else len(c[1]) if v[2] == 'end' else v[2]
    return c, p if isinstance(p, int) else None


def mrbegin(pos):
    def m(ip, e, f, st, o):
        return [(st, ('rev', ('iter', ip.cloc(st, loc(o)), pos)))]
    return m


def it_deref(ip, e, f, st, o):
    v = itval(ip, st, o)
    if v[0] == 'rev':
        st, v = ip.iter_step(st, v[1], -1, e)
    if v[0] == 'iter':
        c, p = it_pos(ip, st, v)
        if c[0] == 's' and p is not None and 0 <= p < len(c[1]):
            return [(st, I(ord(c[1][p])))]
    return [(st, ip.deref(st, v))]


def it_arrow(ip, e, f, st, o):
    v = itval(ip, st, o)
    if v[0] == 'rev':
        st, v = ip.iter_step(st, v[1], -1, e)
    a = ip.deref(st, v)
    return [(st, ('ptr', a[1], a[2]))]


def it_step(d):
    def m(ip, e, f, st, o):
        v = itval(ip, st, o)
        if v[0] == 'rev':
            st, nv = ip.iter_step(st, v[1], -d, e)
            return [(ip.store(st, loc(o), ('rev', nv)), v if e.get('a') else o)]
        if v[0] != 'iter':
            st2, t = ip.fresh(st, e, 'it')
            return [(ip.store(st2, loc(o), t), o)]
        st, nv = ip.iter_step(st, v, d, e)
        post = bool(e.get('a'))
        st = ip.store(st, loc(o), nv)
        return [(st, v if post else o)]
    return m


def it_plus(sign):
    def m(ip, e, f, st, o):
        out = []
        for s, vs in vals(ip, e, f, st):
            v, d = itval(ip, s, o), ip.load(s, vs[0])
            if v[0] == 'iter' and d[0] == 'i':
                s, nv = ip.iter_step(s, v, sign * d[1], e)
            elif v[0] == 'iter' and d[0] == 'iter':
                nv = ('call', 'std::distance', v, d)
                if v[1] == d[1]:
                    pv, pd = it_pos(ip, s, v)[1], it_pos(ip, s, d)[1]
                    if pv is not None and pd is not None:
                        nv = I(pv - pd)
            else:
                s, nv = ip.fresh(s, e, 'it')
            out.append((s, nv))
        return out
    return m


def lexicographic(ip, s, op, a, b, e):
    """comparison of sequences of known length, element by element"""
    if a[0] != 'list' or b[0] != 'list':
        return None
    x, y = [[ip.load(s, v) for v in c[1]] for c in (a, b)]
    if any(v[0] in ('obj', 'new') for v in x + y):
        return None
    if op in ('==', '!='):
        if len(x) != len(y):
            return [(s, ('b', op == '!='))]
        states, out = [s], []
        for p, q in zip(x, y):
            nxt = []
            for s2 in states:
                for s3, v in ip.truth(s2, ip.arith(s2, '==', p, q), (id(e), 'lex')):
                    if v:
                        nxt.append(s3)
                    else:
                        out.append((s3, ('b', op == '!=')))
            states = nxt
        return out + [(s2, ('b', op == '==')) for s2 in states]
    if op in ('>', '<='):
        x, y = y, x
    less = op in ('<', '>')
    states, out = [s], []
    for p, q in zip(x, y):
        nxt = []
        for s2 in states:
            for s3, v in ip.truth(s2, ip.arith(s2, '<', p, q), (id(e), 'lex')):
                if v:
                    out.append((s3, ('b', less)))
                    continue
                for s4, w in ip.truth(s3, ip.arith(s3, '<', q, p), (id(e), 'lex2')):
                    if w:
                        out.append((s4, ('b', not less)))
                    else:
                        nxt.append(s4)
        states = nxt
    return out + [(s2, ('b', (len(x) < len(y)) == less)) for s2 in states]


def cmp_m(op):
    def m(ip, e, f, st, o):
        out = []
        for s, vs in vals(ip, e, f, st):
            a, b = ip.load(s, o), ip.load(s, vs[0])
            r = lexicographic(ip, s, op, a, b, e)
            out += r if r is not None else [(s, ip.arith(s, op, a, b))]
        return out
    return m


def cmp_f(op):
    def h(ip, e, f, st):
        out = []
        for s, vs in vals(ip, e, f, st):
            if len(vs) != 2:
                return None
            a, b = ip.load(s, vs[0]), ip.load(s, vs[1])
            if a[0] == 'some' and b[0] not in ('some', 'none'):
                a = a[1]
            if b[0] == 'some' and a[0] not in ('some', 'none'):
                b = b[1]
            if (a[0] == 'none') != (b[0] == 'none') and (a[0] in ('s', 'i', 'b', 'f') or b[0] in ('s', 'i', 'b', 'f')) and op in ('==', '!='):
                out.append((s, ('b', op == '!=')))
                continue
            r = lexicographic(ip, s, op, a, b, e)
            out += r if r is not None else [(s, ip.arith(s, op, a, b))]
        return out
    return h


def bin_f(op):
    def h(ip, e, f, st):
        if len(e['a']) != 2:
            return None
        t0 = (f.get('pt') or [''])[0]
        if 'ostream' in t0 or 'istream' in t0:
            return None
        out = []
        for s, vs in vals(ip, e, f, st):
            a, b = ip.load(s, vs[0]), ip.load(s, vs[1])
            if op == '+' and 'basic_string' in f.get('rt', ''):
                a, b = [Sx(chr(x[1])) if x[0] == 'i' and 0 <= x[1] < 128 else x for x in (a, b)]
                if a[0] == 's' and b[0] == 's':
                    v = Sx(a[1] + b[1])
                else:
                    v = ('cat', a, b)
            elif a[0] == 'iter' and b[0] == 'iter' and op == '-':
                v = ('call', 'std::distance', a, b)
            else:
                v = ip.arith(s, op, a, b)
            out.append((s, v))
        return out
    return h


# ------------------------------------------------------------------ containers
def cval(ip, st, o):
    return ip.loadraw(st, loc(o))


def count(c):
    return ('count', c)


def m_size(ip, e, f, st, o):
    c = cval(ip, st, o)
    if c[0] == 'list':
        return [(st, I(len(c[1])))]
    if c[0] == 's':
        return [(st, I(len(c[1])))]
    return [(st, ip.resolve(st, count(c)))]


def size_f(answer):
    """std::size and std::empty of what is known"""
    def h(ip, e, f, st):
        out = []
        for s, vs in ip.args(e['a'], None, st):
            c = ip.load(s, vs[0]) if len(vs) == 1 else None
            if c is None or c[0] not in ('list', 's'):
                return None
            out.append((s, answer(len(c[1]))))
        return out
    return h


def m_empty(ip, e, f, st, o):
    c = cval(ip, st, o)
    if c[0] == 'list':
        return [(st, ('b', not c[1]))]
    if c[0] == 's':
        return [(st, ('b', c[1] == ''))]
    if re.match(r'std::(__cxx11::)?basic_string', owner(f['n'])):
        return [(st, ip.arith(st, '==', c, Sx('')))]
    return [(st, ip.arith(st, '==', ip.resolve(st, count(c)), I(0)))]


def wraps_references(e):
    return bool(re.match(r'std::\w*(vector|list|deque)<std::reference_wrapper<', strip_type(e['o'].get('t', ''))))


def m_push(where):
    def m(ip, e, f, st, o):
        out = []
        for s, vs in vals(ip, e, f, st):
            c = cval(ip, s, o)
            v = [ip.load(s, x) for x in vs]
            if short(f['n']).startswith('emplace'):
                if len(v) == 1 and wraps_references(e):
                    v = vs[0]
                elif len(v) == 1:
                    v = v[0]
                else:
                    v = mkobj('emplaced', ('emplaced',) + tuple(v), ())
                    m = re.match(r'std::(?:__cxx11::)?\w+<(.*)>$', strip_type(e['o'].get('t', '')))
                    et = elem_type(strip_type(e['o'].get('t', '')))
                    if len(v0 := [ip.load(s, x) for x in vs]) == 2 and (et or '').startswith('std::pair<'):
                        s3 = append(ip, s, o, cval(ip, s, o), PAIR(*v0), where, e)
                        out.append((s3, ('alias', o[1], o[2] + (('last',),)) if f.get('rt', '').endswith('&') else VOID))
                        continue
                    v = construct(ip, s, et, [ip.load(s, x) for x in vs], e)
                    if isinstance(v, list):
                        for s2, v2 in v:
                            s3 = append(ip, s2, o, cval(ip, s2, o), v2, where, e)
                            a = ('alias', o[1], o[2] + (('last',),))
                            out.append((s3, a if f.get('rt', '').endswith('&') else VOID))
                        continue
            else:
                v = vs[0] if wraps_references(e) and vs[0][0] == 'alias' else v[0]
            s = append(ip, s, o, c, v, where, e)
            cc = cval(ip, s, o)
            a = ('alias', o[1], o[2] + (('ix', len(cc[1]) - 1 if where == 'back' else 0),)) if cc[0] == 'list' and cc[1] else ('alias', o[1], o[2] + (('last',),))
            out.append((s, a if f.get('rt', '').endswith('&') else VOID))
        return out
    return m


def append(ip, s, o, c, v, where, e):
    if v[0] == 'submatch':
        v = v[1]
    if c[0] == 'list' and len(c[1]) < 64:
        nv = ('list', c[1] + (v,) if where == 'back' else (v,) + c[1])
    elif depth(c) < 3:
        nv = ('appended', c, v)
    else:
        return ip.havoc(s, loc(o), (id(e), 'push'))
    return ip.store(s, loc(o), nv)


def depth(c):
    n = 0
    while c[0] in ('appended', 'erased', 'popped'):
        n += 1
        c = c[1]
    return n


def elem_type(t):
    i = t.find('<')
    if i < 0:
        return t
    d, out = 0, ''
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
            if d < 0:
                break
        elif ch == ',' and d == 0:
            break
        out += ch
    return out.strip()


def make_sequence(ip, s, base, t, vs):
    """contents of a container made from a range, a list, or a number of elements; None when unknown"""
    vs = [ip.load(s, v) for v in vs]
    if not vs:
        return ('list', ())
    if vs[0][0] == 'list' and len(vs) == 1:
        v = vs[0]
        if base in ('std::set', 'std::unordered_set'):
            v = ('list', tuple(dict.fromkeys(v[1])))
        return v
    if vs[0][0] == 'list':
        return vs[0]
    if len(vs) == 2 and vs[0][0] == 'iter' and vs[1][0] == 'iter' and vs[0][1] == vs[1][1]:
        c = ip.loadraw(s, vs[0][1])
        n = len(c[1]) if c[0] in ('list', 's') else None
        p = [0 if v[2] == 'begin' else n if v[2] == 'end' and n is not None else v[2] for v in vs]
        if n is not None and all(isinstance(x, int) for x in p):
            if p[0] > p[1]:
                ip.throw(s, mkobj('undefined behaviour: reversed range'))
                return ('dead',)
            v = c[1][p[0]:p[1]]
            v = tuple(I(ord(x)) for x in v) if c[0] == 's' else tuple(v)
            if base in ('std::set', 'std::unordered_set'):
                v = tuple(dict.fromkeys(v))
            return ('list', v)
        if p[0] == 0 and vs[1][2] == 'end':
            return c
        return None
    if base in ('std::vector', 'std::list', 'std::deque') and vs[0][0] == 'i' and 0 <= vs[0][1] <= 64:
        if len(vs) == 1:
            return ('list', (default_elem(elem_type(t)),) * vs[0][1])
        if len(vs) == 2:
            return ('list', (vs[1],) * vs[0][1])
    return None


def default_elem(t):
    t = strip_type(t or '')
    b = re.sub(r'<.*', '', t).replace('std::__cxx11::', 'std::')
    if b in ('std::vector', 'std::list', 'std::deque', 'std::map', 'std::set', 'std::unordered_map', 'std::unordered_set'):
        return ('list', ())
    if b in ('std::string', 'std::basic_string'):
        return Sx('')
    if t.endswith('*') or b in ('std::shared_ptr', 'std::unique_ptr', 'std::function'):
        return NIL
    if t == 'bool':
        return FALSE
    if t in ('int', 'unsigned int', 'long', 'unsigned long', 'char', 'unsigned char', 'short', 'unsigned short', 'signed char'):
        return I(0)
    if t in ('double', 'float'):
        return ('f', 0.0)
    return mkobj(t, ('new', t), ())


def m_resize(ip, e, f, st, o):
    out = []
    for s, vs in vals(ip, e, f, st):
        c, n = cval(ip, s, o), ip.load(s, vs[0])
        if c[0] == 'list' and n[0] == 'i' and 0 <= n[1] <= 64:
            d = ip.load(s, vs[1]) if len(vs) > 1 else default_elem(elem_type(owner(f['n'])))
            s = ip.store(s, loc(o), ('list', (c[1] + (d,) * n[1])[:n[1]]))
        else:
            s = ip.havoc(s, loc(o), (id(e), 'resize'))
        out.append((s, VOID))
    return out


def m_reserve(ip, e, f, st, o):
    return [(s, VOID) for s, _ in vals(ip, e, f, st)]


def m_data(ip, e, f, st, o):
    c = cval(ip, st, o)
    if c[0] == 'list':
        return [(st, ('ptr', o[1], o[2] + (('ix', 0),)))]
    return None


def plain(t):
    """the last component of a type's name, without template arguments"""
    out, depth = '', 0
    for c in t:
        depth += c == '<'
        if not depth:
            out += c
        depth -= c == '>'
    return out.split('::')[-1]


def has_args(cands):
    """instances of one constructor template"""
    return all(c.raw.get('ta') or c.raw.get('inst') for c in cands)


def construct(ip, st, t, vs, e, types=None, at=None):
    """emplace-construct an object of type t from values (of the given static types); [(state, value)]"""
    t = strip_type(t)
    if re.match(r'std::(__cxx11::)?basic_string<', t):
        v = ip.string_of(st, [ip.load(st, x) for x in vs])
        if v is not None:
            return [(st, v)]
    r = ip.prog.records.get(t)
    cands = []
    if r is not None:
        for m in r.get('m', []):
            fn = ip.prog.func(m['k'])
            if fn is not None and fn.raw.get('ctor') and len(fn.raw['p']) == len(vs) and ip.may_inline(fn):
                cands.append(fn)
        if types and len(types) == len(vs) == 1 and cands and not any(strip_type(c.x['p'][0]['t']) == strip_type(types[0]) for c in cands):
            # the one that takes exactly this, and has defaults for the rest
            exact = [fn for fn in (ip.prog.func(m['k']) for m in r.get('m', [])) if fn is not None and fn.raw.get('ctor') and len(fn.raw['p']) > 1 and strip_type(fn.x['p'][0]['t']) == strip_type(types[0]) and ip.may_inline(fn)]
            if len(exact) == 1:
                cands = exact
        if not cands:
            # defaulted trailing parameters
            more = [fn for fn in (ip.prog.func(m['k']) for m in r.get('m', [])) if fn is not None and fn.raw.get('ctor') and len(fn.raw['p']) > len(vs) >= 1 and ip.may_inline(fn)]
            if len(more) == 1:
                cands = more
        if not cands:
            cands = [fn for fn in ip.prog.by_name.get(t + '::' + plain(t), []) if fn.raw.get('ctor') and len(fn.raw['p']) == len(vs) and ip.may_inline(fn)]
        if not cands and vs:
            # inherited constructors
            cands = [fn for b in r.get('b', []) for m in (ip.prog.records.get(b) or {}).get('m', []) for fn in [ip.prog.func(m['k'])]
                     if fn is not None and fn.raw.get('ctor') and len(fn.raw['p']) == len(vs) and ip.may_inline(fn)]
    def copyish(c):
        return len(vs) == 1 and strip_type(c.x['p'][0]['t']) == t
    if len(vs) == 1:
        x = ip.load(st, vs[0])
        if x[0] in ('ptr', 'nil') and any(re.match(r'std::(shared_ptr|unique_ptr)<', b) for b in ip.prog.bases(t)):
            return [(st, x)]
        if x[0] == 'obj' and x[1] == t:
            cc = [c for c in cands if copyish(c) and not c.raw.get('defaulted')]
            if not cc:
                return [(st, x)]
            cands = cc
        else:
            cands = [c for c in cands if not copyish(c)]
    if types and len(types) == len(vs) and len(cands) > 1:
        exact = [c for c in cands if all(strip_type(p['t']) == strip_type(a) for p, a in zip(c.x['p'], types))]
        if exact:
            cands = exact
    elif len(cands) > 1:
        # an object does not become a number, nor a number an object of an unrelated class
        def suits(p, v):
            v = ip.load(st, v)
            pt = strip_type(p['t'])
            if v[0] == 'obj' and v[1] in ip.prog.records:
                return pt == v[1] or pt in ip.prog.bases(v[1]) or (pt in ip.prog.records and not has_args(cands))
            return not (v[0] in 'ifb' and pt in ip.prog.records and has_args(cands))
        fit = [c for c in cands if all(suits(p, v) for p, v in zip(c.x['p'], vs))]
        if fit:
            cands = fit
    # the hook mechanism sees emplaced constructions as constructor calls
    nm = t + '::' + plain(t)
    f = {'n': nm, 'k': '', 'pt': []}
    h = ip.hook('<construct>' + t, e, st, None, vs, f)
    if h is not None:
        return h
    if len(cands) == 1 or (cands and not any(c.raw.get('defaulted') for c in cands)):
        if at is not None:
            s, a = st.put(at, mkobj(t)), ('alias', at, ())
        else:
            s, a = ip.temp(st, mkobj(t), (id(e), 'cons'))
        vv = []
        for i, v in enumerate(vs):
            vv.append(v)
        out = []
        for s2, _ in ip.call_ctor(cands[0], s, a, vv, e):
            out.append((s2, ip.load(s2, a)))
        return out
    if t.startswith('std::basic_string<') and len(vs) == 1:
        return [(st, ip.load(st, vs[0]))]
    b = re.sub(r'<.*', '', t).replace('std::__cxx11::', 'std::')
    if b in ('std::vector', 'std::list', 'std::deque', 'std::set', 'std::unordered_set'):
        v = make_sequence(ip, st, b, t, vs)
        if v == ('dead',):
            return []
        if v is not None:
            return [(st, v)]
    return [(st, mkobj(t, ('new', t) + tuple(vs), ()))]


def m_clear(ip, e, f, st, o):
    return [(ip.store(st, loc(o), ('list', ()) if not re.match(r'std::(__cxx11::)?basic_string', owner(f['n'])) else Sx('')), VOID)]


def m_index(may_throw):
    def m(ip, e, f, st, o):
        out = []
        for s, vs in vals(ip, e, f, st):
            k = sliced(ip.load(s, vs[0]))
            own = owner(f['n'])
            if 'map' in own:
                out += map_lookup(ip, e, s, o, k, may_throw, insert=not may_throw)
            else:
                c = cval(ip, s, o)
                if c[0] == 'list' and k[0] == 'i':
                    if 0 <= k[1] < len(c[1]):
                        out.append((s, ('alias', o[1], o[2] + (('ix', k[1]),))))
                    elif may_throw:
                        ip.throw(s, mkobj('std::out_of_range'))
                    else:
                        s, t = ip.fresh(s, e, 'oob')
                        out.append((s, t))
                else:
                    if may_throw:
                        for s2, b in ip.compare(s, '<', k, ip.resolve(s, count(c))):
                            if b:
                                out.append((s2, ('alias', o[1], o[2] + (('at', k),))))
                            else:
                                ip.throw(s2, mkobj('std::out_of_range'))
                    else:
                        out.append((s, ('alias', o[1], o[2] + (('at', k),))))
        return out
    return m


def pair_key(v):
    if v[0] == 'obj':
        return of_get(v, 'std::pair::first')
    if v[0] == 'list' and len(v[1]) == 2:
        return v[1][0]
    return None


def as_pair(v):
    if v[0] == 'list' and len(v[1]) == 2:
        return mkobj('std::pair', None, {'std::pair::first': v[1][0], 'std::pair::second': v[1][1]})
    return v


def is_table(c):
    return c[0] == 'list' and all(pair_key(x) is not None for x in c[1])


def normalise_table(ip, s, o):
    c = cval(ip, s, o)
    if c[0] == 'list':
        nl = ('list', tuple(as_pair(x) for x in c[1]))
        if nl != c:
            s = ip.store(s, loc(o), nl)
        return s, nl
    return s, c


def map_lookup(ip, e, s, o, k, may_throw, insert):
    s, c = normalise_table(ip, s, o)
    if is_table(c):
        out, rest = [], [s]
        for i, x in enumerate(c[1]):
            nxt = []
            for r in rest:
                for r2, b in same_key(ip, r, strip_type(e['o'].get('t', '')) if e.get('o') else '', k, pair_key(x), e):
                    if b:
                        out.append((r2, ('alias', o[1], o[2] + (('ix', i), 'std::pair::second'))))
                    else:
                        nxt.append(r2)
            rest = nxt
        for r in rest:
            if may_throw:
                ip.throw(r, mkobj('std::out_of_range', None, {'key': k}))
            elif insert:
                own = strip_type(e['o'].get('t', ''))
                m = mapped_type(own)
                at = place(own, c, k, True)
                at = len(c[1]) if at is None else at
                r = ip.store(r, loc(o), ('list', c[1][:at] + (mkobj('std::pair', None, {'std::pair::first': k, 'std::pair::second': ip.zero(m) if m else ('new', '?')}),) + c[1][at:]))
                out.append((r, ('alias', o[1], o[2] + (('ix', at), 'std::pair::second'))))
        return dedupe(out)
    if may_throw:
        out = []
        for s2, b in ip.truth(s, ('has', c, k)):
            if b:
                out.append((s2, ('alias', o[1], o[2] + (('key', k),))))
            else:
                ip.throw(s2, mkobj('std::out_of_range', None, {'key': k}))
        return out
    return [(s, ('alias', o[1], o[2] + (('key', k),)))]


def mapped_type(t):
    i = t.find('<')
    if i < 0:
        return None
    d, parts, cur = 0, [], ''
    for ch in t[i + 1:]:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
            if d < 0:
                break
        if ch == ',' and d == 0:
            parts.append(cur.strip())
            cur = ''
        else:
            cur += ch
    parts.append(cur.strip())
    return parts[1] if len(parts) > 1 else None


def m_find(ip, e, f, st, o):
    out = []
    own = owner(f['n'])
    for s, vs in vals(ip, e, f, st):
        k = sliced(ip.load(s, vs[0]))
        r0, p0, _ = ip.norm(s, o[1], o[2])
        ismap = 'map' in own
        if ismap:
            s, c = normalise_table(ip, s, o)
        else:
            c = cval(ip, s, o)
        if c[0] == 'list' and (not ismap or is_table(c)):
            rest = [s]
            for i, x in enumerate(c[1]):
                nxt = []
                for r in rest:
                    for r2, b in same_key(ip, r, own, k, pair_key(x) if ismap else x, e):
                        if b:
                            out.append((r2, ('iter', (r0, p0), i)))
                        else:
                            nxt.append(r2)
                rest = nxt
            out += [(r, ('iter', (r0, p0), 'end')) for r in rest]
        else:
            for s2, b in ip.truth(s, ('has', c, k)):
                out.append((s2, ('iter', (r0, p0), ('key', k) if b else 'end')))
    return dedupe(out)


def m_count(ip, e, f, st, o):
    out = []
    own = owner(f['n'])
    for s, vs in vals(ip, e, f, st):
        k = sliced(ip.load(s, vs[0]))
        ismap = 'map' in own
        if ismap:
            s, c = normalise_table(ip, s, o)
        else:
            c = cval(ip, s, o)
        one, zero = (TRUE, FALSE) if f.get('rt') == 'bool' else (I(1), I(0))
        if 'multi' in own[:20] and f.get('rt') != 'bool':
            if c[0] != 'list' or not all((pair_key(x) if ismap else x)[0] == k[0] == 's' for x in c[1]):
                return None
            out.append((s, I(sum(1 for x in c[1] if (pair_key(x) if ismap else x) == k))))
            continue
        if c[0] == 'list' and (not ismap or is_table(c)):
            rest = [s]
            for x in c[1]:
                nxt = []
                for r in rest:
                    for r2, b in same_key(ip, r, own, k, pair_key(x) if ismap else x, e):
                        (out if b else nxt).append((r2, one) if b else r2)
                rest = nxt
            out += [(r, zero) for r in rest]
        else:
            out += [(s2, one if b else zero) for s2, b in ip.truth(s, ('has', c, k))]
    return dedupe(out)


def targs(t):
    """template arguments of a printed type"""
    i = t.find('<')
    if i < 0:
        return []
    d, parts, cur = 0, [], ''
    for ch in t[i + 1:]:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
            if d < 0:
                break
        if ch == ',' and d == 0:
            parts.append(cur.strip())
            cur = ''
        else:
            cur += ch
    parts.append(cur.strip())
    return parts


def PAIR(k, v):
    return mkobj('std::pair', None, {'std::pair::first': k, 'std::pair::second': v})


def m_emplace(ip, e, f, st, o):
    """map::emplace / insert / try_emplace / insert_or_assign, set::insert, sequence::insert at the end"""
    own = owner(f['n'])
    name = short(f['n'])
    out = []
    ismap = bool(re.match(r'std::(unordered_)?(multi)?map', own))
    isset = bool(re.match(r'std::(unordered_)?(multi)?set', own))
    if ismap or isset:
        for s, vs in vals(ip, e, f, st):
            if name in ('emplace_hint',):
                vs = vs[1:]
            v = [ip.load(s, x) for x in vs]
            hint = False
            if name == 'insert' and len(v) == 2 and v[0][0] == 'iter' and v[1][0] == 'iter':
                # range insertion
                r = rng(ip, s, v[0], v[1])
                src = ip.loadraw(s, r[:2]) if r is not None else None
                c = cval(ip, s, o)
                if src is not None and len(r) == 2 and src[0] == 'list' and c[0] == 'list':
                    ss = [s]
                    for x in src[1]:
                        if 'multi' in own[:20]:
                            ss = [s3 for s2 in ss for s3, _ in insert_multi(ip, e, s2, o, as_pair(x) if ismap else x, None, ismap, own)]
                            continue
                        ss = [s3 for s2 in ss for s3, _ in insert_one(ip, e, s2, o, as_pair(x) if ismap else x, None, ismap, False, own)]
                    out += [(s2, VOID) for s2 in ss]
                else:
                    s = ip.havoc(s, loc(o), (id(e), 'ins'))
                    out.append((s, VOID))
                continue
            if name == 'insert' and len(v) == 2 and v[0][0] == 'iter':
                v, hint = v[1:], True
            if ismap and len(v) == 3 and 'piecewise_construct' in str(e['a'][-3].get('t', '')) and v[1][0] == v[2][0] == 'list' and len(v[1][1]) == 1:
                # the key, and what the value is made of
                vs = [v[1][1][0]] + list(v[2][1])
                v = [ip.load(s, x) for x in vs]
            if ismap:
                k = pair_key(v[0]) if len(v) == 1 else v[0]
                if len(v) == 1:
                    vv = of_get(as_pair(v[0]), 'std::pair::second') if as_pair(v[0])[0] == 'obj' else None
                    made = [(s, vv)]
                else:
                    m = targs(own)
                    if name == 'try_emplace' or name.startswith('emplace'):
                        made = construct(ip, s, m[1], list(vs[1:]), e) if len(m) > 1 and strip_type(m[1]) in ip.prog.records and not m[1].startswith('std::') else [(s, v[1])]
                        # std::piecewise_construct and friends stay symbolic
                    else:
                        made = [(s, v[1])]
            elif name.startswith('emplace') and targs(own) and strip_type(targs(own)[0]) in ip.prog.records and not targs(own)[0].startswith('std::') and not (len(v) == 1 and v[0][0] == 'obj' and v[0][1] == strip_type(targs(own)[0])):
                for s1, val in construct(ip, s, targs(own)[0], list(vs), e, [a.get('t', '') for a in e['a'][-len(vs):]]):
                    for s2, r in insert_one(ip, e, s1, o, ip.load(s1, val), None, ismap, False, own):
                        out.append((s2, of_get(r, 'std::pair::first') if name == 'emplace_hint' else r))
                continue
            else:
                k, made = v[0], [(s, None)]
            if k is None:
                s = ip.havoc(s, loc(o), (id(e), 'ins'))
                out.append((s, ('unk', 'ins')))
                continue
            if (targs(own) or [''])[0].startswith('std::basic_string<') and k[0] == 'obj':
                k = sliced(k)
            if own.startswith('std::multi') or own.startswith('std::unordered_multi'):
                for s1, val in made:
                    out += insert_multi(ip, e, s1, o, k, val, ismap, own)
                continue
            for s1, val in made:
                for s2, r in insert_one(ip, e, s1, o, k, val, ismap, name == 'insert_or_assign', own):
                    out.append((s2, of_get(r, 'std::pair::first') if hint or name == 'emplace_hint' else r))
        return dedupe(out)
    if name == 'assign' and re.match(r'std::(__cxx11::)?(vector|list|deque)', own):
        for s, vs in vals(ip, e, f, st):
            v = [ip.load(s, x) for x in vs]
            new = None
            if len(v) == 2 and v[0][0] == 'iter' and v[1][0] == 'iter':
                r = rng(ip, s, v[0], v[1])
                src = ip.loadraw(s, r[:2]) if r is not None else None
                if src is not None and src[0] == 'list':
                    a, b = (r[2], r[3]) if len(r) == 4 else (0, len(src[1]))
                    new = src[1][a:b] if isinstance(a, int) and isinstance(b, int) else None
            elif len(v) == 2 and v[0][0] == 'i' and v[0][1] <= 64:
                new = (v[1],) * v[0][1]
            elif len(v) == 1 and v[0][0] == 'list':
                new = v[0][1]
            s = ip.write(s, o, ('list', tuple(new)), e) if new is not None else ip.havoc(s, loc(o), (id(e), 'assign'))
            out.append((s, VOID))
        return out
    if name == 'insert' and re.match(r'std::(__cxx11::)?(vector|list|deque)', own):
        for s, vs in vals(ip, e, f, st):
            v = [ip.load(s, x) for x in vs]
            c = cval(ip, s, o)
            if c[0] == 'list' and v and v[0][0] == 'iter' and v[0][1] == loc(o):
                n = len(c[1])
                pos = 0 if v[0][2] == 'begin' else n if v[0][2] == 'end' else v[0][2]
                add = None
                if isinstance(pos, int):
                    if len(v) == 2 and v[1][0] == 'list' and 'initializer_list' in (f.get('pt') or ['', ''])[1]:
                        add = v[1][1]
                    elif len(v) == 2:
                        add = (v[1],)
                    elif len(v) == 3 and v[1][0] == 'iter' and v[2][0] == 'iter':
                        r = rng(ip, s, v[1], v[2])
                        src = ip.loadraw(s, r[:2]) if r is not None else None
                        if src is not None and src[0] == 'list':
                            a, b = (r[2], r[3]) if len(r) == 4 else (0, len(src[1]))
                            add = src[1][a:b] if isinstance(a, int) and isinstance(b, int) else None
                if add is not None:
                    s = ip.write(s, o, ('list', c[1][:pos] + tuple(add) + c[1][pos:]), e)
                    out.append((s, ('iter', loc(o), pos)))
                    continue
            s = ip.havoc(s, loc(o), (id(e), 'ins'))
            out.append((s, ('unk', 'ins')))
        return out
    return None


def ordered(own):
    """an associative container ordered by the natural order of its keys"""
    m = re.match(r'std::(multi)?(map|set)<', own)
    a = targs(own)
    n = 2 if m and m.group(2) == 'map' else 1
    return bool(m) and (len(a) <= n or a[n].startswith('std::less<'))


def place(own, c, k, ismap, upper=True):
    """position of a key in an ordered container whose keys are all known, or None"""
    if not ordered(own):
        return None
    ks = [pair_key(x) if ismap else x for x in c[1]] + [k]
    if not all(x is not None and x[0] == ks[0][0] and x[0] in ('s', 'i', 'f') for x in ks):
        return None
    return sum(1 for x in ks[:-1] if (x[1] <= k[1] if upper else x[1] < k[1]))


def less_of(ip, own, k, x):
    """the operator< that orders the objects in an ordered container, or None"""
    if k is None or x is None or k[0] != 'obj' or x[0] != 'obj' or k[1] != x[1] or not ordered(own):
        return None
    memo = ip.__dict__.setdefault('_less', {})
    if k[1] not in memo:
        memo[k[1]] = None
        for n, fs in ip.prog.by_name.items():
            if n.endswith('operator<'):
                for f in fs:
                    if [strip_type(p['t']) for p in f.x['p']] in ([k[1], k[1]],) and ip.may_inline(f):
                        memo[k[1]] = f
    return memo[k[1]]


def is_less(ip, s, fn, a, b, e):
    """[(state, bool)]: whether a comes before b"""
    ra, rb = ('t', ('less', id(e), 'a')), ('t', ('less', id(e), 'b'))
    out = []
    for s2, v in ip.invoke(fn, s.put(ra, a).put(rb, b), None, [('alias', ra, ()), ('alias', rb, ())], e):
        out += ip.truth(s2, ip.load(s2, v))
    return out


def bare(v):
    """the number an object stands for that holds nothing else (a class that wraps an enumeration)"""
    return v[3][0][1] if v[0] == 'obj' and len(v[3]) == 1 and v[3][0][1][0] == 'i' else v


def same_key(ip, s, own, k, x, e):
    """[(state, bool)]: whether two keys of an associative container are equivalent"""
    fn = less_of(ip, own, k, x)
    if fn is None:
        if 'obj' in (k[0], x[0]) and bare(k)[0] == bare(x)[0] == 'i':
            k, x = bare(k), bare(x)
        return ip.compare(s, '==', k, x)
    out = []
    for s2, b in is_less(ip, s, fn, k, x, e):
        out += [(s2, False)] if b else [(s3, not c) for s3, c in is_less(ip, s2, fn, x, k, e)]
    return out


def sliced(k):
    """the string part of an object of a class derived from std::string"""
    if k[0] != 'obj' or not any(isinstance(f, tuple) and f[0] == 'base' for f, _ in k[3]):
        return k
    while k[0] == 'obj':
        b = [v for f, v in k[3] if isinstance(f, tuple) and f[0] == 'base']
        if len(b) != 1:
            break
        k = b[0]
    return k


def insert_multi(ip, e, s, o, k, val, ismap, own):
    if ismap:
        s, c = normalise_table(ip, s, o)
        if val is None:
            k, val = pair_key(k), of_get(k, 'std::pair::second')
    else:
        c = cval(ip, s, o)
    if c[0] == 'list' and (not ismap or is_table(c)):
        new = PAIR(k, val) if ismap else k
        i = place(own, c, k, ismap)
        if i is None and len(c[1]):
            i = len(c[1]) if not ordered(own) else None
        if i is None and not c[1]:
            i = 0
        if i is not None:
            return [(ip.write(s, o, ('list', c[1][:i] + (new,) + c[1][i:]), e), ('iter', loc(o), i))]
    s = ip.havoc(s, loc(o), (id(e), 'ins'))
    return [(s, ('unk', 'ins'))]


def m_bound(kind):
    def m(ip, e, f, st, o):
        own = owner(f['n'])
        ismap = 'map' in own
        out = []
        for s, vs in vals(ip, e, f, st):
            k = sliced(ip.load(s, vs[0]))
            r0, p0, _ = ip.norm(s, o[1], o[2])
            if ismap:
                s, c = normalise_table(ip, s, o)
            else:
                c = cval(ip, s, o)
            if c[0] != 'list' or (ismap and not is_table(c)):
                return None
            if ordered(own):
                lo, hi = place(own, c, k, ismap, False), place(own, c, k, ismap)
                if lo is None:
                    return None
            elif kind == 'equal_range':
                eq = [i for i, x in enumerate(c[1]) if (pair_key(x) if ismap else x) == k]
                if any((pair_key(x) if ismap else x)[0] != 's' for x in c[1]) or k[0] != 's' or eq != list(range(eq[0], eq[-1] + 1) if eq else []):
                    return None
                lo, hi = (eq[0], eq[-1] + 1) if eq else (len(c[1]), len(c[1]))
            else:
                return None
            n = len(c[1])
            it = [('iter', (r0, p0), i if i < n else 'end') for i in (lo, hi)]
            out.append((s, PAIR(*it) if kind == 'equal_range' else it[0 if kind == 'lower_bound' else 1]))
        return dedupe(out)
    return m


def m_merge(ip, e, f, st, o):
    """list::merge / splice at the end; the relative order of unrelated elements is not modelled"""
    out = []
    for s, vs in vals(ip, e, f, st):
        src = vs[0] if vs[0][0] == 'alias' else None
        c = cval(ip, s, o)
        v = ip.load(s, vs[0])
        if c[0] != 'list' or v[0] != 'list':
            return None
        s = ip.write(s, o, ('list', c[1] + v[1]), e)
        if src is not None:
            s = ip.store(s, loc(src), ('list', ()))
        out.append((s, VOID))
    return out


def m_splice(ip, e, f, st, o):
    """list::splice of a whole list at a known position"""
    out = []
    for s, vs in vals(ip, e, f, st):
        c, v = cval(ip, s, o), ip.load(s, vs[1]) if len(vs) == 2 else ('unk',)
        at = ip.load(s, vs[0])
        n = len(c[1]) if c[0] == 'list' else 0
        k = {'begin': 0, 'end': n}.get(at[2], at[2]) if at[0] == 'iter' else None
        if c[0] != 'list' or v[0] != 'list' or not isinstance(k, int) or not 0 <= k <= n:
            return None
        s = ip.write(s, o, ('list', c[1][:k] + v[1] + c[1][k:]), e)
        if vs[1][0] == 'alias':
            s = ip.store(s, loc(vs[1]), ('list', ()))
        out.append((s, VOID))
    return out


def insert_one(ip, e, s, o, k, val, ismap, assign_, own=''):
    if ismap:
        s, c = normalise_table(ip, s, o)
    else:
        c = cval(ip, s, o)
    if ismap and val is None:
        k, val = pair_key(k), of_get(k, 'std::pair::second')
    out = []
    if c[0] == 'list' and (not ismap or is_table(c)):
        rest = [s]
        for i, x in enumerate(c[1]):
            nxt = []
            for r in rest:
                for r2, b in same_key(ip, r, own, k, pair_key(x) if ismap else x, e):
                    if b:
                        if assign_:
                            r2 = ip.store(r2, (o[1], o[2] + (('ix', i), 'std::pair::second')), val)
                        out.append((r2, PAIR(('iter', loc(o), i), FALSE)))
                    else:
                        nxt.append(r2)
            rest = nxt
        at = place(own, c, k, ismap)
        fn = less_of(ip, own, k, (pair_key(c[1][0]) if ismap else c[1][0])) if at is None and c[1] else None
        if fn is not None:
            for r in rest:
                at = len(c[1])
                for i, x in enumerate(c[1]):
                    b = is_less(ip, r, fn, k, pair_key(x) if ismap else x, e)
                    if len(b) != 1:
                        break
                    if b[0][1]:
                        at = i
                        break
                r = ip.write(r, o, ('list', c[1][:at] + (PAIR(k, val) if ismap else k,) + c[1][at:]), e)
                out.append((r, PAIR(('iter', loc(o), at), TRUE)))
            return out
        at = len(c[1]) if at is None else at
        for r in rest:
            r = ip.write(r, o, ('list', c[1][:at] + (PAIR(k, val) if ismap else k,) + c[1][at:]), e)
            out.append((r, PAIR(('iter', loc(o), at), TRUE)))
        return out
    for s2, b in ip.truth(s, ('has', c, k)):
        if not b or assign_:
            s2 = ip.store(s2, loc(o), ('inserted', c if c[0] != 'inserted' else ('older', c[1]), k, val))
        out.append((s2, PAIR(('iter', loc(o), ('key', k)), ('b', not b))))
    return out


def shift_iterators(s, at, i, d):
    """iterators of a node-based container keep to their elements when one is removed (or added) before them"""
    def has(v):
        return isinstance(v, tuple) and (len(v) == 3 and v[0] == 'iter' and v[1] == at and isinstance(v[2], int) or any(has(x) for x in v))

    def go(v):
        if not isinstance(v, tuple) or not has(v):
            return v
        if len(v) == 3 and v[0] == 'iter' and v[1] == at and isinstance(v[2], int):
            return ('iter', at, v[2] + d) if v[2] > i or (d > 0 and v[2] == i) else v
        if v[0] == 'obj':
            return mkobj(v[1], go(v[2]) if v[2] else v[2], [(k, go(x)) for k, x in v[3]])
        return tuple(go(x) for x in v)
    for r, v in list(s.mem.items()):
        if has(v):
            s = s.put(r, go(v))
    return s


def m_erase(ip, e, f, st, o):
    out = []
    for s, vs in vals(ip, e, f, st):
        c = cval(ip, s, o)
        vv = [ip.load(s, v) for v in vs]
        if c[0] == 'list' and vv and all(v[0] == 'iter' and v[1] == loc(o) for v in vv) and 'map' not in owner(f['n']):
            n = len(c[1])
            ps = [0 if v[2] == 'begin' else n if v[2] == 'end' else v[2] for v in vv]
            if all(isinstance(p, int) for p in ps):
                a, b = (ps[0], ps[0] + 1) if len(ps) == 1 else ps
                if b > n:
                    ip.throw(s, mkobj('$erasing the end', None, {}))
                    continue
                nl = ('list', c[1][:a] + c[1][b:])
                s = ip.write(s, o, nl, e)
                if b == a + 1 and re.match(r'std::(__cxx11::)?(list|set|multiset|unordered_set)', owner(f['n'])):
                    s = shift_iterators(s, loc(o), a, -1)
                out.append((s, ('iter', loc(o), a)))
                continue
        own = owner(f['n'])
        ismap = bool(re.match(r'std::(unordered_)?map', own))
        if ismap:
            s, c = normalise_table(ip, s, o)
        if c[0] == 'list' and len(vv) == 1 and re.match(r'std::(unordered_)?(map|set)', own) and (not ismap or is_table(c)):
            if vv[0][0] == 'iter' and vv[0][1] == loc(o) and isinstance(0 if vv[0][2] == 'begin' else vv[0][2], int):
                i = 0 if vv[0][2] == 'begin' else vv[0][2]
                s = ip.write(s, o, ('list', c[1][:i] + c[1][i + 1:]), e)
                s = shift_iterators(s, loc(o), i, -1)
                out.append((s, ('iter', loc(o), i)))
                continue
            if vv[0][0] != 'iter':
                rest = [s]
                for i, x in enumerate(c[1]):
                    nxt = []
                    for r in rest:
                        for r2, b in same_key(ip, r, own, vv[0], pair_key(x) if ismap else x, e):
                            if b:
                                out.append((ip.write(r2, o, ('list', c[1][:i] + c[1][i + 1:]), e), I(1)))
                            else:
                                nxt.append(r2)
                    rest = nxt
                out += [(r, I(0)) for r in rest]
                continue
        t = ('erased', c) + tuple(vv)
        if depth(c) < 2:
            s = ip.write(s, o, ('erased', c) + tuple(vv), e)
        else:
            s = ip.havoc(s, loc(o), (id(e), 'erase'))
        s, r = ip.fresh(s, e, 'erase')
        out.append((s, ('iter', loc(o), r) if vv and vv[0][0] == 'iter' else r))
    return out


def m_pop(where):
    def m(ip, e, f, st, o):
        c = cval(ip, st, o)
        if c[0] == 'list' and c[1]:
            return [(ip.write(st, o, ('list', c[1][1:] if where == 'front' else c[1][:-1]), e), VOID)]
        if depth(c) < 2:
            return [(ip.write(st, o, ('popped', c, where), e), VOID)]
        return [(ip.havoc(st, loc(o), (id(e), 'pop')), VOID)]
    return m


def m_front(pos):
    def m(ip, e, f, st, o):
        c = cval(ip, st, o)
        if c[0] == 'list' and c[1]:
            return [(st, ('alias', o[1], o[2] + (('ix', 0 if pos == 'front' else len(c[1]) - 1),)))]
        return [(st, ('alias', o[1], o[2] + ((pos,),)))]
    return m


# ------------------------------------------------------------------ algorithms
def rng(ip, s, a, b):
    """(root, path) of a whole container, (root, path, lo, hi) of a part of it"""
    a, b = ip.load(s, a), ip.load(s, b)
    if a[0] != 'iter' or b[0] != 'iter' or a[1] != b[1]:
        return None
    c = ip.loadraw(s, a[1])
    lo, hi = a[2], b[2]
    if lo == 'begin':
        lo = 0
    if c[0] == 'list':
        n = len(c[1])
        lo = n if lo == 'end' else lo
        hi = n if hi == 'end' else 0 if hi == 'begin' else hi
        if isinstance(lo, int) and isinstance(hi, int):
            return a[1] if (lo, hi) == (0, n) else a[1] + (lo, hi)
        return None
    if lo == 0 and hi == 'end':
        return a[1]
    return a[1] + (lo, hi)


def quantifier(stop, result_stop):
    """all_of: stop at False -> False"""
    def h(ip, e, f, st):
        out = []
        for s, vs in ip.args(e['a'], None, st):
            l = rng(ip, s, vs[0], vs[1])
            if l is None:
                return None
            fnv = vs[2]

            def step(s2, elem):
                res = []
                for s3, v in ip.call_closure(fnv, s2, [elem], e):
                    for s4, b in ip.truth(s3, v):
                        res.append(('stop' if b == stop else 'n', s4, None))
                return res
            for k, s2, v in ip.each(s, l, e, step):
                out.append((s2, ('b', result_stop if k == 'stop' else not result_stop)))
        return dedupe(out)
    return h


def accumulate(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], None, st):
        l = rng(ip, s, vs[0], vs[1])
        if l is None:
            return None
        acc = ('tmp', ip.cur, (id(e), 'acc'))
        init = ip.load(s, vs[2])
        t = strip_type((f.get('ta') or ['', ''])[1]) if f.get('ta') else ''
        s = s.put(acc, convert(init, t))
        aa = ('alias', acc, ())

        def step(s2, elem):
            res = []
            if len(vs) > 3:
                rs = ip.call_closure(vs[3], s2, [aa, elem], e)
            else:
                rs = [(s2, ip.arith(s2, '+', ip.load(s2, aa), ip.load(s2, elem)))]
            for s3, v in rs:
                v = ip.load(s3, v)
                if t == 'bool':
                    for s4, b in ip.truth(s3, v):
                        res.append(('n', s4.put(acc, ('b', b)), None))
                else:
                    res.append(('n', s3.put(acc, convert(v, t)), None))
            return res
        for k, s2, v in ip.each(s, l, e, step):
            out.append((s2, ip.load(s2, aa)))
    return dedupe(out)


def convert(v, t):
    if t == 'bool' and v[0] in ('i', 'f'):
        return ('b', bool(v[1]))
    if t in ('int', 'long', 'unsigned long', 'unsigned int') and v[0] == 'f':
        return I(int(v[1]))
    if t in ('int', 'long', 'unsigned long', 'unsigned int') and v[0] not in ('i', 'b', 'trunc', 'widened', 'unk'):
        return ('as', t, v) if v[0] != 'as' else v
    if t in ('double', 'float') and v[0] in ('i', 'b'):
        return ('f', float(v[1]))
    return v


def for_each(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], None, st):
        l = rng(ip, s, vs[0], vs[1])
        if l is None:
            return None

        def step(s2, elem):
            return [('n', s3, None) for s3, v in ip.call_closure(vs[2], s2, [elem], e)]
        for k, s2, v in ip.each(s, l, e, step):
            out.append((s2, vs[2]))
    return dedupe(out)


def find_if(neg=False, byvalue=False):
    def h(ip, e, f, st):
        out = []
        for s, vs in ip.args(e['a'], None, st):
            l = rng(ip, s, vs[0], vs[1])
            if l is None:
                return None

            def step(s2, elem):
                res = []
                if byvalue:
                    rs = [(s2, ip.arith(s2, '==', ip.load(s2, elem), ip.load(s2, vs[2])))]
                else:
                    rs = ip.call_closure(vs[2], s2, [elem], e)
                for s3, v in rs:
                    for s4, b in ip.truth(s3, v):
                        if b != neg:
                            last = elem[2][-1]
                            pos = last[1] if last[0] == 'ix' else ('found', e['l'])
                            if last[0] != 'ix':
                                cv = ip.loadraw(s4, loc(elem))
                                base = ip.strip_elem(ip.loadraw(s4, l[:2]), last)
                                s4 = ip.store(s4, l[:2], base)
                            res.append(('stop', s4, pos))
                        else:
                            res.append(('n', s4, None))
                return res
            for k, s2, v in ip.each(s, l, e, step):
                out.append((s2, ('iter', l[:2], v if k == 'stop' else (l[3] if len(l) == 4 else 'end'))))
        return dedupe(out)
    return h


def remove_if(byvalue=False):
    """the elements that stay are moved to the front of a list that is known; what is left behind them is not known"""
    def h(ip, e, f, st):
        out = []
        for s, vs in ip.args(e['a'], None, st):
            if len(vs) != 3:
                return None
            l = rng(ip, s, vs[0], vs[1])
            c = ip.loadraw(s, l[:2]) if l is not None else None
            if c is None or len(l) != 2 or c[0] != 'list':
                return None
            ways = [(s, ())]
            for i in range(len(c[1])):
                elem, nxt = ('alias', l[0], l[1] + (('ix', i),)), []
                for s2, kept in ways:
                    rs = [(s2, ip.arith(s2, '==', ip.load(s2, elem), ip.load(s2, vs[2])))] if byvalue else ip.call_closure(vs[2], s2, [elem], e)
                    for s3, v in rs:
                        nxt += [(s4, kept if b else kept + (i,)) for s4, b in ip.truth(s3, v)]
                ways = nxt
            for s2, kept in ways:
                now = ip.loadraw(s2, l)[1]
                left = tuple(('left', e['l'], i) for i in range(len(now) - len(kept)))
                out.append((ip.store(s2, l, ('list', tuple(now[i] for i in kept) + left)), ('iter', l, len(kept))))
        return dedupe(out)
    return h


def count_if(byvalue=False):
    def h(ip, e, f, st):
        out = []
        for s, vs in ip.args(e['a'], None, st):
            l = rng(ip, s, vs[0], vs[1])
            if l is None:
                return None
            c = ip.loadraw(s, l[:2])
            if c[0] != 'list':
                def step(s2, elem):
                    return [('n', s3, None) for s3, v in (ip.call_closure(vs[2], s2, [elem], e) if not byvalue else [(s2, None)])]
                pred = ip.load(s, vs[2])
                for k, s2, v in ip.each(s, l, e, step):
                    out.append((s2, ('countif', c, pred)))
                continue
            acc = ('tmp', ip.cur, (id(e), 'cnt'))
            s = s.put(acc, I(0))

            def step(s2, elem):
                res = []
                rs = [(s2, ip.arith(s2, '==', ip.load(s2, elem), ip.load(s2, vs[2])))] if byvalue else ip.call_closure(vs[2], s2, [elem], e)
                for s3, v in rs:
                    for s4, b in ip.truth(s3, v):
                        res.append(('n', s4.put(acc, I(s4.mem[acc][1] + 1)) if b else s4, None))
                return res
            for k, s2, v in ip.each(s, l, e, step):
                out.append((s2, s2.mem[acc]))
        return dedupe(out)
    return h


def copy_if(ip, e, f, st):
    """transform without a function, or with a predicate which selects"""
    return transform(ip, e, f, st, short(f['n']))


def transform(ip, e, f, st, kind=None):
    out = []
    want = {None: 4, 'copy': 3, 'copy_if': 4}[kind]

    def apply(g, s, elems):
        if kind is None:
            return ip.call_closure(g, s, elems, e)
        return [(s, ip.load(s, elems[0]))]
    for s, vs in ip.args(e['a'], None, st):
        l = rng(ip, s, vs[0], vs[1])
        if l is None or len(vs) != want:
            return None
        site = (id(e), 'out')

        dst = ip.load(s, vs[2])
        into = None
        if dst[0] == 'iter' and ip.loadraw(s, dst[1])[0] == 'list' and ip.loadraw(s, l[:2])[0] == 'list' and (dst[2] == 'begin' or isinstance(dst[2], int)):
            into = (dst[1], 0 if dst[2] == 'begin' else dst[2], len(ip.loadraw(s, dst[1])[1]))
        if into and kind != 'copy_if':
            states = [(s, into[1])]
            lo, hi = (l[2], l[3]) if len(l) > 3 else (0, len(ip.loadraw(s, l[:2])[1]))
            if into[1] + hi - lo <= into[2]:
                for i in range(lo, hi):
                    states = [(ip.store(s3, (into[0][0], into[0][1] + (('ix', n),)), ip.load(s3, v)), n + 1) for s2, n in states
                              for s3, v in apply(vs[-1], s2, [('alias', l[0], l[1] + (('ix', i),))])]
                out += [(s2, ('iter', into[0], n)) for s2, n in states]
                continue
        known = dst[0] == 'inserter' and dst[2] and ip.loadraw(s, dst[1])[0] == 'list' and ip.loadraw(s, l[:2])[0] == 'list'

        def chosen(s2, elem):
            if kind != 'copy_if':
                return apply(vs[-1], s2, [elem])
            return [(s4, ip.load(s4, elem) if b else None) for s3, v in ip.call_closure(vs[3], s2, [elem], e) for s4, b in ip.truth(s3, v)]

        def step(s2, elem):
            r = []
            for s3, v in chosen(s2, elem):
                if v is None:
                    r.append(('n', s3, None))
                    continue
                if known:
                    s3 = ip.store(s3, dst[1], ('list', ip.loadraw(s3, dst[1])[1] + (ip.load(s3, v),)))
                r.append(('n', s3, None))
            return r
        for k, s2, v in ip.each(s, l, e, step):
            if known:
                out.append((s2, ('unk', 'transform')))
                continue
            dst = ip.load(s2, vs[2])
            if dst[0] in ('iter', 'inserter'):
                s2 = ip.havoc(s2, dst[1], site)
            out.append((s2, ('unk', 'transform')))
    return dedupe(out)


def told_what(x):
    """the explanation that an error was made with"""
    d = dict(x[3]) if x[0] == 'obj' else {}
    if 'what' in d:
        return d['what']
    for k, v in d.items():
        if k[0] == 'base' and told_what(v) is not None:
            return told_what(v)
    return None


def distance(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], f, st):
        a, b = ip.load(s, vs[0]), ip.load(s, vs[1])
        v = ('call', 'std::distance', a, b)
        if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1]:
            c = ip.loadraw(s, a[1])
            if a[2] in ('begin', 0) and b[2] == 'end':
                v = I(len(c[1])) if c[0] == 'list' else count(c)
            elif isinstance(b[2], int) and a[2] in ('begin', 0):
                v = I(b[2])
            elif isinstance(a[2], int) and (isinstance(b[2], int) or b[2] == 'end' and c[0] == 'list'):
                v = I((len(c[1]) if b[2] == 'end' else b[2]) - a[2])
        elif a[0] == 'call' and b[0] == 'call' and a[1].endswith('begin') and b[1].endswith('end') and a[2:] == b[2:]:
            v = ('count',) + a[2:]
        out.append((s, ip.resolve(s, v)))
    return out


def it_next(d):
    def h(ip, e, f, st):
        out = []
        for s, vs in ip.args(e['a'], f, st):
            it = ip.load(s, vs[0])
            k = ip.load(s, vs[1]) if len(vs) > 1 else I(1)
            if it[0] == 'iter' and k[0] == 'i':
                s, v = ip.iter_step(s, it, d * k[1], e)
            elif it[0] == 'obj' and k[0] == 'i' and 0 <= k[1] < 8:
                # an iterator of its own: a copy takes the steps
                steps = [g for g in ip.prog.by_name.get('%s::%s' % (it[1], 'operator++' if d > 0 else 'operator--'), ()) if not g.x['p']]
                if not steps:
                    return None
                tmp = ip.temp(s, it, e)
                states, at = [tmp[0]], tmp[1]
                for _ in range(k[1]):
                    states = [s3 for s2 in states for s3, _ in ip.invoke(steps[0], s2, ('ptr', at[1], at[2]), [], e)]
                out += [(s2, ip.load(s2, at)) for s2 in states]
                continue
            else:
                s, v = ip.fresh(s, e, 'next')
            out.append((s, v))
        return out
    return h


# ------------------------------------------------------------------ misc free functions
def make_ptr(ip, e, f, st):
    t = strip_type((f.get('ta') or ['?'])[0])
    out = []
    for s, vs in ip.args(e['a'], None, st):
        root = ip.heap(s, e)
        for s2, v in construct(ip, s, t, list(vs), e, (f.get('ta') or [])[1:], at=root):
            v = ip.load(s2, v)
            s2 = s2.put(root, v)
            out.append((s2, ('ptr', root, ())))
    return out


def make_pair(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], None, st):
        out.append((s, mkobj('std::pair', None, {'std::pair::first': ip.load(s, vs[0]), 'std::pair::second': ip.load(s, vs[1])})))
    return out


def make_optional(ip, e, f, st):
    if len(e['a']) != 1:
        return None
    return [(s, ('some', ip.load(s, vs[0]))) for s, vs in ip.args(e['a'], None, st)]


def make_tuple(ip, e, f, st):
    return [(s, ('list', tuple(ip.load(s, v) for v in vs))) for s, vs in ip.args(e['a'], None, st)]


def tie(ip, e, f, st):
    return [(s, ('list', tuple(vs))) for s, vs in ip.args(e['a'], {'pt': ['&'] * len(e['a'])}, st)]


def get_f(ip, e, f, st):
    ta = f.get('ta') or []
    idx = None
    if ta and re.match(r'^\d+', str(ta[0])):
        idx = int(re.match(r'^\d+', str(ta[0])).group())
    of = re.search(r'std::(?:tuple|pair)<(.*)>', e['a'][0].get('t', ''))
    if idx is None and ta and of:
        # by type: the only element that has it
        depth, parts = 0, ['']
        for c in of.group(1):
            depth += {'<': 1, '(': 1, '>': -1, ')': -1}.get(c, 0)
            if c == ',' and not depth:
                parts.append('')
            else:
                parts[-1] += c
        at = [i for i, t in enumerate(parts) if same_type(t.strip(), ta[0])]
        idx = at[0] if len(at) == 1 else None
    out = []
    for s, a in ip.lv(e['a'][0], st):
        v = ip.load(s, a)
        if idx is None and 'variant<' in e['a'][0].get('t', ''):
            for s2, x, at in alternatives(ip, s, v, e['a'][0].get('t', '')):
                if same_type(at, ta[0]):
                    out.append((s2, a if v[0] in ('obj', 's') else x))
                else:
                    ip.throw(s2, mkobj('std::bad_variant_access'))
        elif idx is None:
            s, t = ip.fresh(s, e, 'get')
            out.append((s, t))
        elif v[0] == 'list':
            out.append((s, ('alias', a[1], a[2] + (('ix', idx),))))
        elif idx < 2:
            out.append((s, ip.tuple_elem(s, a, v, idx)))
        else:
            out.append((s, ('alias', a[1], a[2] + (('ix', idx),))))
    return out


def exchange(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], {'pt': ['&', '']}, st):
        old = ip.load(s, vs[0])
        nv = ip.load(s, vs[1])
        s = ip.write(s, vs[0], nv, e)
        out.append((s, old))
    return out


def swap_f(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], {'pt': ['&', '&']}, st):
        a, b = ip.load(s, vs[0]), ip.load(s, vs[1])
        s = ip.write(ip.write(s, vs[0], b, e), vs[1], a, e)
        out.append((s, VOID))
    return out


def minmax(op):
    def h(ip, e, f, st):
        if len(e['a']) < 2:
            return None
        out = []
        for s, vs in ip.args(e['a'], None, st):
            a, b = ip.load(s, vs[0]), ip.load(s, vs[1])
            for s2, r in ip.compare(s, '<', b, a) if op == 'min' else ip.compare(s, '<', a, b):
                out.append((s2, b if r else a))
        return out
    return h


def clamp_f(ip, e, f, st):
    if len(e['a']) != 3:
        return None
    out = []
    for s, vs in ip.args(e['a'], None, st):
        v, lo, hi = (ip.load(s, x) for x in vs)
        for s2, r in ip.compare(s, '<', v, lo):
            if r:
                out.append((s2, lo))
                continue
            for s3, r in ip.compare(s2, '<', hi, v):
                out.append((s3, hi if r else v))
    return out


def listed(ip, s, a, b):
    """(location, lo, hi) of a range within a known list"""
    l = rng(ip, s, a, b)
    if l is None:
        return None
    c = ip.loadraw(s, l[:2])
    if c[0] != 'list':
        return None
    return l[:2], (l[2] if len(l) > 3 else 0), (l[3] if len(l) > 3 else len(c[1]))


def rewrite_range(how, n=2):
    """fill, iota, reverse, partial_sum in place: the new elements of a range of a known list"""
    def h(ip, e, f, st):
        if len(e['a']) != n:
            return None
        out = []
        for s, vs in ip.args(e['a'], None, st):
            if how == 'fill_n':
                a = ip.load(s, vs[0])
                k = ip.load(s, vs[1])
                c = ip.loadraw(s, a[1]) if a[0] == 'iter' else None
                lo = 0 if a[0] == 'iter' and a[2] == 'begin' else a[2] if a[0] == 'iter' else None
                if c is None or c[0] != 'list' or not isinstance(lo, int) or k[0] != 'i' or lo + k[1] > len(c[1]):
                    return None
                l = (a[1], lo, lo + k[1])
            else:
                l = listed(ip, s, vs[0], vs[1])
            if l is None:
                return None
            at, lo, hi = l
            es = list(ip.loadraw(s, at)[1])
            if how in ('fill', 'fill_n'):
                v = ip.load(s, vs[2])
                new = [I(v[1]) if es[lo:hi] and x[0] == 'i' and v[0] in ('b', 'i') else v for x in es[lo:hi]]
            elif how == 'reverse':
                new = es[lo:hi][::-1]
            elif how == 'iota':
                v = ip.load(s, vs[2])
                new = []
                for _ in range(lo, hi):
                    new.append(v)
                    v = ip.arith(s, '+', v, I(1))
            else:
                d = ip.load(s, vs[2])
                if d[0] != 'iter' or d[1] != at or (0 if d[2] == 'begin' else d[2]) != lo:
                    return None
                new = []
                for x in es[lo:hi]:
                    new.append(x if not new else ip.arith(s, '+', new[-1], x))
            out.append((ip.store(s, at, ('list', tuple(es[:lo] + new + es[hi:]))), VOID if how in ('fill', 'reverse', 'iota') else ('iter', at, hi)))
        return out
    return h


def extreme(less):
    """max_element, min_element of a known list"""
    def h(ip, e, f, st):
        out = []
        for s, vs in ip.args(e['a'], None, st):
            l = listed(ip, s, vs[0], vs[1])
            if l is None or len(vs) > 3:
                return None
            at, lo, hi = l
            el = lambda i: ('alias', at[0], at[1] + (('ix', i),))
            states = [(s, lo)]
            for i in range(lo + 1, hi):
                nxt = []
                for s2, best in states:
                    a, b = (el(best), el(i)) if less else (el(i), el(best))
                    if len(vs) == 3:
                        rs = [(s4, t) for s3, v in ip.call_closure(vs[2], s2, [a, b], e) for s4, t in ip.truth(s3, v)]
                    else:
                        rs = ip.compare(s2, '<', ip.load(s2, a), ip.load(s2, b))
                    nxt += [(s3, i if t else best) for s3, t in rs]
                states = nxt
            out += [(s2, ('iter', at, best if lo < hi else 'end')) for s2, best in states]
        return dedupe(out)
    return h


def lexical_cast(ip, e, f, st):
    t = strip_type((f.get('ta') or [f.get('rt', '?')])[0])
    out = []
    for s, vs in ip.args(e['a'], None, st):
        v = ip.load(s, vs[0])
        if 'basic_string' in t:
            out.append((s, Sx(v[1]) if v[0] == 's' else v if v[0] == 'tostr' else ('tostr', v)))
            continue
        integral = v[0] == 's' and re.sub(r'\b(const|std::|unsigned)\b ?', '', t).strip() in ('long', 'int', 'long long', 'short', 'int64_t')
        for s2, b in ([(s, re.fullmatch(r'[+-]?\d{1,9}' if 'unsigned' not in t else r'\d{1,9}', v[1]) is not None)] if integral and not re.fullmatch(r'[+-]?\d{10,}', v[1])
                      else ip.truth(s, ('lexable', t, v))):
            if b:
                out.append((s2, ('lexed', t, v)))
            else:
                ip.throw(s2, mkobj('boost::bad_lexical_cast', None, {'text': v}))
    return out


def sto(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], f, st):
        v = ip.load(s, vs[0])
        k = short(f['n'])
        out.append((s, (k, v)))
        if v[0] == 's' and re.fullmatch(r'\s*[+-]?\d{1,9}' if k not in ('stod', 'stof') else r'\s*[+-]?\d{1,9}(\.\d{0,9})?', v[1]):
            continue
        ip.throw(s.fact(('sto_ok', v), FALSE), mkobj('std::invalid_argument'))
        ip.throw(s.fact(('sto_range', v), FALSE), mkobj('std::out_of_range'))
    return out


def make_exception_ptr(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], None, st):
        v = ip.load(s, vs[0])
        out.append((s, ('excptr', v)))
    return out


def current_exception(ip, e, f, st):
    v = st.mem.get(('exc',))
    return [(st, ('excptr', v) if v is not None else NIL)]


def rethrow_exception(ip, e, f, st):
    for s, vs in ip.args(e['a'], None, st):
        v = ip.load(s, vs[0])
        ip.throw(s, v[1] if v[0] == 'excptr' else mkobj('?', ('rethrown', v)))
    return []


def invoke(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], None, st):
        c = ip.load(s, vs[0])
        out += ip.call_closure(c, s, vs[1:], e)
    return out


def apply_f(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], None, st):
        t = ip.load(s, vs[1])
        if t[0] != 'list':
            return None
        out += ip.call_closure(ip.load(s, vs[0]), s, list(t[1]), e)
    return out


def ptr_cast(dynamic):
    def h(ip, e, f, st):
        cls = strip_type((f.get('ta') or ['?'])[0])
        out = []
        for s, vs in ip.args(e['a'], None, st):
            p = ip.load(s, vs[0])
            if not dynamic:
                out.append((s, p))
                continue
            if p[0] == 'nil':
                out.append((s, NIL))
                continue
            dyn = ip.dyntype(s, p)
            if dyn:
                out.append((s, p if dyn == cls or cls in ip.prog.bases(dyn) else NIL))
            else:
                for s2, b in ip.truth(s, ('isa', p, cls)):
                    out.append((s2, p if b else NIL))
        return out
    return h


def stream_out(ip, e, f, st):
    """std::operator<<(ostream &, x): records what is written on the stream's location"""
    out = []
    for s, a in ip.ev(e['a'][0], st):
        for s2, v in ip.rv(e['a'][1], s):
            if v[0] == 'i' and 0 < v[1] < 128 and [strip_type(t) for t in f.get('pt', [])[1:2]] == ['char']:
                v = ('s', chr(v[1]))                         # a character is written as itself, not as its number
            out.append((write_stream(ip, s2, a, v), a))
    return out


def write_stream(ip, s, a, v):
    if v[0] == 'quoted':                                     # the text itself, whatever becomes of its place
        w = ip.load(s, v[1])
        if not (w[0] == 's' and ('"' in w[1] or '\\' in w[1])):
            v = Sx('"%s"' % w[1]) if w[0] == 's' else ('cat', Sx('"'), w, Sx('"'))
    s = s.gset(written=s.g('written', ()) + (v,)) if s.g('record_output') else s
    if a[0] == 'alias':
        c = ip.load(s, a)
        if c[0] == 'obj' and 'stringstream' in c[1] and len(c[2] or ()) <= 2:
            c = ('stream', ())
        if c[0] == 'stream':
            if len(c[1]) < 40:
                s = ip.store(s, loc(a), ('stream', c[1] + (v,)))
    return s


def m_stream_out(ip, e, f, st, o):
    out = []
    for s, v in ip.rv(e['a'][0], st):
        if v[0] in ('fn',):
            out.append((s, o))
        else:
            out.append((write_stream(ip, s, o, v), o))
    return out


def stream_in(ip, e, f, st):
    out = []
    for s, a in ip.ev(e['a'][0], st):
        for s2, b in ip.lv(e['a'][1], s):
            out.append((read_stream(ip, s2, a, b, e), a))
    return out


def manipulator(e):
    """the stream manipulator passed as last argument, if it is one"""
    a = e['a'][-1]
    while a.get('k') in ('cast', 'implicit', 'paren') and a.get('a'):
        a = a['a'][0]
    t = a.get('t', '')
    if 'ios_base &(' in t or '(ios_base' in t or 'ios_base &)' in t:
        return short(a.get('n') or a.get('fn') or (a.get('f') or {}).get('n') or '?')
    return None


def read_stream(ip, s, a, b, e):
    if b[0] == 'alias' and ip.load(s, b)[0] == 'quoted':
        b = ip.load(s, b)
        c = ip.load(s, a) if a[0] == 'alias' else a
        c = c[1] if c[0] == 'stream' and len(c[1]) == 1 else c[2][2:3] if c[0] == 'obj' and 'stringstream' in c[1] and c[2] and len(c[2]) > 2 else (c,)
        v = unquote(c[0][1]) if c[0][0] == 's' else None
        if b[1][0] != 'alias':
            return s
        return ip.store(s, loc(b[1]), Sx(v)) if v is not None else ip.havoc(s, loc(b[1]), (id(e), 'quoted'))
    m = manipulator(e)
    if m is not None or b[0] == 'fn':
        return s.gset(manip=s.g('manip', frozenset()) | {m or short(b[1])})
    c = ip.load(s, a) if a[0] == 'alias' else a
    ty = strip_type(e['a'][-1].get('t', ''))
    if c[0] == 'stream' and c[1]:
        # extraction from what was written into the same stream
        ty = ty + (':boolalpha' if ty == 'bool' and 'boolalpha' in s.g('manip', ()) else '')
        t = ('streamed', ty, c[1] if len(c[1]) > 1 else c[1][0])
        if len(c[1]) == 1 and c[1][0][0] == 's' and ty.startswith('bool'):
            w = c[1][0][1].split()
            w = w[0] if w else ''
            good = [x for x in (('true', 'false') if ty.endswith('boolalpha') else ('1', '0')) if (w.startswith(x) if x.isalpha() else w == x)]
            s = s.fact(('readable',) + t[1:], ('b', bool(good)))
            s = ip.store(s, loc(a), ('readstream', t, c[1]))
            return ip.store(s, loc(b), ('b', bool(good) and good[0] in ('true', '1')))
        s = ip.store(s, loc(a), ('readstream', t, c[1]))
        return ip.store(s.forget(t), loc(b), t)
    i = s.g('reads', 0)
    t = ('text', i)
    if i < len(s.g('input', ())):
        s = s.gset(reads=i + 1)
        t = s.g('input')[i]
        if 'basic_string' not in ty:
            t = ('streamed', ty + (':boolalpha' if ty == 'bool' and 'boolalpha' in s.g('manip', ()) else ''), t)
        return ip.store(s, loc(b), t)
    s = s.gset(reads=min(i + 1, 8))
    if 'basic_string' not in ty:
        t = ('streamed', ty + (':boolalpha' if ty == 'bool' and 'boolalpha' in s.g('manip', ()) else ''), t)
    return ip.store(s.forget(t), loc(b), t)


def m_stream_in(ip, e, f, st, o):
    out = []
    for s, b in ip.lv(e['a'][0], st):
        out.append((read_stream(ip, s, o, b, e), o))
    return out


def stream_good(neg):
    def h(ip, e, f, st, o):
        c = ip.load(st, o)
        if c[0] == 'stream':
            return [(st, ('b', not neg))]
        if c[0] == 'readstream':
            return [(s, ('b', b != neg)) for s, b in ip.truth(st, ('readable',) + c[1][1:])]
        return None
    return h


def stream_eof(ip, e, f, st, o):
    c = ip.load(st, o)
    if c[0] == 'readstream':
        return [(st, ip.resolve(st, ('exhausted',) + c[1][1:]))]
    return None


# regular expressions: exact on known text, a relation of pattern and text otherwise
def pattern_of(v):
    if v[0] == 'obj' and 'basic_regex' in v[1] and v[2]:
        for x in v[2][1:]:
            if isinstance(x, tuple) and x and x[0] == 's':
                return x[1]
    return None


def regex_match(ip, e, f, st):
    import re as _re
    out = []
    whole = short(f['n']) == 'regex_match'
    for s, vs in ip.args(e['a'], f, st):
        ld = [ip.load(s, v) for v in vs if True]
        if e['a'][-1].get('dflt') or (ld[-1][0] == 'i' and len(ld) > 2):
            ld, vs = ld[:-1], vs[:-1]
        rx = len(ld) - 1
        if rx not in (1, 2):
            return None
        p = ld[rx][1] if ld[rx][0] == 's' else pattern_of(ld[rx])
        if p is None:
            return None
        t = ld[0]
        if t[0] == 's':
            try:
                m = (_re.fullmatch if whole else _re.search)(p, t[1])
            except _re.error:
                return None
            res = [(s, m is not None)]
        else:
            res = ip.truth(s, ('matches' if whole else 'searched', p, t))
        for s2, b in res:
            if rx == 2:
                s2 = ip.store(s2, loc(vs[1]), ('match', p, t, whole) if b else ('nomatch',))
            out.append((s2, ('b', b)))
    return out


def match_group(sub):
    def h(ip, e, f, st, o):
        import re as _re
        c = ip.load(st, o)
        if c[0] == 'submatch':
            return [(st, c[1])]
        if c[0] == 'groups':
            args = [a for a in e['a'] if not a.get('dflt')]
            for s, vs in ip.args(args, f, st):
                i = ip.load(s, vs[0]) if vs else I(0)
                if i[0] != 'i':
                    return None
                g = c[1][i[1]] if 0 <= i[1] < len(c[1]) else None
                return [(s, ('submatch', Sx(g or ''), ('b', g is not None)) if sub else Sx(g or ''))]
        if c[0] != 'match':
            return None
        out = []
        args = [a for a in e['a'] if not a.get('dflt')]
        for s, vs in ip.args(args, f, st):
            i = ip.load(s, vs[0]) if vs else I(0)
            if i[0] != 'i':
                return None
            if c[2][0] == 's':
                m = (_re.fullmatch if c[3] else _re.search)(c[1], c[2][1])
                try:
                    g = m.group(i[1])
                except IndexError:
                    g = None
                v = Sx(g or '')
                v = ('submatch', v, ('b', g is not None)) if sub else v
            else:
                v = c[2] if c[3] and i[1] == 0 else ('group', c[1], c[2], i[1])
                v = ('submatch', v, ('matched', v)) if sub else v
            out.append((s, v))
        return out
    return h


def match_size(ip, e, f, st, o):
    import re as _re
    c = ip.load(st, o)
    if c[0] == 'groups':
        return [(st, I(len(c[1])))]
    return [(st, I(_re.compile(c[1]).groups + 1 if c[0] == 'match' else 0))] if c[0] in ('match', 'nomatch') else None


def submatch_str(ip, e, f, st, o):
    c = ip.load(st, o)
    return [(st, c[1])] if c[0] == 'submatch' else None


def submatch_matched(ip, e, f, st, o):
    c = ip.load(st, o)
    return [(st, c[2])] if c[0] == 'submatch' else None


def regex_iterator(ip, s, t, vs):
    """('rx', remaining matches as tuples of groups, submatch or None)"""
    import re as _re
    if not vs:
        return ('rx', (), None)
    if len(vs) < 3 or vs[0][0] != 'iter' or vs[1][0] != 'iter' or vs[0][1] != vs[1][1]:
        return None
    c = ip.loadraw(s, vs[0][1])
    p = vs[2][1] if vs[2][0] == 's' else pattern_of(vs[2])
    sub = None
    if 'token' in t:
        sub = vs[3][1] if len(vs) > 3 and vs[3][0] == 'i' else 0 if len(vs) == 3 else -2
    if c[0] != 's' or p is None or sub == -2 or vs[0][2] not in ('begin', 0) or vs[1][2] != 'end':
        return None
    if sub == -1:
        return ('rx', tuple((x,) for x in split_by(p, c[1])), 0)
    return ('rx', tuple((m.group(0),) + m.groups() for m in _re.finditer(p, c[1])), sub)


def split_by(p, text):
    import re as _re
    at, out = 0, []
    for m in _re.finditer(p, text):
        out.append(text[at:m.start()])
        at = m.end()
    if at < len(text) or not out:
        out.append(text[at:])
    return out


def rx_deref(ip, e, f, st, o):
    c = ip.load(st, o)
    if c[0] != 'rx':
        return None
    if not c[1]:
        s, t = ip.fresh(st, e, 'past-the-end')
        return [(s, t)]
    if c[2] is not None:
        g = c[1][0][c[2]]
        return [(st, ('submatch', Sx(g or ''), ('b', g is not None)))]
    return [(st, ('groups', c[1][0]))]


def rx_arrow(ip, e, f, st, o):
    out = []
    for s, v in rx_deref(ip, e, f, st, o) or ():
        s, a = ip.temp(s, v, (id(e), 'arrow'))
        out.append((s, ('ptr', a[1], a[2])))
    return out or None


def rx_next(ip, e, f, st, o):
    c = ip.load(st, o)
    if c[0] != 'rx':
        return None
    s = ip.store(st, loc(o), ('rx', c[1][1:], c[2]))
    return [(s, c if f.get('pt') else o)]


def rx_equal(neg):
    def h(ip, e, f, st, o):
        out = []
        for s, vs in ip.args(e['a'], f, st):
            a, b = ip.load(s, o), ip.load(s, vs[0])
            if a[0] != 'rx' or b[0] != 'rx':
                return None
            out.append((s, ('b', (a[1] == b[1]) != neg)))
        return out
    return h


RX_M = {'operator*': rx_deref, 'operator->': rx_arrow, 'operator++': rx_next, 'operator==': rx_equal(False), 'operator!=': rx_equal(True), 'operator=': lambda *a: assign(*a)}
MATCH_M = {'str': match_group(False), 'operator[]': match_group(True), 'size': match_size}
SUBMATCH_M = {'str': submatch_str}


def addressof(ip, e, f, st):
    return [(s, ('ptr', a[1], a[2]) if a[0] == 'alias' else a) for s, a in ip.lv(e['a'][0], st)]


def inserter(ip, e, f, st):
    out = []
    for s, a in ip.lv(e['a'][0], st):
        out.append((s, ('inserter', loc(a), short(f['n']) == 'back_inserter')))
    return out


def identity_term(name):
    def h(ip, e, f, st):
        return [(s, (name,) + tuple(ip.load(s, v) for v in vs)) for s, vs in ip.args(e['a'], f, st)]
    return h


def quoted(ip, e, f, st):
    """std::quoted of a string: the place or the text it quotes"""
    return [(s, ('quoted', a)) for s, a in ip.lv(e['a'][0], st)] if len([a for a in e['a'] if not a.get('dflt')]) == 1 else None


def unquote(t):
    t = t.lstrip()
    if not t.startswith('"'):
        return t.split()[0] if t.split() else None
    out, i = '', 1
    while i < len(t) and t[i] != '"':
        i += t[i] == '\\'
        out += t[i:i + 1]
        i += 1
    return out


def to_string(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], f, st):
        v = ip.load(s, vs[0])
        out.append((s, Sx(str(v[1])) if v[0] == 'i' else ('tostr', v)))
    return out


def dflt_bool_method(ip, e, f, st):
    return None


def alt_is(ip, v, t):
    """does alternative type t hold value v: True / False / None (unknown)"""
    t = strip_type(t)
    if v[0] == 'obj':
        return same_type(v[1], t)
    if v[0] in ('s',) or (v[0] == 'cat'):
        return 'basic_string' in t
    if v[0] == 'b':
        return t == 'bool'
    return None


def same_type(a, b):
    a, b = strip_type(a), strip_type(b)
    return a == b or (a.split('::')[-1] == b.split('::')[-1] and a.split('::')[0] == b.split('::')[0])


def alternatives(ip, s, v, vt):
    """[(state, alternative value, type)] of a variant value"""
    if v[0] in ('obj', 's'):
        return [(s, v, v[1] if v[0] == 'obj' else 'std::basic_string')]
    k = ('alt', v)
    known = s.facts.get(k)
    ts = [known[1]] if known is not None else [strip_type(t) for t in targs(strip_type(vt))]
    return [(s.fact(k, ('ty', t)), mkobj(t, ('field', v, ('alt', t)), ()) if t in ip.prog.records else ('field', v, ('alt', t)), t) for t in ts]


def closures(v):
    """function objects gathered in an overload set"""
    if v[0] in ('lam', 'fn', 'bound'):
        return [v]
    out = []
    if v[0] == 'obj':
        for k, x in v[3]:
            if isinstance(k, tuple) and k[0] == 'base':
                out += closures(x)
                if x[0] == 'obj' and x[2] and x[2][0] == 'new' and len(x[2]) == 3:
                    out += closures(x[2][2])
    return out


def call_overloaded(ip, s, c, args, types, e):
    cs = closures(c)
    exact, generic = [], []
    for x in cs:
        if x[0] != 'lam':
            generic.append((x, None))
            continue
        for k in x[1]:
            fn = ip.prog.func(k, x[3])
            if fn is None or len(fn.x['p']) != len(args):
                continue
            if all(same_type(p['t'], t) for p, t in zip(fn.x['p'], types)):
                (generic if fn.x.get('ta') else exact).append((x, fn))
    pick = exact or generic
    if not pick:
        for x in cs:
            if x[0] == 'lam':
                pick += [(x, fn) for fn in [ip.prog.func(k, x[3]) for k in x[1]] if fn is not None and len(fn.x['p']) == len(args)][:1]
    if not pick and c[0] == 'obj' and c[1] in ip.prog.records:
        for m in ip.prog.methods(c[1]):
            if m['q' if 'q' in m else 'n'].endswith('operator()'):
                fn = ip.prog.func(m['k'])
                if fn is not None and len(fn.x['p']) == len(args) and all(same_type(p['t'], t) for p, t in zip(fn.x['p'], types)):
                    s, a = ip.temp(s, c, (id(e), 'fo'))
                    return ip.invoke(fn, s, ('ptr', a[1], a[2]), args, e)
    if not pick:
        return None
    x, fn = pick[0]
    return ip.call_closure(x, s, args, e, fn.key if fn is not None else None)


def visit(ip, e, f, st):
    if len(e['a']) != 2:
        return None
    out = []
    for s, vs in vals(ip, e, f, st):
        c, v = ip.load(s, vs[0]), ip.load(s, vs[1])
        for s2, a, t in alternatives(ip, s, v, e['a'][1].get('t', '')):
            arg = a
            if vs[1][0] == 'alias' and v[0] in ('obj', 's'):
                arg = vs[1]
            r = call_overloaded(ip, s2, c, [arg], [t], e)
            if r is None:
                return None
            out += r
    return dedupe(out)


def holds_alternative(ip, e, f, st):
    t = strip_type((f.get('ta') or ['?'])[0])
    out = []
    for s, vs in vals(ip, e, f, st):
        v = ip.load(s, vs[0])
        for s2, a, at in alternatives(ip, s, v, e['a'][0].get('t', '')):
            out.append((s2, ('b', same_type(at, t))))
    return dedupe(out)


def get_if(ip, e, f, st):
    t = strip_type((f.get('ta') or ['?'])[0])
    out = []
    for s, vs in vals(ip, e, f, st):
        p = ip.load(s, vs[0])
        if p[0] != 'ptr':
            return None
        a = ('alias', p[1], p[2])
        v = ip.load(s, a)
        for s2, x, at in alternatives(ip, s, v, strip_type(e['a'][0].get('t', '')).rstrip('* ')):
            if same_type(at, t):
                if v[0] not in ('obj', 's'):
                    s2, b = ip.temp(s2, x, (id(e), 'alt'))
                    out.append((s2, ('ptr', b[1], b[2])))
                else:
                    out.append((s2, p))
            else:
                out.append((s2, NIL))
    return dedupe(out)


# std::filesystem::path is represented by its text; the decompositions are uninterpreted functions of it
def fs_id(ip, e, f, st, o):
    return [(st, ip.load(st, o))]


def fs_fn(name):
    def m(ip, e, f, st, o):
        return [(st, (name, ip.load(st, o)))]
    return m


def fs_replace(name):
    def m(ip, e, f, st, o):
        out = []
        for s, vs in vals(ip, e, f, st):
            s = ip.write(s, o, (name, ip.load(s, o)) + tuple(ip.load(s, v) for v in vs), e)
            out.append((s, o))
        return out
    return m


def fs_join(ip, e, f, st, o=None):
    out = []
    for s, vs in vals(ip, e, f, st):
        l = ([ip.load(s, o)] if o is not None else []) + [ip.load(s, v) for v in vs]
        if len(l) != 2:
            return None
        v = ('join', l[0], l[1])
        if o is not None:
            s = ip.write(s, o, v, e)
            out.append((s, o))
        else:
            out.append((s, v))
    return out


PATH_M = {'string': fs_id, 'native': fs_id, 'c_str': fs_id, 'generic_string': fs_id, 'u8string': fs_id, 'parent_path': fs_fn('parent_path'), 'filename': fs_fn('filename'),
          'stem': fs_fn('stem'), 'extension': fs_fn('extension'), 'empty': lambda ip, e, f, st, o: m_empty(ip, e, f, st, o), 'replace_extension': fs_replace('replace_extension'),
          'replace_filename': fs_replace('replace_filename'), 'operator/=': fs_join, 'append': fs_join, 'operator=': lambda ip, e, f, st, o: assign(ip, e, f, st, o)}


FREE = {
    'abs': abs_f, 'fabs': abs_f,
    'visit': visit, 'holds_alternative': holds_alternative, 'get_if': get_if,
    'begin': begin('begin'), 'cbegin': begin('begin'), 'end': begin('end'), 'cend': begin('end'),
    'move': ret_arg(), 'forward': ret_arg(), 'as_const': ret_arg(), 'ref': ret_arg(), 'cref': ret_arg(), 'move_if_noexcept': ret_arg(), '__forward': ret_arg(),
    'addressof': addressof, '__addressof': addressof,
    'all_of': quantifier(False, False), 'any_of': quantifier(True, True), 'none_of': quantifier(True, False),
    'accumulate': accumulate, 'for_each': for_each, 'find_if': find_if(), 'find_if_not': find_if(True), 'find': find_if(False, True),
    'size': size_f(I), 'ssize': size_f(I), 'empty': size_f(lambda n: ('b', n == 0)), 'remove_if': remove_if(), 'remove': remove_if(True), 'count_if': count_if(), 'count': count_if(True), 'transform': transform, 'copy': copy_if, 'copy_if': copy_if, 'distance': distance,
    'next': it_next(1), 'prev': it_next(-1),
    'make_shared': make_ptr, 'make_unique': make_ptr, 'make_pair': make_pair, 'make_tuple': make_tuple, 'make_optional': make_optional, 'tie': tie, 'forward_as_tuple': tie, 'get': get_f,
    'exchange': exchange, 'swap': swap_f, 'min': minmax('min'), 'max': minmax('max'),
    'lexical_cast': lexical_cast, 'stoi': sto, 'stol': sto, 'stoul': sto, 'stod': sto, 'stof': sto, 'stoull': sto, 'stoll': sto,
    'make_exception_ptr': make_exception_ptr, 'current_exception': current_exception, 'rethrow_exception': rethrow_exception,
    'apply': apply_f, 'invoke': invoke, 'static_pointer_cast': ptr_cast(False), 'const_pointer_cast': ptr_cast(False), 'dynamic_pointer_cast': ptr_cast(True),
    'operator==': cmp_f('=='), 'operator!=': cmp_f('!='), 'operator<': cmp_f('<'), 'operator>': cmp_f('>'), 'operator<=': cmp_f('<='), 'operator>=': cmp_f('>='),
    'operator+': bin_f('+'), 'operator-': bin_f('-'), 'operator*': bin_f('*'), 'operator/': bin_f('/'),
    'operator<<': stream_out, 'operator>>': stream_in, 'back_inserter': inserter, 'inserter': inserter, 'front_inserter': inserter,
    'fill': rewrite_range('fill', 3), 'fill_n': rewrite_range('fill_n', 3), 'iota': rewrite_range('iota', 3), 'reverse': rewrite_range('reverse'), 'partial_sum': rewrite_range('partial_sum', 3),
    'max_element': extreme(True), 'min_element': extreme(False), 'clamp': clamp_f,
    'quoted': quoted, 'to_string': to_string, 'regex_match': regex_match, 'regex_search': regex_match,
}
FREE_ANY = {'abs', 'fabs'}


# ------------------------------------------------------------------ boost string algorithms, on known text
def classifier(chars):
    def h(ip, e, f, st):
        if chars is not None:
            return [(st, ('chars', chars))]
        return [(s, ('chars', ip.load(s, vs[0])[1])) for s, vs in ip.args(e['a'], f, st) if ip.load(s, vs[0])[0] == 's']
    return h


def boost_split(ip, e, f, st):
    out = []
    for s, vs in ip.args(e['a'], f, st):
        t, c = ip.load(s, vs[1]), ip.load(s, vs[2])
        if vs[0][0] != 'alias' or t[0] != 's' or c[0] != 'chars':
            s = ip.havoc(s, loc(vs[0]), e) if vs[0][0] == 'alias' else s
            out.append((s, vs[0]))
            continue
        mode = ip.load(s, vs[3]) if len(vs) > 3 else I(1)
        rx = '[%s]' % re.escape(c[1])
        parts = re.split(rx + ('+' if mode == I(0) else ''), t[1])
        out.append((ip.store(s, loc(vs[0]), ('list', tuple(Sx(p) for p in parts))), vs[0]))
    return out


def boost_string(fn, inplace=False):
    def h(ip, e, f, st):
        out = []
        for s, vs in ip.args(e['a'], f, st):
            ld = [ip.load(s, v) for v, a in zip(vs, e['a']) if not a.get('dflt')]
            if not all(v[0] == 's' for v in ld):
                return None
            v = fn(*[v[1] for v in ld])
            if inplace:
                s, v = ip.store(s, loc(vs[0]), Sx(v)), VOID
            else:
                v = ('b', v) if isinstance(v, bool) else Sx(v)
            out.append((s, v))
        return out
    return h


BOOST = {'split': boost_split, 'is_space': classifier(' \t\n\v\f\r'), 'is_any_of': classifier(None),
         'trim_copy': boost_string(lambda a: a.strip(' \t\n\v\f\r')), 'trim': boost_string(lambda a: a.strip(' \t\n\v\f\r'), True),
         'replace_all_copy': boost_string(lambda a, b, c: a.replace(b, c) if b else a), 'replace_all': boost_string(lambda a, b, c: a.replace(b, c) if b else a, True),
         'starts_with': boost_string(lambda a, b: a.startswith(b)), 'ends_with': boost_string(lambda a, b: a.endswith(b)), 'contains': boost_string(lambda a, b: b in a)}


# ------------------------------------------------------------------ member tables
def p_deref(ip, e, f, st, o):
    return [(st, ip.deref(st, ip.load(st, o)))]


def p_arrow(ip, e, f, st, o):
    a = ip.deref(st, ip.load(st, o))
    return [(st, ('ptr', a[1], a[2]))]


def p_get(ip, e, f, st, o):
    return [(st, ip.load(st, o))]


def p_bool(ip, e, f, st, o):
    v = ip.load(st, o)
    if v[0] in ('ptr', 'fn', 'lam', 'some', 'excptr'):
        return [(st, TRUE)]
    if v[0] in ('nil', 'none'):
        return [(st, FALSE)]
    return [(st, ip.resolve(st, ('nonnull', v)))]


def p_reset(ip, e, f, st, o):
    out = []
    for s, vs in vals(ip, e, f, st):
        v = ip.load(s, vs[0]) if vs else NIL
        out.append((ip.write(s, o, v, e), VOID))
    return out


def assign(ip, e, f, st, o):
    out = []
    for s, vs in vals(ip, e, f, st):
        v = ip.load(s, vs[0])
        if v[0] == 'list' and o is not None:
            old = ip.load(s, o)
            if old[0] == 'list' and old[1] and all(x[0] == 'alias' for x in old[1]):   # std::tie
                for a, b in zip(old[1], v[1]):
                    s = ip.store(s, loc(a), ip.load(s, b))
                out.append((s, o))
                continue
        out.append((ip.write(s, o, v, e), o))
    return out


def p_release(ip, e, f, st, o):
    v = ip.load(st, o)
    return [(ip.store(st, loc(o), NIL), v)]


def o_has(ip, e, f, st, o):
    v = ip.load(st, o)
    if v[0] == 'some':
        return [(st, TRUE)]
    if v[0] == 'none':
        return [(st, FALSE)]
    return [(st, ip.resolve(st, ('nonnull', v)))]


def o_deref(ip, e, f, st, o):
    return [(st, ('alias', o[1], o[2] + ('*',)))]


def o_arrow(ip, e, f, st, o):
    return [(st, ('ptr', o[1], o[2] + ('*',)))]


def o_value(ip, e, f, st, o):
    out = []
    for s, b in ip.truth(st, o_has(ip, e, f, st, o)[0][1]):
        if b:
            out.append((s, ('alias', o[1], o[2] + ('*',))))
        else:
            ip.throw(s, mkobj('std::bad_optional_access'))
    return out


def o_value_or(ip, e, f, st, o):
    out = []
    for s0, vs in vals(ip, e, f, st):
        for s, b in ip.truth(s0, o_has(ip, e, f, s0, o)[0][1]):
            out.append((s, ip.load(s, ('alias', o[1], o[2] + ('*',))) if b else ip.load(s, vs[0])))
    return out


def o_reset(ip, e, f, st, o):
    return [(ip.write(st, o, NONE, e), VOID)]


def o_assign(ip, e, f, st, o):
    out = []
    for s, vs in vals(ip, e, f, st):
        v = ip.load(s, vs[0])
        t = (f.get('pt') or [''])[0]
        if v[0] in ('none', 'some') or 'optional<' in strip_type(t).split('::', 1)[-1][:12] or 'nullopt' in t:
            nv = NONE if 'nullopt' in t else v
        else:
            nv = ('some', v)
        out.append((ip.write(s, o, nv, e), o))
    return out


def o_emplace(ip, e, f, st, o):
    out = []
    t = elem_type(strip_type(e['o'].get('t', '')))
    for s, vs in ip.args(e['a'], None, st):
        if len(vs) == 1:
            rs = [(s, ip.load(s, vs[0]))]
            r = ip.prog.records.get(t)
            if r is not None and not t.startswith('std::') and not (rs[0][1][0] == 'obj' and rs[0][1][1] == t):
                rs = construct(ip, s, t, list(vs), e)
        else:
            rs = construct(ip, s, t, list(vs), e)
        for s2, v in rs:
            v = ip.load(s2, v)
            s2 = ip.write(s2, o, ('some', v), e)
            out.append((s2, ('alias', o[1], o[2] + ('*',))))
    return out


def s_cstr(ip, e, f, st, o):
    return [(st, ip.load(st, o))]


def s_append(ip, e, f, st, o):
    out = []
    for s, vs in ip.args([a for a in e['a'] if not a.get('dflt')], f, st):
        a, vs = ip.load(s, o), [ip.load(s, v) for v in vs]
        b = ip.string_of(s, vs, e['a'][0].get('k') == 'str')
        if b is None:
            return None
        if b[0] == 'i' and len(vs) == 1 and 0 <= b[1] < 128:
            b = Sx(chr(b[1]))
        v = Sx(a[1] + b[1]) if a[0] == 's' and b[0] == 's' else ('cat', a, b)
        if len(repr(v)) > 4000:
            s = ip.havoc(s, loc(o), (id(e), 'app'))
        else:
            s = ip.store(s, loc(o), v)
        out.append((s, o))
    return out


def text_in(c):
    """the string part of an object of a class derived from std::string"""
    while c[0] == 'obj' and c[3] and c[3][0][0][0] == 'base' and 'basic_string' in c[3][0][0][1]:
        c = c[3][0][1]
    return c


def s_query(k):
    """queries on strings of known content"""
    def m(ip, e, f, st, o):
        c = text_in(ip.load(st, o))
        if c[0] != 's':
            return None
        c = c[1]
        out = []
        for s, vs in ip.args([a for a in e['a'] if not a.get('dflt')], f, st):
            vs = [ip.load(s, v) for v in vs]
            a = [v[1] if v[0] in ('s', 'i') else None for v in vs]
            if None in a:
                return None
            if k in ('front', 'back'):
                if not c:
                    return None
                r = I(ord(c[0 if k == 'front' else -1]))
            elif k == 'at':
                if not 0 <= a[0] < len(c):
                    return None
                r = I(ord(c[a[0]]))
            elif k == 'substr':
                b = a[0] if a else 0
                if b > len(c):
                    ip.throw(s, mkobj('std::out_of_range'))
                    continue
                r = Sx(c[b:] if len(a) < 2 or a[1] < 0 else c[b:b + a[1]])
            elif k in ('find', 'rfind'):
                n = a[0] if isinstance(a[0], str) else chr(a[0])
                r = c.find(n, a[1] if len(a) > 1 else 0) if k == 'find' else c.rfind(n) if len(a) == 1 or a[1] < 0 else c.rfind(n, 0, a[1] + len(n))
                r = I(r if r >= 0 else NPOS)
            elif k in ('find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
                n = a[0] if isinstance(a[0], str) else chr(a[0])
                if len(a) > 1:
                    return None
                ix = [i for i, x in enumerate(c) if (x in n) == ('not' not in k)]
                r = I((ix[0] if 'first' in k else ix[-1]) if ix else NPOS)
            elif k == 'compare' and len(a) == 1:
                r = I((c > a[0]) - (c < a[0]))
            elif k == 'compare' and len(a) == 3:
                x = c[a[0]:a[0] + a[1]]
                r = I((x > a[2]) - (x < a[2]))
            elif k in ('starts_with', 'ends_with'):
                n = a[0] if isinstance(a[0], str) else chr(a[0])
                r = ('b', c.startswith(n) if k == 'starts_with' else c.endswith(n))
            else:
                return None
            out.append((s, r))
        return out
    return m


NPOS = 2 ** 64 - 1


def s_edit(k):
    def m(ip, e, f, st, o):
        c = ip.load(st, o)
        if c[0] != 's':
            return s_append(ip, e, f, st, o) if k == 'push_back' else None
        out = []
        for s, vs in ip.args([a for a in e['a'] if not a.get('dflt')], f, st):
            vs = [ip.load(s, v) for v in vs]
            if k == 'pop_back':
                if not c[1]:
                    return None
                out.append((ip.store(s, loc(o), Sx(c[1][:-1])), VOID))
            elif k == 'push_back' and vs[0][0] == 'i':
                out.append((ip.store(s, loc(o), Sx(c[1] + chr(vs[0][1]))), VOID))
            elif k == 'erase' and vs and all(v[0] == 'i' for v in vs):
                b = vs[0][1]
                out.append((ip.store(s, loc(o), Sx(c[1][:b] + (c[1][b + vs[1][1]:] if len(vs) > 1 else ''))), o))
            elif k == 'insert' and len(vs) >= 2 and vs[0][0] == 'i' and 0 <= vs[0][1] <= len(c[1]):
                x = ip.string_of(s, vs[1:], e['a'][1].get('k') == 'str')
                if x is None or x[0] != 's' and vs[0][1] not in (0, len(c[1])):
                    return None
                b = vs[0][1]
                out.append((ip.store(s, loc(o), Sx(c[1][:b] + x[1] + c[1][b:]) if x[0] == 's' else ('cat', x, c) if b == 0 and c[1] else ('cat', c, x)), o))
            elif k == 'replace' and len(vs) == 3 and vs[0][0] == vs[1][0] == 'i' and vs[2][0] == 's':
                b = vs[0][1]
                out.append((ip.store(s, loc(o), Sx(c[1][:b] + vs[2][1] + c[1][b + vs[1][1]:])), o))
            elif k == 'resize' and vs and vs[0][0] == 'i' and (len(vs) == 1 or vs[1][0] == 'i'):
                n = vs[0][1]
                out.append((ip.store(s, loc(o), Sx((c[1] + chr(vs[1][1] if len(vs) > 1 else 0) * max(0, n - len(c[1])))[:n])), VOID))
            else:
                return None
        return out
    return m


def fn_call(ip, e, f, st, o):
    v = ip.load(st, o)
    out = []
    for s, vs in ip.args(e['a'], f, st):
        if v[0] not in ('lam', 'fn', 'bound', 'nil'):
            out += ip.call_closure(v, s, vs, e)
        else:
            out += ip.call_closure(v, s, vs, e)
    return out


def at_load(ip, e, f, st, o):
    return [(st, ip.load(st, o))]


def at_store(ip, e, f, st, o):
    out = []
    for s, vs in vals(ip, e, f, st):
        v = ip.load(s, vs[0])
        out.append((ip.write(s, o, v, e), v))
    return out


def at_exchange(ip, e, f, st, o):
    out = []
    for s, vs in vals(ip, e, f, st):
        old, v = ip.load(s, o), ip.load(s, vs[0])
        out.append((ip.write(s, o, v, e), old))
    return out


def ss_str(ip, e, f, st, o):
    c = ip.load(st, o)
    return [(st, ('str', c))]


def it_base(ip, e, f, st, o):
    v = ip.load(st, o)
    return [(st, v[1] if v[0] == 'rev' else v)]


CMP = {'operator==': cmp_m('=='), 'operator!=': cmp_m('!='), 'operator<': cmp_m('<'), 'operator>': cmp_m('>'), 'operator<=': cmp_m('<='), 'operator>=': cmp_m('>=')}
ITER_M = dict(CMP, **{'operator*': it_deref, 'operator->': it_arrow, 'operator++': it_step(1), 'operator--': it_step(-1), 'operator+': it_plus(1), 'operator-': it_plus(-1), 'base': it_base, 'operator=': assign})
PTR_M = dict(CMP, **{'operator*': p_deref, 'operator->': p_arrow, 'get': p_get, 'operator bool': p_bool, 'reset': p_reset, 'operator=': assign, 'release': p_release, 'lock': p_get,
                     'shared_from_this': None})
OPT_M = dict(CMP, **{'operator*': o_deref, 'operator->': o_arrow, 'has_value': o_has, 'is_initialized': o_has, 'operator bool': o_has, 'value': o_value, 'get': o_deref, 'value_or': o_value_or,
                     'reset': o_reset, 'operator=': o_assign, 'emplace': o_emplace})
SEQ_M = {
    'begin': mbegin('begin'), 'cbegin': mbegin('begin'), 'end': mbegin('end'), 'cend': mbegin('end'),
    'rbegin': mrbegin('end'), 'crbegin': mrbegin('end'), 'rend': mrbegin('begin'), 'crend': mrbegin('begin'),
    'size': m_size, 'empty': m_empty, 'push_back': m_push('back'), 'emplace_back': m_push('back'), 'push_front': m_push('front'), 'emplace_front': m_push('front'),
    'clear': m_clear, 'at': m_index(True), 'operator[]': m_index(False), 'find': m_find, 'count': m_count, 'contains': m_count,
    'front': m_front('front'), 'back': m_front('back'), 'operator=': assign, 'emplace': m_emplace, 'insert': m_emplace, 'assign': m_emplace, 'resize': m_resize, 'reserve': m_reserve, 'data': m_data, 'try_emplace': m_emplace, 'insert_or_assign': m_emplace, 'equal_range': m_bound('equal_range'), 'lower_bound': m_bound('lower_bound'), 'upper_bound': m_bound('upper_bound'), 'merge': m_merge, 'splice': m_splice,
    'erase': m_erase, 'pop_front': m_pop('front'), 'pop_back': m_pop('back'),
}
QUEUE_M = {'push': m_push('back'), 'emplace': m_push('back'), 'front': m_front('front'), 'back': m_front('back'), 'pop': m_pop('front'), 'size': m_size, 'empty': m_empty, 'operator=': assign}
STACK_M = {'push': m_push('back'), 'emplace': m_push('back'), 'top': m_front('back'), 'pop': m_pop('back'), 'size': m_size, 'empty': m_empty, 'operator=': assign}
STR_M = dict(CMP, **{'rbegin': mrbegin('end'), 'crbegin': mrbegin('end'), 'rend': mrbegin('begin'), 'crend': mrbegin('begin')}, **{k: s_query(k) for k in ('front', 'back', 'at', 'substr', 'find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of', 'compare', 'starts_with', 'ends_with')},
              **{'operator[]': s_query('at'), 'pop_back': s_edit('pop_back'), 'push_back': s_edit('push_back'), 'erase': s_edit('erase'), 'insert': s_edit('insert'), 'replace': s_edit('replace'), 'resize': s_edit('resize'), 'reserve': m_reserve, 'shrink_to_fit': m_reserve}, **{'c_str': s_cstr, 'data': s_cstr, 'empty': m_empty, 'size': m_size, 'length': m_size, 'operator=': assign, 'assign': lambda ip, e, f, st, o: assign(ip, e, f, st, o) if len(e['a']) == 1 else None, 'append': s_append, 'operator+=': s_append, 'clear': m_clear,
                     'begin': mbegin('begin'), 'end': mbegin('end'), 'cbegin': mbegin('begin'), 'cend': mbegin('end'), 'operator basic_string_view': s_cstr})
FUN_M = {'operator()': fn_call, 'operator bool': p_bool, 'operator=': assign}
ATOM_M = {'load': at_load, 'store': at_store, 'operator=': at_store, 'exchange': at_exchange}
REF_M = {'get': lambda ip, e, f, st, o: [(st, ip.load(st, o) if False else o)]}
TY_M = CMP
STREAM_M = {'operator<<': m_stream_out, 'operator>>': m_stream_in, 'str': ss_str, 'operator bool': stream_good(False), 'operator!': stream_good(True), 'good': stream_good(False), 'fail': stream_good(True), 'eof': stream_eof}
for d in (PTR_M, STREAM_M):
    for k in [k for k, v in d.items() if v is None]:
        del d[k]


def _conv(ip, e, f, st, o):
    return [(st, ip.load(st, o))]


_base_call = call


def call(ip, e, f, st, o):   # noqa: F811
    r = _base_call(ip, e, f, st, o)
    if r is None and o is not None:
        s = short(f['n'])
        own = owner(f['n'])
        if s.startswith('operator ') and (own.startswith('std::atomic') or own.startswith('std::__atomic') or own.startswith('std::reference_wrapper') or own.startswith('std::basic_string')):
            return _conv(ip, e, f, st, o)
    return r
