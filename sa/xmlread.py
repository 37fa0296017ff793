"""Transformers for reading pugixml documents.

A document is a tuple of nodes (name, ((attribute, text), ...), (child, ...), text, parent); a node handle is
('xr', i), a null handle ('xr', None); attributes ('xra', i, name) and text ('xrt', i)."""
import re
from .absint import TRUE, FALSE, VOID, I, Sx, Undecided
from . import models
from .models import short, owner


def document(tree):
    """tree = (name, {attributes}, [children] or text) -> tuple of nodes, node 0 is the root"""
    nodes = []

    def add(t, parent):
        i = len(nodes)
        nodes.append(None)
        name, at, ch = t
        kids = tuple(add(c, i) for c in ch) if not isinstance(ch, str) else ()
        nodes[i] = (name, tuple(at.items()), kids, ch if isinstance(ch, str) else '', parent)
        return i
    add(tree, None)
    return tuple(nodes)


def nodes(s):
    return s.g('doc', ())


def txt(v):
    if v[0] != 's':
        raise Undecided('xml lookup with an unknown name')
    return v[1]


def truth_conv(m):
    return m in ('operator bool', 'operator!', 'empty') or re.match(r'operator (?!.*[=<>!]$)', m)


def h_method(ip, st, e, o, args, f):
    own, m = owner(f['n']), short(f['n'])
    if m.startswith('operator ') is False and 'operator' in f['n']:
        m = f['n'][f['n'].rfind('operator'):]
    if o is None:
        return None
    if own.endswith('iterator'):
        h = models.ITER_M.get(m)
        if h is None:
            raise Undecided('unmodelled xml iterator operation %s' % f['n'])
        return h(ip, e, f, st, o)
    out = []
    for s, vs in ip.args(args, f, st):
        h = ip.load(s, o)
        vs = [ip.load(s, v) for v, a in zip(vs, args) if not (isinstance(a, dict) and a.get('dflt'))]
        if m == 'operator=' and vs and vs[0][0] in ('xr', 'xra', 'xrt'):
            out.append((ip.store(s, (o[1], o[2]), vs[0]), o))
            continue
        if h[0] not in ('xr', 'xra', 'xrt'):
            if m in ('begin', 'end') and h[0] == 'list':
                out += [(s, ('iter', ip.cloc(s, (o[1], o[2])), m))]
                continue
            raise Undecided('xml handle of unknown origin in %s' % f['n'])
        ns = nodes(s)
        null = h[1] is None
        n = None if null else ns[h[1]]
        if m in ('operator==', 'operator!='):
            out.append((s, ('b', (h == vs[0]) == (m == 'operator=='))))
        elif m in ('operator!', 'empty'):
            out.append((s, ('b', null)))
        elif h[0] == 'xr' and m in ('child', 'first_child', 'last_child', 'next_sibling', 'previous_sibling', 'parent', 'attribute', 'first_attribute', 'last_attribute', 'children', 'attributes', 'name', 'value', 'text', 'child_value', 'begin', 'end', 'root', 'document_element', 'type', 'path'):
            kids = () if null else n[2]
            if m in ('child', 'children') and vs:
                kids = tuple(k for k in kids if ns[k][0] == txt(vs[0]))
            if m == 'child' or m == 'first_child':
                r = ('xr', kids[0] if kids else None)
            elif m == 'last_child':
                r = ('xr', kids[-1] if kids else None)
            elif m in ('next_sibling', 'previous_sibling'):
                r = ('xr', None)
                if not null and n[4] is not None:
                    sib = ns[n[4]][2]
                    i = sib.index(h[1])
                    rest = sib[i + 1:] if m == 'next_sibling' else sib[:i][::-1]
                    rest = [k for k in rest if not vs or ns[k][0] == txt(vs[0])]
                    r = ('xr', rest[0] if rest else None)
            elif m == 'parent':
                r = ('xr', None if null else n[4])
            elif m in ('root', 'document_element'):
                r = ('xr', None if null else 0)
            elif m == 'attribute':
                ok = not null and txt(vs[0]) in dict(n[1])
                r = ('xra', h[1] if ok else None, vs[0][1] if ok else '')
            elif m in ('first_attribute', 'last_attribute'):
                ks = () if null else [k for k, _ in n[1]]
                r = ('xra', h[1], ks[0 if m == 'first_attribute' else -1]) if ks else ('xra', None, '')
            elif m == 'children':
                r = ('list', tuple(('xr', k) for k in kids))
            elif m == 'attributes':
                r = ('list', tuple(('xra', h[1], k) for k, _ in n[1])) if not null else ('list', ())
            elif m == 'name':
                r = Sx('' if null else n[0])
            elif m in ('value',):
                r = Sx('')
            elif m == 'child_value':
                r = Sx('' if null else n[3] if not vs else next((ns[k][3] for k in kids if ns[k][0] == txt(vs[0])), ''))
            elif m == 'text':
                r = ('xrt', h[1])
            elif m in ('begin', 'end'):
                root = ('xmlkids', h[1])
                s = s.put(root, ('list', tuple(('xr', k) for k in kids)))
                r = ('iter', (root, ()), m)
            else:
                raise Undecided('unmodelled xml operation %s' % f['n'])
            out.append((s, r))
        elif h[0] == 'xra' and m in ('value', 'as_string', 'name'):
            if null:
                out.append((s, Sx('') if m != 'as_string' or not vs else vs[0]))
            else:
                out.append((s, Sx(h[2] if m == 'name' else dict(n[1])[h[2]])))
        elif h[0] == 'xrt' and m in ('get', 'as_string'):
            out.append((s, Sx('' if null else n[3])))
        elif m.startswith('operator'):
            out.append((s, ('b', not null if h[0] != 'xrt' else (not null and bool(n[3])))))
        else:
            raise Undecided('unmodelled xml operation %s' % f['n'])
    return out


def h_ctor(ip, st, e, o, args, f):
    if args:
        return None
    k = f['n'].split('::')[-1]
    v = ('xra', None, '') if 'attribute' in k else ('xr', None)
    if o is not None:
        return [(ip.store(st, (o[1], o[2]), v), VOID)]
    return [(st, v)]


HOOKS = [(r'^pugi::xml_(node|attribute)::xml_(node|attribute)$', h_ctor), (r'^pugi::xml_(node|document|attribute|text|object_range<.*>|node_iterator|named_node_iterator|attribute_iterator)::(?!xml_)', h_method)]
