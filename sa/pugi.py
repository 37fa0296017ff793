"""Transformers for pugixml documents under construction: the tree is a ghost sequence of nodes and attributes."""
import re
from .absint import VOID, mkobj, TRUE, FALSE, I, Undecided
from .models import short, owner


def nodes(s):
    return s.g('xml', ())


def add(s, parent, name):
    n = nodes(s)
    return s.gset(xml=n + ((parent, name, ()),)), ('xn', len(n))


def setattr_(s, node, name, value):
    n = list(nodes(s))
    p, nm, at = n[node]
    at = tuple((k, v) for k, v in at if k != name) + ((name, value),)
    n[node] = (p, nm, at)
    return s.gset(xml=tuple(n))


def text(ip, s, v):
    v = ip.load(s, v)
    return v[1] if v[0] == 's' else v


def h_doc(ip, st, e, o, args, f):
    s, v = add(st, None, '#document')
    if o is not None:
        return [(ip.store(s, (o[1], o[2]), v), VOID)]
    return [(s, v)]


def h_method(ip, st, e, o, args, f):
    own, m = owner(f['n']), short(f['n'])
    if o is None:
        return None
    out = []
    for s, vs in ip.args(args, f, st):
        h = ip.load(s, o)
        vs = [ip.load(s, v) for v, a in zip(vs, args) if not (isinstance(a, dict) and a.get('dflt'))]
        if h[0] not in ('xn', 'xa', 'xt', 'xnull'):
            raise Undecided('xml handle of unknown origin in %s' % f['n'])
        if h[0] == 'xnull':
            out.append((s, FALSE if m in ('operator bool',) else ('xnull',) if m not in ('set_value', 'operator=', 'set', 'set_name') else (o if m == 'operator=' else FALSE)))
            continue
        if own.endswith('xml_text'):
            if m in ('set', 'operator='):
                out.append((setattr_(s, h[1], '#text', vs[0]), TRUE if m == 'set' else o))
                continue
        elif own.endswith('xml_attribute'):
            if m in ('operator=', 'set_value'):
                out.append((setattr_(s, h[1], h[2], vs[0]), o if m == 'operator=' else TRUE))
                continue
            if m == 'operator bool':
                out.append((s, TRUE))
                continue
        elif m in ('append_child', 'append_attribute'):
            nm = text(ip, s, vs[0]) if vs else '#element'
            if m == 'append_child':
                if vs and vs[0][0] == 'i':
                    nm = '#node'
                s, v = add(s, h[1], nm)
            else:
                s, v = setattr_(s, h[1], nm, ('s', '')), ('xa', h[1], nm)
            out.append((s, v))
            continue
        elif m in ('child', 'attribute', 'root', 'document_element', 'parent', 'last_child', 'first_child'):
            ns = nodes(s)
            if m == 'attribute':
                nm = text(ip, s, vs[0])
                out.append((s, ('xa', h[1], nm) if any(k == nm for k, _ in ns[h[1]][2]) else ('xnull',)))
                continue
            if m == 'parent':
                out.append((s, ('xn', ns[h[1]][0]) if ns[h[1]][0] is not None else ('xnull',)))
                continue
            ch = [i for i, (p, nm, _) in enumerate(ns) if p == h[1] and (m != 'child' or nm == text(ip, s, vs[0]))]
            out.append((s, ('xn', ch[-1] if m == 'last_child' else ch[0]) if ch else ('xnull',)))
            continue
        elif m == 'text':
            out.append((s, ('xt', h[1])))
            continue
        elif m == 'set_value':
            out.append((setattr_(s, h[1], '#text', vs[0]), TRUE))
            continue
        elif m == 'set_name':
            n = list(nodes(s))
            n[h[1]] = (n[h[1]][0], text(ip, s, vs[0]), n[h[1]][2])
            out.append((s.gset(xml=tuple(n)), TRUE))
            continue
        elif m in ('operator bool', 'operator!', 'empty'):
            out.append((s, TRUE if m == 'operator bool' else FALSE))
            continue
        elif m == 'operator=':
            out.append((ip.store(s, (o[1], o[2]), vs[0]), o))
            continue
        elif m == 'save_file':
            out.append((s.gset(saved=s.g('saved', ()) + ((tuple(vs), tree(s, h[1])),)), TRUE))
            continue
        raise Undecided('unmodelled xml operation %s' % f['n'])
    return out


def tree(s, root):
    """canonical form: (name, attributes, children as a multiset); text of anonymous nodes belongs to their parent"""
    ns = nodes(s)
    p, nm, at = ns[root]
    at = dict(at)
    ch = []
    for i, (q, n, a) in enumerate(ns):
        if q == root:
            if n == '#node':
                at['#text'] = dict(a).get('#text')
            else:
                ch.append(tree(s, i))
    return (nm, tuple(sorted(at.items(), key=repr)), tuple(sorted(ch, key=repr)))


HOOKS = [(r'^pugi::xml_document::xml_document$', h_doc), (r'^pugi::xml_(node|document|attribute|text)::', h_method)]
