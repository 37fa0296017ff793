"""What generated protobuf classes do, for terms of the abstract domain; the fields are read from the .proto files."""
import glob
import os
import re
from .absint import mkobj, of_get, I, Sx, VOID, FALSE
from .facts import REPO
from . import models

DIR = 'simulation/simulation_interface/proto'


def schema():
    """{C++ class: {field: (type, repeated, oneof or None, number)}}, {C++ enum: {name: value}}"""
    msgs, enums = {}, {}
    for p in sorted(glob.glob(os.path.join(REPO, DIR, '*.proto'))):
        text = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', open(p).read(), flags=re.S)
        pkg = re.search(r'package\s+([\w.]+)\s*;', text).group(1).replace('.', '::')
        tokens = re.findall(r'[\w.]+|[{};=<>,]|"[^"]*"', text)
        i, stack = 0, []
        while i < len(tokens):
            t = tokens[i]
            if t in ('message', 'enum', 'oneof') and i + 2 < len(tokens) and tokens[i + 2] == '{':
                stack.append((t, tokens[i + 1]))
                name = pkg + '::' + '_'.join(n for k, n in stack if k != 'oneof')
                if t == 'message':
                    msgs[name] = {}
                elif t == 'enum':
                    enums[name] = {}
                i += 3
            elif t == '}':
                stack.pop()
                i += 1
            elif stack and '=' in tokens[i:i + 5] and t not in ('option', 'reserved'):
                j = tokens.index('=', i)
                kind = stack[-1][0]
                name = pkg + '::' + '_'.join(n for k, n in stack if k != 'oneof')
                if kind == 'enum':
                    enums[name][t] = int(tokens[j + 1], 0)
                else:
                    words = tokens[i:j]
                    rep = words[0] == 'repeated'
                    msgs[name][words[-1]] = (words[-2], rep, stack[-1][1] if kind == 'oneof' else None, int(tokens[j + 1]))
                i = tokens.index(';', j) + 1
            else:
                i += 1
    # types of fields by their C++ names
    known = set(msgs) | set(enums)
    for m, fs in msgs.items():
        pkg = m.rsplit('::', 1)[0]
        for f, (t, rep, one, n) in list(fs.items()):
            cands = [m + '_' + t.replace('.', '_'), pkg + '::' + t.replace('.', '_'), t.replace('.', '::', 1).replace('.', '_')]
            fs[f] = (next((c for c in cands if c in known), t), rep, one, n)
    return msgs, enums


SCALAR = {'double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'string', 'bytes'}


def merged(a, b):
    """the message a with what is in b put into it, where that does not depend on whether a number is its default"""
    if a[0] != 'obj' or b[0] != 'obj' or a[1] != b[1]:
        return None
    fs = dict(a[3])
    for k, v in b[3]:
        w = fs.get(k)
        if w is None or w == v and v[0] != 'list':
            fs[k] = v
        elif w[0] == 'list' and v[0] == 'list':
            fs[k] = ('list', w[1] + v[1])
        elif w[0] == 'obj' and v[0] == 'obj':
            fs[k] = merged(w, v)
            if fs[k] is None:
                return None
        else:
            return None
    return mkobj(a[1], a[2], fs)


class Wire:
    def __init__(self):
        self.msgs, self.enums = schema()

    def default(self, t, rep=False):
        if rep:
            return ('list', ())
        if t in self.msgs:
            return mkobj(t, None, {})
        if t in ('double', 'float'):
            return ('f', 0.0)
        if t == 'bool':
            return FALSE
        if t in ('string', 'bytes'):
            return Sx('')
        return I(0)

    def get(self, v, f):
        """field f of message v"""
        x = of_get(v, v[1] + '::' + f)
        t, rep, one, n = self.msgs[v[1]][f]
        return self.default(t, rep) if x is None else x

    def clear_rest(self, ip, s, root, path, cls, f):
        """setting one of several alternatives unsets the others"""
        one = self.msgs[cls][f][2]
        if one:
            v = ip.loadraw(s, (root, path))
            if v[0] == 'obj':
                rest = {k: x for k, x in v[3] if not (k.startswith(cls + '::') and self.msgs[cls].get(k.split('::')[-1], (0, 0, None, 0))[2] == one and k != cls + '::' + f)}
                if len(rest) != len(v[3]):
                    s = ip.store(s, (root, path), ('obj', v[1], v[2], tuple(sorted(rest.items()))))
        return s

    def accessor(self, ip, st, e, o, args, f):
        m = re.match(r'^(.*)::(operator=|\w+)$', f['n'])
        cls, name = m.groups()
        fs = self.msgs.get(cls)
        if fs is None or o is None:
            return None
        if name.endswith('_case') and any(x[2] == name[:-5] for x in fs.values()):
            v = ip.load(st, o) if o[0] != 'ptr' else ip.loadraw(st, o[1:])
            for k, x in fs.items():
                if x[2] == name[:-5] and of_get(v, cls + '::' + k) is not None:
                    return [(st, I(x[3]))]
            return [(st, I(0))] if v[0] == 'obj' else None
        if name in ('operator=', 'CopyFrom') and len(args) == 1:
            out = []
            for s, vs in ip.args(args, f, st):
                if o[0] == 'obj':
                    return None
                w = ip.load(s, vs[0])
                if w[0] != 'obj' or w[1] != cls:
                    return None
                out.append((ip.store(s, o[1:], w), ('alias',) + o[1:] if name == 'operator=' else VOID))
            return out
        if name == 'MergeFrom' and len(args) == 1 and o[0] in ('alias', 'ptr'):
            out = []
            for s, vs in ip.args(args, f, st):
                v = merged(ip.loadraw(s, o[1:]), ip.load(s, vs[0]))
                if v is None:
                    return None
                out.append((ip.store(s, o[1:], v), VOID))
            return out
        if name == 'Clear' and not args and o[0] in ('alias', 'ptr'):
            return [(ip.store(st, o[1:], mkobj(cls, None, {})), VOID)]
        for verb in ('set_', 'mutable_', 'add_', 'has_', 'clear_', ''):
            if name.startswith(verb) and name[len(verb):] in fs:
                k = name[len(verb):]
                break
        else:
            if name.endswith('_size') and name[:-5] in fs:
                v = self.get(ip.load(st, o) if o[0] != 'ptr' else ip.loadraw(st, o[1:]), name[:-5])
                return [(st, I(len(v[1])))] if v[0] == 'list' else None
            return None
        t, rep, one, n = fs[k]
        q = cls + '::' + k
        if o[0] not in ('alias', 'ptr'):
            v = ip.load(st, o)
            return [(st, self.get(v, k))] if verb == '' and v[0] == 'obj' and not args else None
        root, path = o[1], o[2]
        here = (root, path + (q,))
        v = ip.loadraw(st, (root, path))
        while v[0] in ('alias', 'ptr'):
            root, path = v[1], v[2]
            here = (root, path + (q,))
            v = ip.loadraw(st, (root, path))
        if v[0] != 'obj':
            return None
        has = of_get(v, q)
        out = []
        for s, vs in ip.args(args, f, st):
            if verb == 'set_':
                if rep:
                    return None
                out.append((ip.store(self.clear_rest(ip, s, root, path, cls, k), here, ip.load(s, vs[0])), VOID))
            elif verb == 'mutable_':
                if vs and rep:
                    out.append((s, ('ptr', here[0], here[1] + (('at', ip.load(s, vs[0])),))))
                else:
                    s = self.clear_rest(ip, s, root, path, cls, k)
                    if has is None:
                        s = ip.store(s, here, self.default(t, rep))
                    out.append((s, ('ptr',) + here))
            elif verb == 'add_':
                xs = has if has is not None else ('list', ())
                if xs[0] != 'list':
                    return None
                new = ip.load(s, vs[0]) if vs else self.default(t)
                s = ip.store(s, here, ('list', xs[1] + (new,)))
                out.append((s, VOID if vs else ('ptr', here[0], here[1] + (('ix', len(xs[1])),))))
            elif verb == 'has_':
                out.append((s, ('b', has is not None)))
            elif verb == 'clear_':
                rest = {x: y for x, y in v[3] if x != q}
                out.append((ip.store(s, (root, path), ('obj', v[1], v[2], tuple(sorted(rest.items())))), VOID))
            elif vs:
                xs = self.get(v, k)
                if xs[0] != 'list':
                    return None
                i = ip.load(s, vs[0])
                if i[0] != 'i' or not 0 <= i[1] < len(xs[1]):
                    return None
                out.append((s, ('alias', here[0], here[1] + (('ix', i[1]),))))
            elif rep:
                out.append((s if has is not None else ip.store(s, here, self.default(t, rep)), ('alias',) + here))
            else:
                out.append((s, ('alias',) + here if has is not None else self.default(t, rep)))
        return out

    def repeated(self, ip, st, e, o, args, f):
        if o is None:
            return None
        name = f['n'].rsplit('::', 1)[1]
        at = ('alias',) + tuple(ip.load(st, o)[1:]) if o[0] == 'ptr' and len(o) == 2 else ('alias',) + tuple(o[1:3]) if o[0] in ('alias', 'ptr') else o
        if name == 'Add' and at[0] == 'alias':
            xs = ip.loadraw(st, at[1:])
            if xs[0] != 'list':
                return None
            m = re.search(r'<([\w:]+)>::Add$', f['n'])
            out = []
            for s, vs in ip.args(args, f, st):
                new = ip.load(s, vs[0]) if vs else self.default(m.group(1)) if m else None
                if new is None:
                    return None
                s = ip.store(s, at[1:], ('list', xs[1] + (new,)))
                out.append((s, VOID if vs else ('ptr', at[1], at[2] + (('ix', len(xs[1])),))))
            return out
        h = models.SEQ_M.get({'Get': 'at', 'Mutable': 'at', 'Reserve': 'reserve', 'Clear': 'clear'}.get(name, name))
        r = h and h(ip, e, f, st, at)
        if r and name == 'Mutable':
            r = [(s, ('ptr',) + tuple(v[1:]) if v[0] == 'alias' else v) for s, v in r]
        return r or None

    def construct(self, ip, st, e, o, args, f):
        cls = f['n'].rsplit('::', 1)[0]
        if cls not in self.msgs:
            return None
        if not args:
            return [(st, mkobj(cls, None, {}))]
        if len(args) == 1:
            out = []
            for s, vs in ip.args(args, f, st):
                v = ip.load(s, vs[0])
                if v[0] != 'obj' or v[1] != cls:
                    return None
                out.append((s, v))
            return out
        return None

    def hooks(self):
        pk = '|'.join(sorted({m.split('::')[0] for m in self.msgs}))
        def same(op):
            return lambda ip, st, e, o, args, f: models.cmp_f(op)(ip, e, f, st)
        def step(op):
            return lambda ip, st, e, o, args, f: models.ITER_M[op](ip, dict(e, a=args), f, st, o)
        return [(r'^google::protobuf::internal::Repeated\w*Iterator<.*>::operator\*$', step('operator*')), (r'^google::protobuf::internal::Repeated\w*Iterator<.*>::operator->$', step('operator->')),
                (r'^google::protobuf::internal::Repeated\w*Iterator<.*>::operator\+\+$', step('operator++')),
                (r'^google::protobuf::internal::Repeated\w*Iterator<.*>::operator==$', step('operator==')), (r'^google::protobuf::internal::Repeated\w*Iterator<.*>::operator!=$', step('operator!=')),
                (r'^google::protobuf::internal::operator==$', same('==')), (r'^google::protobuf::internal::operator!=$', same('!=')),
                (r'^google::protobuf::Repeated\w*Field<.*>::\w+(\[\])?$', self.repeated), (r'^(%s)::(\w+)::\2$' % pk, self.construct), (r'^(%s)::\w+::(operator=|\w+)$' % pk, self.accessor)]
