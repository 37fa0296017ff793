"""Abstract model of the interpreter's object layer (Pointer<Expression>, make<T>, Boolean)."""
import re
from .absint import Interp, mkobj, strip_type, TRUE, FALSE, NIL, VOID, I, Sx, of_get
from . import models

NS = 'openscenario_interpreter::'


def made(ip, t, value, site):
    return ('ptr', ('t', ('made', id(site) if isinstance(site, dict) else site, value)), ())


def boolean_value(ip, atom, site):
    return made(ip, NS + 'Boolean', mkobj(NS + 'Boolean', None, {bool_field(ip): atom}), site)


def bool_field(ip):
    r = ip.prog.records.get(NS + 'Boolean')
    if r and r.get('f'):
        return r['f'][0]['q']
    return NS + 'Boolean::data'


def h_make(ip, st, e, o, args, f):
    t = strip_type((f.get('ta') or ['?'])[0])
    out = []
    for s, vs in ip.args(args, {'pt': ['&&'] * len(args)}, st):
        for s2, v in models.construct(ip, s, t, list(vs), e, (f.get('ta') or [])[1:]):
            v = ip.load(s2, v)
            if v[0] != 'obj':
                v = mkobj(t, v, ())
            out.append((s2, made(ip, t, v, (ip.cur, id(e)))))
    return out


def h_as(ip, st, e, o, args, f):
    t = strip_type((f.get('ta') or ['?'])[0])
    p = ip.load(st, o)
    loc = ip.deref(st, p)
    dyn = ip.dyntype(st, p)
    if dyn and not (dyn == t or t in ip.prog.bases(dyn)):
        ip.throw(st, mkobj(NS + 'SemanticError'))
        return []
    if not dyn:
        r, path, v = ip.norm(st, loc[1], loc[2])
    return [(st, loc)]


def h_is(ip, st, e, o, args, f):
    t = strip_type((f.get('ta') or ['?'])[0])
    p = ip.load(st, o)
    dyn = ip.dyntype(st, p)
    also = f['n'].endswith('is_also')
    if dyn:
        return [(st, ('b', dyn == t or (also and t in ip.prog.bases(dyn))))]
    return [(st, ip.resolve(st, ('isa' if also else 'is-exactly', p, t)))]


def h_asBoolean(ip, st, e, o, args, f):
    out = []
    for s, v in ip.rv(args[0], st):
        for s2, b in ip.truth(s, v):
            out.append((s2, boolean_value(ip, ('b', b), ('asBoolean', b))))
    return out


HOOKS = [
    (r'^openscenario_interpreter::make$', h_make),
    (r'^openscenario_interpreter::Pointer<.*>::as$', h_as),
    (r'^openscenario_interpreter::Pointer<.*>::(is|is_also)$', h_is),
    (r'::asBoolean$', h_asBoolean),
]
OPAQUE = [r'scenario_simulator_exception::concatenate', r'openscenario_interpreter::makeTypename', r'openscenario_interpreter::demangle']


def interp(cls, prog, hooks=(), **kw):
    return cls(prog, hooks=list(hooks) + HOOKS, opaque=OPAQUE + list(kw.pop('opaque', ())), **kw)
