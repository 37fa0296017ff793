"""Textual form of OpenSCENARIO enumerations: parsing and printing."""
import json, os
from ..facts import load, sources, REPO, VERIF
from ..absint import Interp, State, mkobj, I, Sx, of_get, strip_type
from .. import osc

NS = 'openscenario_interpreter::'
IS, OS, X = ('o', 'is'), ('o', 'os'), ('o', 'x')


def stream_ok(ip, st, e, o, args, f):
    """a stream a word was extracted from is good exactly if there was a word"""
    i = st.g('reads', 0)
    v = ip.arith(st, '!=' if f['n'].endswith('bool') else '==', ip.resolve(st, ('text', max(0, i - 1))), Sx(''))
    return [(st, v)]


def enums_with_text(prog):
    out = {}
    for op in ('operator>>', 'operator<<'):
        for f in [f for n in (NS + op, NS + 'syntax::' + op) for f in prog.by_name.get(n, [])]:
            ps = f.x['p']
            if len(ps) != 2 or 'stream' not in ps[0]['t']:
                continue
            t = strip_type(ps[1]['t'])
            en = t if t in prog.enums else t + '::value_type' if t + '::value_type' in prog.enums else None
            if en:
                out.setdefault(t, {'enum': en})[op] = f
    return out


def interp(prog):
    return osc.interp(Interp, prog, [(r'basic_ios<.*>::operator(!| bool)$|basic_[io]+stream<.*>::operator(!| bool)$', stream_ok)])


def parse_table(rep, prog, t, d):
    """({text: enumerator}, {text: exception type}) with None for any other text"""
    ip = interp(prog)
    fn = d['operator>>']
    names = {int(v): n for n, v in prog.enums[d['enum']]['e']}
    st = State({IS: ('stream0',), X: mkobj(t, ('x0',), ()) if t in prog.records else ('x0',)})
    rets, throws = ip.run(fn, st, None, [('alias', IS, ()), ('alias', X, ())])
    rep.analysed(ip)
    rep.count('paths', len(rets) + len(throws))
    acc, err = {}, {}
    for s, v in rets:
        txt = ip.resolve(s, ('text', 0))
        x = ip.load(s, ('alias', X, ()))
        if x[0] == 'obj':
            vals = [w for k, w in x[3]]
            x = ip.load(s, vals[0]) if len(vals) == 1 else ('?',)
        acc.setdefault(txt[1] if txt[0] == 's' else None, set()).add(names.get(x[1], '?') if x[0] == 'i' else '(unset)')
    for s, v in throws:
        txt = ip.resolve(s, ('text', 0))
        err.setdefault(txt[1] if txt[0] == 's' else None, set()).add(v[1])
    return acc, err


def print_table(rep, prog, t, d):
    out = {}
    fn = d['operator<<']
    fields = [f['q'] for f in prog.records[t]['f']] if t in prog.records else []
    items = [(n, int(v)) for n, v in prog.enums[d['enum']]['e']]
    bad = max(v for _, v in items) + 17
    for n, v in items + [(None, bad)]:
        ip = interp(prog)
        x = mkobj(t, None, {fields[0]: I(v)}) if fields else I(v)
        st = State({OS: ('stream', ()), X: x})
        rets, throws = ip.run(fn, st, None, [('alias', OS, ()), ('alias', X, ())])
        rep.analysed(ip)
        res = set()
        for s, r in rets:
            w = ip.load(s, ('alias', OS, ()))
            parts = w[1] if w[0] == 'stream' else (('?',),)
            res.add('text:' + ''.join(p[1] if p[0] == 's' else '\0?' for p in parts))
        for s, r in throws:
            res.add('throw:' + r[1])
        out[n] = res
    return out


def tables(rep):
    tus = [t for t in sources('openscenario/openscenario_interpreter/src/syntax/*.cpp', 'openscenario/openscenario_interpreter/src/*.cpp')
           if 'operator>>' in open(os.path.join(REPO, t), errors='replace').read() or 'operator >>' in open(os.path.join(REPO, t), errors='replace').read()]
    prog = load(tus)
    res = {}
    for t, d in sorted(enums_with_text(prog).items()):
        r = {'where': (d.get('operator>>') or d.get('operator<<')).where}
        if 'operator>>' in d:
            r['acc'], r['err'] = parse_table(rep, prog, t, d)
        if 'operator<<' in d:
            r['print'] = print_table(rep, prog, t, d)
            r['pwhere'] = d['operator<<'].where
        r['names'] = [n for n, _ in prog.enums[d['enum']]['e']]
        res[t[len(NS):]] = r
    return prog, res


def run(rep):
    rep.rule = ('abstract interpretation of the text extraction and insertion of every enumeration over an unknown word: the set of (word -> enumerator) outcomes is compared with '
                'the OpenSCENARIO vocabulary in specs/enums.json, and printing every obtainable enumerator must give a word that parses back to it')
    prog, res = tables(rep)
    spec = json.load(open(os.path.join(VERIF, 'specs', 'enums.json')))
    for t, sp in spec.items():
        if t not in res or 'acc' not in res[t]:
            rep.need(False, 'text extraction of %s vanished' % t)
        r = res[t]
        acc, err = r['acc'], r['err']
        n0 = len(rep.violations)
        for txt, e in sp['accept'].items():
            got = acc.get(txt, set())
            if got != {e} or err.get(txt):
                rep.bad('C04:%s:parse:%s' % (t, txt), 'the word "%s" for %s gives %s instead of %s' % (txt, t, sorted(got) or 'an error' if got or err.get(txt) or err.get(None) else 'nothing', e), r['where'])
        for txt, got in acc.items():
            if txt is None:
                rep.bad('C04:%s:unknown' % t, 'some unknown word for %s is accepted as %s' % (t, sorted(got)), r['where'])
            elif txt not in sp['accept']:
                if got != {txt} or txt in sp.get('reject', []):
                    rep.bad('C04:%s:extra:%s' % (t, txt), 'the word "%s" for %s is accepted as %s' % (txt, t, sorted(got)), r['where'])
        for txt, got in err.items():
            want = sp.get('error', 'common::SyntaxError')
            if any(not (g == want or want in prog.bases(g)) for g in got):
                rep.bad('C04:%s:error:%s' % (t, txt), 'rejecting %s for %s raises %s' % ('"%s"' % txt if txt else 'an unknown word', t, sorted(got)), r['where'])
        if None not in err:
            rep.bad('C04:%s:noerror' % t, 'no unknown word is rejected for %s' % t, r['where'])
        if 'print' in sp:
            rep.need('print' in r, 'printing of %s vanished' % t)
            pr = r['print']
            reach = {e for g in acc.values() for e in g}
            for e in sorted(reach):
                out = pr.get(e, set())
                back = {x for o in out if o.startswith('text:') for x in acc.get(o[5:], set())}
                if len(out) != 1 or back != {e}:
                    rep.bad('C04:%s:print:%s' % (t, e), '%s::%s prints as %s, which does not read back' % (t, e, sorted(out)), r['pwhere'])
            for e, txt in sp['print'].items():
                out = pr.get(e, set())
                if e in r['names'] and out != {'text:' + txt} and out and not (txt.startswith('!') and all(o.startswith('throw') for o in out)):
                    rep.bad('C04:%s:printname:%s' % (t, e), '%s::%s prints as %s instead of "%s"' % (t, e, sorted(out), txt), r['pwhere'])
            if sp.get('invalid') == 'throw' and any(o.startswith('text:') for o in pr[None]):
                rep.bad('C04:%s:invalid' % t, 'a value outside %s is printed as %s' % (t, sorted(pr[None])), r['pwhere'])
        if len(rep.violations) == n0:
            rep.ok('%s: %d words accepted, %d rejected by name, all others are errors; printing reads back' % (t, len(acc), len(err) - 1), r['where'])
    for t in res:
        if t not in spec and 'acc' in res[t]:
            r = res[t]
            rep.count('types_without_vocabulary')
            bad = [k for k, g in r['acc'].items() if k is None]
            rep.require(not bad, 'C04:%s:unknown' % t, 'some unknown word for %s is accepted' % t, r['where'])
    rep.count('types', len(spec))
