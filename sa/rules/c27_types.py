"""Which types have a property, and which do not: witnesses that compile, or do not, by the type checker alone."""
import os, re, subprocess
from ..facts import load, AnalysisError, REPO, VERIF
from ..absint import Interp, State, mkobj

OSI = 'openscenario/openscenario_interpreter/include/openscenario_interpreter/'
TT = OSI + 'type_traits/'
WHERE = {
    'HasMemberFunctionEvaluate': TT + 'has_member_function_evaluate.hpp', 'HasMemberFunctionAccomplished': TT + 'has_member_function_accomplished.hpp',
    'HasMemberFunctionDescription': TT + 'has_member_function_description.hpp', 'HasStreamOutputOperator': TT + 'has_stream_output_operator.hpp',
    'Iterable': TT + 'iterable.hpp', 'REQUIRES': TT + 'requires.hpp', 'IfHasMemberFunctionAccomplished': TT + 'if_has_member_function_accomplished.hpp',
    'IfHasMemberFunctionDescription': TT + 'if_has_member_function_description.hpp', 'IfHasStreamOutputOperator': TT + 'if_has_stream_output_operator.hpp',
    'IsLikeVector3': 'common/math/geometry/include/geometry/vector3/is_like_vector3.hpp', 'HasMemberW': 'common/math/geometry/include/geometry/vector3/is_like_vector3.hpp',
    'IsLikeQuaternion': 'common/math/geometry/include/geometry/quaternion/is_like_quaternion.hpp',
    'DetectMember': 'external/concealer/include/concealer/member_detector.hpp', 'DetectStaticMember': 'external/concealer/include/concealer/member_detector.hpp',
    'equal_to': OSI + 'functional/equal_to.hpp',
}
OPTIONAL = OSI + 'utility/assertion_auxiliary.hpp'
PLACES = {'evaluate': TT + 'if_has_member_function_evaluate.hpp', 'accomplished': WHERE['IfHasMemberFunctionAccomplished'], 'description': WHERE['IfHasMemberFunctionDescription'],
          'print': WHERE['IfHasStreamOutputOperator'], 'make': TT + 'must_be_default_constructible.hpp', 'error': TT + 'if_not_nothrow_default_constructible.hpp'}


def run(rep):
    rep.rule = ('type-level witnesses: each assertion about a concept, detector or chosen way is evaluated by the type checker on the current headers for types that have the property and types that just miss it, '
                'and each declaration that has to be rejected is checked to be')
    texts = witnesses()
    prog = load([], probes=['traits.cpp'])
    rep.functions.update(sorted({w for w in WHERE.values()}))
    wrong, other = {}, []
    for e in prog.errors:
        hit = [t for t in texts if e.rstrip().endswith(': ' + t)]
        if hit:
            wrong[hit[0]] = e
        elif 'static assertion failed' in e and 'assertion_auxiliary' in e:
            wrong['an element that is optional and default constructible is accepted'] = e
        else:
            other.append(e)
    for t in sorted(texts):
        name = re.match(r'[A-Za-z]\w*', t).group(0)
        key = 'DetectStaticMember' if name.startswith('DetectStaticMember') else 'DetectMember' if name.startswith('DetectMember') else name
        rep.require(t not in wrong, 'C27:' + key, 'it is not so that: %s' % t, WHERE.get(key, 'probes/traits.cpp'))
    inside = [e for e in other if '/probes/traits.cpp' not in e.split(' ')[0]]
    if other and not inside and not wrong:
        raise AnalysisError('the witness cannot be formed: ' + other[0][:400])
    for e in inside:
        rep.require(False, 'C27:' + os.path.basename(e.split(':')[0]), 'what a witness stands for does not compile: %s' % e[:400], re.sub('^%s/' % re.escape(REPO), '', e.split(':')[0]))
    chosen(rep, prog)
    prog = load([], probes=['traits_rejected.cpp'])
    src = open(os.path.join(VERIF, 'probes', 'traits_rejected.cpp')).read().split('\n')
    lines = {i + 1: x.split('// REJECTED ')[1] for i, x in enumerate(src) if '// REJECTED ' in x}
    got = {}
    for e in prog.errors:
        m = re.search(r'traits_rejected\.cpp:(\d+)', e)
        got.setdefault(int(m.group(1)) if m else 0, e)
    for i, what in lines.items():
        rep.require(i in got, 'C27:optional', 'it is accepted: %s' % what, OPTIONAL)
    for i, e in got.items():
        rep.require(i in lines, 'C27:optional', 'what is right is rejected: %s' % e[:400], OPTIONAL)
    rep.count('witnesses', len(texts) + len(lines))


X, E, OS = ('x',), ('e',), ('os',)


def chosen(rep, prog):
    """what is done by the way that was chosen for a type"""
    def go(name):
        f = prog.one('probe::' + name)
        st, vals = State(), []
        for i, a in enumerate(f.x['p']):
            root, obj = (OS, ('stream', ())) if 'ostream' in a['t'] else (E, mkobj('common::SyntaxError', ('t', 'given'), ())) if 'SyntaxError' in a['t'] else (X, mkobj('X', ('t', 'it'), ())) if 'probe::' in a['t'] else (None, None)
            if root:
                st = st.put(root, obj)
            vals.append(('alias', root, ()) if root else ('sym', 'a%d' % i))
        ip = Interp(prog)
        rets, throws = ip.run(f, st, None, vals)
        rep.analysed(ip)
        rep.count('paths', len(rets) + len(throws))
        return ip, rets, throws

    def value(name, want, text, key):
        ip, rets, throws = go(name)
        rep.require(bool(rets) and not throws and all(want(ip, s, ip.load(s, v)) for s, v in rets), 'C27:' + key, '%s is not so: %s' % (text, [ip.load(s, v) for s, v in rets] + ['an error'] * len(throws)), PLACES[key])

    def call(of):
        return lambda ip, s, v: v[0] == 'call' and v[1] == of and "('t', 'it')" in repr(v[2:])

    def made(of):
        return lambda ip, s, v: v[0] == 'obj' and v[1] == of

    value('evaluate_able', call('probe::Able::evaluate'), 'what can be evaluated gives the value of its evaluation', 'evaluate')
    value('evaluate_unable', lambda ip, s, v: v == ('sym', 'a1'), 'what cannot be evaluated gives the other value', 'evaluate')
    value('accomplished_able', call('probe::Able::accomplished'), 'what can be accomplished says so itself', 'accomplished')
    value('accomplished_unable', lambda ip, s, v: v in (('b', False), ('i', 0)), 'what cannot be accomplished is not', 'accomplished')
    value('description_able', call('probe::Able::description'), 'what describes itself is described so', 'description')
    value('description_unable', lambda ip, s, v: v == ('s', ''), 'what does not describe itself has no description', 'description')
    ip, rets, throws = go('print_able')
    rep.require(bool(rets) and not throws and all('operator<<' in repr(ip.load(s, v)) or 'operator<<' in repr(v) for s, v in rets), 'C27:print', 'what can be printed is not printed by its own operator', PLACES['print'])
    ip, rets, throws = go('print_unable')
    for s, v in rets:
        parts = ip.loadraw(s, (OS, ()))
        text = repr(parts)
        rep.require(parts[0] == 'stream' and v[:2] == ('alias', OS) and "'<'" in text and 'probe::Unable' in text and "'/>'" in text,
                    'C27:print', 'what cannot be printed is not printed as its type in brackets, but as %s' % text, PLACES['print'])
    rep.require(bool(rets) and not throws, 'C27:print', 'what cannot be printed is an error', PLACES['print'])
    for name, makes, key in (('make', {'simple': 'probe::Simple', 'fails': 'probe::Fails'}, 'make'), ('error', {'simple': 'probe::Simple'}, 'error')):
        for what in 'simple', 'fails', 'needs':
            if what in makes:
                value('%s_%s' % (name, what), made(makes[what]), 'what has a default is made', key)
                continue
            ip, rets, throws = go('%s_%s' % (name, what))
            rep.require(not rets and throws and all(x[0] == 'obj' and x[1] == 'common::SyntaxError' and (name == 'error' or x[2] == ('t', 'given')) for s, x in throws), 'C27:' + key,
                        'what has no default is not an error of syntax%s' % ('' if name == 'error' else ', the one given'), PLACES[key])


def witnesses():
    """the texts of all assertions, with the macros of the probe expanded"""
    src = open(os.path.join(VERIF, 'probes', 'traits.cpp')).read()
    src = re.sub(r'^#include.*$', '', src, flags=re.M)
    out = subprocess.run(['clang++', '-E', '-P', '-x', 'c++', '-'], input=src, capture_output=True, text=True, check=True).stdout
    return {re.sub(r'"\s*"', '', t).strip().strip('"') for t in re.findall(r'static_assert\(.*?((?:"[^"]*"\s*)+)\)', out)}
