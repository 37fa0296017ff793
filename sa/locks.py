"""Lock sets: which mutexes are held at every access of a field, on every path and through calls.

A flow-sensitive walk over the syntax of each entry point of a class (public members, thread functions, callbacks handed
to other code).  Calls to functions of the repository, and to closures passed along, are followed with the locks held at
the call; branches meet by intersection, so a lock counts as held only if it is held on every path.
"""
import re

GUARD = re.compile(r'^(?:const )?std::(scoped_lock|lock_guard|unique_lock|shared_lock)\b')
MUTEX = re.compile(r'^(?:const )?std::(recursive_|timed_|shared_|recursive_timed_|shared_timed_)?mutex\b')
ATOMIC = re.compile(r'^(?:const )?std::(atomic\b|atomic_|__atomic)')
IMMEDIATE = re.compile(r'^std::(?:__\w+::)?(all_of|any_of|none_of|for_each|for_each_n|find_if|find_if_not|count_if|transform|accumulate|reduce|sort|stable_sort|remove_if|copy_if|partition|stable_partition|generate|min_element|max_element|replace_if|invoke|apply|visit|call_once|lower_bound|upper_bound|unique|equal|search|is_sorted|nth_element|partial_sort|inner_product|transform_reduce|erase_if|exchange)$')
READS = {'find', 'begin', 'end', 'cbegin', 'cend', 'at', 'count', 'size', 'empty', 'front', 'back', 'load', 'get', 'operator->', 'operator*', 'operator bool', 'c_str', 'data', 'contains', 'joinable', 'get_id', 'rbegin', 'rend', 'lower_bound', 'upper_bound'}


def tail(q):
    return re.sub(r'<[^<>]*>$', '', q).split('::')[-1]


def plain(q):
    """a qualified name without template arguments"""
    while True:
        r = re.sub(r'<[^<>]*>', '', q)
        if r == q:
            return q
        q = r


class S:
    """locks held (guard id -> [mutexes, active]), flags known to be set, derived references"""
    def __init__(self, guards=None, known=(), joined=()):
        self.guards = dict(guards or {})
        self.known = frozenset(known)
        self.joined = frozenset(joined)

    def copy(self):
        return S(self.guards, self.known, self.joined)

    def held(self):
        return frozenset(m for ms, act in self.guards.values() if act for m in ms)

    def meet(self, o):
        if o is None:
            return self
        g = {}
        for k in set(self.guards) & set(o.guards):
            (a, x), (b, y) = self.guards[k], o.guards[k]
            g[k] = (a & b, x and y)
        return S(g, self.known & o.known, self.joined & o.joined)


class Walker:
    def __init__(self, prog):
        self.prog = prog
        self.accesses = []     # dict(field, w, held, root, where, ctor, known, joined, via)
        self.acquired = []     # (mutex, held, where, root)
        self.joins = []        # (field, held, where, root)
        self.unknown_calls = []    # (what, held, where)
        self.escapes = []      # (lambda keys, thread?, where)
        self.published = []    # (field, flag)
        self.stack = []
        self.memo = set()
        self.fns = set()
        self.pending = []
        self.alias = {}
        self.env = {}
        self.types = {}        # field -> type, as seen at its uses
        self.env_of = {}       # closure -> what its captured variables refer to

    # -------------------------------------------------------------- entry points
    def root(self, key, name, ctor=False):
        self.rootname, self.ctor, self.was_ctor = name, ctor, ctor
        self.memo = set()
        self.env = {}
        self.call(key, S())

    def call(self, key, st, closures=(), refs=()):
        fn = self.prog.func(key)
        if fn is None or key in self.stack or len(self.stack) > 24:
            return
        m = (key, st.held(), st.known, st.joined, tuple(sorted(closures)), tuple(sorted((d, tuple(sorted(x))) for d, x in refs)))
        if m in self.memo:
            return
        self.memo.add(m)
        self.stack.append(key)
        self.fns.add(fn.where)
        keep = self.where
        saved_guards = dict(st.guards)
        x = fn.x
        saved_env = self.env
        self.env = dict(self.env_of.get(key, {})) if x.get('lam') else {}
        for d, fs in closures:
            self.env[d] = fs
        for d, src in refs:
            self.env[d] = ('derived', src)
        for i in x.get('inits') or []:
            self.where = '%s:%s (%s)' % (self.file(fn), i.get('l', fn.line), plain(fn.name))
            if i.get('e'):
                self.expr(i['e'], st)
                src = self.sources(i['e'])
                if i.get('f') and src and re.search(r'reference_wrapper|&$|\*$', self.field_type(i['f'])):
                    self.alias.setdefault(plain(i['f']), set()).update(src)
            if i.get('f'):
                self.access(plain(i['f']), True, st, via='initialisation')
        if x.get('body'):
            self.stmt(x['body'], st.copy() if x.get('lam') else st, fn)
        self.where = keep
        self.env = saved_env
        st.guards = {k: v for k, v in st.guards.items() if k in saved_guards}
        self.stack.pop()

    where = ''

    def field_type(self, q):
        c = q.rsplit('::', 1)[0]
        r = self.prog.records.get(c)
        for f in (r or {}).get('f', []):
            if f['q'] == q:
                return f['t']
        return ''

    def file(self, fn):
        return fn.where.split(' ')[0].rsplit(':', 1)[0]

    # -------------------------------------------------------------- statements; returns False if control never continues
    def stmt(self, n, st, fn):
        if n is None:
            return True
        k = n['k']
        if 'l' in n:
            self.where = '%s:%s (%s)' % (self.file(fn), n['l'], plain(fn.name))
        if k == 'block':
            outer = set(st.guards)
            alive = True
            mark = len(self.pending)
            locals_ = []
            for x in n['b']:
                if x['k'] == 'decl':
                    locals_ += [(v, st) for v in x['v']]
                if not self.stmt(x, st, fn):
                    alive = False
                    break
            for v, _ in reversed(locals_):
                if ('g', v.get('d')) in st.guards and ('g', v.get('d')) not in outer:
                    del st.guards[('g', v['d'])]
                elif not v.get('r') and not v.get('static'):
                    self.destroy(v, st)
            del self.pending[mark:]
            for g in [g for g in st.guards if g not in outer]:
                del st.guards[g]
            return alive
        if k == 'decl':
            for v in n['v']:
                self.decl(v, st)
            return True
        if k == 'expr':
            self.expr(n['e'], st)
            e = self.strip(n['e'])
            return e['k'] not in ('throw',)
        if k == 'ret':
            if n.get('e'):
                self.expr(n['e'], st)
            return False
        if k in ('break', 'continue', 'goto', 'brk', 'cont'):
            return False
        if k == 'if':
            outer = set(st.guards)
            if n.get('init'):
                self.stmt(n['init'], st, fn)
            if n.get('cvar'):
                self.decl(n['cvar'], st)
            if n.get('c'):
                self.expr(n['c'], st)
            pos, neg = self.flags(n.get('c'))
            a, b = st.copy(), st.copy()
            a.known |= pos
            b.known |= neg
            ra = self.stmt(n['a'], a, fn)
            rb = self.stmt(n.get('b'), b, fn)
            r = a.meet(b) if ra and rb else a if ra else b
            st.guards, st.known, st.joined = r.guards, r.known, r.joined
            for g in [g for g in st.guards if g not in outer]:
                del st.guards[g]
            return ra or rb
        if k in ('while', 'for', 'do', 'rfor'):
            outer = set(st.guards)
            if n.get('init'):
                self.stmt(n['init'], st, fn)
            if k == 'rfor':
                self.expr(n['r'], st)
                src = self.sources(n['r'])
                v = n['v']
                if src and (v.get('r') or '&' in v['t']):
                    self.env[v['d']] = ('derived', src)
                    for b in v.get('b') or []:
                        self.env[b['d']] = ('derived', src)
            if n.get('cvar'):
                self.decl(n['cvar'], st)
            if k != 'do' and n.get('c'):
                self.expr(n['c'], st)
            for _ in range(2):
                s2 = st.copy()
                self.stmt(n['b'], s2, fn)
                if n.get('inc'):
                    self.expr(n['inc'], s2)
                if n.get('c'):
                    self.expr(n['c'], s2)
                r = st.meet(s2)
                st.guards, st.joined = r.guards, r.joined
            for g in [g for g in st.guards if g not in outer]:
                del st.guards[g]
            return True
        if k == 'switch':
            outer = set(st.guards)
            if n.get('init'):
                self.stmt(n['init'], st, fn)
            if n.get('cvar'):
                self.decl(n['cvar'], st)
            self.expr(n['c'], st)
            s2 = st.copy()
            body = n['b']['b'] if n['b'] and n['b']['k'] == 'block' else [n['b']]
            for x in body:
                if not self.stmt(x, s2, fn):
                    s2 = st.copy()
            return True
        if k in ('case', 'default', 'label'):
            return self.stmt(n.get('s'), st, fn)
        if k == 'try':
            before = st.copy()
            started = self.ctor
            ok = self.stmt(n['b'], st, fn)
            if fn.raw.get('ctor') and n is fn.x.get('body') and not n['b'].get('b'):
                # a constructor whose initialisers failed: the object's last member, the thread, was never started
                self.ctor = self.was_ctor
            for h in n['h']:
                s2 = before.copy()
                r = self.stmt(h['b'], s2, fn)
                if r:
                    m = st.meet(s2) if ok else s2
                    st.guards, st.known, st.joined = m.guards, m.known, m.joined
                    ok = True
            return ok
        for v in n.values():
            self.any(v, st, fn)
        return True

    def destroy(self, v, st):
        """a local variable of a class of the repository goes out of scope"""
        if self.dtors is None:
            self.dtors = {}
            for k, f in self.prog.funcs.items():
                if '::~' in f.name:
                    self.dtors[f.name.rsplit('::~', 1)[0]] = k
        k = self.dtors.get(re.sub(r'^const ', '', v.get('t', '')))
        if k:
            self.call(k, st)

    dtors = None

    def any(self, v, st, fn):
        if isinstance(v, dict) and 'k' in v:
            if v['k'] in ('block', 'decl', 'expr', 'ret', 'if', 'while', 'for', 'rfor', 'do', 'try', 'switch'):
                self.stmt(v, st, fn)
            else:
                self.expr(v, st)
        elif isinstance(v, list):
            for x in v:
                self.any(x, st, fn)

    def decl(self, v, st):
        t = v.get('t', '')
        i = v.get('i')
        if i is not None:
            e = self.strip(i)
            if GUARD.match(t):
                while e['k'] == 'ctor' and e.get('a') and not self.mutexes(e, direct=True) and len(e['a']) == 1:
                    e = self.strip(e['a'][0])
                if e['k'] in ('ctor', 'call'):
                    for a in e.get('a', []):
                        if not MUTEX.match(self.strip(a).get('t', '')):
                            self.expr(a, st)
                ms = self.mutexes(i)
                names = ' '.join(str(self.strip(a).get('n', '')) + str(self.strip(a).get('t', '')) for a in e.get('a', []))
                deferred = 'defer_lock' in names or 'try_to_lock' in names
                if not deferred and 'adopt_lock' not in names:
                    for m in ms:
                        self.acquired.append((m, st.held(), self.where, self.rootname))
                st.guards[('g', v['d'])] = (frozenset(ms), bool(ms) and not deferred)
                return
            if e['k'] == 'lambda':
                self.env[v['d']] = tuple(e['fs'])
                self.created(e)
                for c in e.get('caps', []):
                    if 'init' in c:
                        self.expr(c['init'], st)
                return
            self.expr(i, st)
            src = self.sources(i)
            if src and (v.get('r') or '&' in t or t.rstrip().endswith('*') or 'iterator' in t):
                self.env[v['d']] = ('derived', src)
                for b in v.get('b') or []:
                    self.env[b['d']] = ('derived', src)
            for b in v.get('b') or []:
                if src and b.get('e') is None:
                    self.env.setdefault(b['d'], ('derived', src))

    # -------------------------------------------------------------- expressions
    def strip(self, e):
        while e.get('k') in ('cast', 'icast', 'bind', 'paren', 'implicit') and isinstance(e.get('e'), dict):
            e = e['e']
        return e

    def name(self, e):
        """the field or static variable an expression denotes"""
        e = self.strip(e)
        if e['k'] in ('mem', 'var'):
            n = e.get('f') if e['k'] == 'mem' else e.get('g')
            if n:
                self.types.setdefault(plain(n), e.get('t', ''))
                return plain(n)
        if e['k'] == 'un' and e.get('op') == '*' and self.strip(e['e'])['k'] == 'this':
            return plain(re.sub(r'^const ', '', e['t'])) + '::*this'
        if e['k'] == 'un' and e.get('op') in ('*', '&'):
            return self.name(e['e'])
        return None

    def mutexes(self, e, direct=False):
        out = []

        def go(x):
            if isinstance(x, dict):
                if x.get('k') in ('mem', 'var') and MUTEX.match(x.get('t', '')):
                    n = self.name(x)
                    out.append(n or 'local')
                elif x.get('k') != 'lambda':
                    for v in x.values():
                        go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        go(e.get('a', []) if direct else e)
        return out

    def sources(self, e):
        """fields a reference, pointer or iterator expression may point into"""
        e = self.strip(e)
        k = e['k']
        if k == 'mem':
            n = plain(e['f'])
            if n in self.alias:
                return {n} | self.alias[n]
            return self.sources(e['b']) | {n} if isinstance(e.get('b'), dict) and e['b']['k'] not in ('this',) else {n}
        if k == 'var':
            if e.get('g'):
                return {plain(e['g'])}
            d = self.env.get(e['d'])
            return set(d[1]) if d and d[0] == 'derived' else set()
        if k == 'call':
            r = set()
            if e.get('o'):
                r |= self.sources(e['o'])
            if not e.get('o') or tail(e.get('f', {}).get('n', '')) in ('get', 'next', 'prev'):
                for a in e.get('a', []):
                    r |= self.sources(a)
            return r
        if k in ('un', 'idx', 'cond', 'ctor', 'bin'):
            r = set()
            for v in e.values():
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, dict) and 'k' in x:
                        r |= self.sources(x)
            return r
        return set()

    def created(self, lam):
        for key in lam['fs']:
            self.env_of[key] = dict(self.env)

    def escaped(self, keys, thread):
        self.escapes.append((keys, thread, self.where, self.rootname))
        if thread:
            self.ctor = False

    def access(self, n, w, st, via=None):
        a = {'field': n, 'w': w, 'held': st.held(), 'root': self.rootname, 'ctor': self.ctor, 'where': self.where, 'known': st.known, 'joined': st.joined, 'via': via, 'pub': set()}
        self.accesses.append(a)
        if w:
            self.pending.append(a)

    def flags(self, c):
        """(atomics known true if the condition holds, known true if it fails)"""
        if not isinstance(c, dict):
            return frozenset(), frozenset()
        c = self.strip(c)
        if c['k'] == 'un' and c.get('op') in ('!', 'not'):
            p, n = self.flags(c['e'])
            return n, p
        if c['k'] == 'bin' and c.get('op') in ('&&', '||'):
            p1, n1 = self.flags(c['a'])
            p2, n2 = self.flags(c['b'])
            return (p1 | p2, n1 & n2) if c['op'] == '&&' else (p1 & p2, n1 | n2)
        if c['k'] == 'call' and c.get('o') and tail(c.get('f', {}).get('n', '')) in ('load', 'operator bool', 'test', 'operator _Tp') or (c['k'] == 'call' and c.get('o') and 'operator ' in c.get('f', {}).get('n', '')):
            n = self.name(c['o'])
            if n and ATOMIC.match(self.strip(c['o']).get('t', '')):
                return frozenset([n]), frozenset()
        return frozenset(), frozenset()

    def expr(self, e, st):
        if not isinstance(e, dict):
            return
        e0, e = e, self.strip(e)
        k = e.get('k')
        if 'l' in e and self.stack:
            fn = self.prog.func(self.stack[-1])
            self.where = '%s:%s (%s)' % (self.file(fn), e['l'], plain(fn.name))
        if k in ('mem', 'var'):
            if k == 'mem' and isinstance(e.get('b'), dict) and e['b']['k'] != 'this':
                self.expr(e['b'], st)
            n = self.name(e)
            if n:
                if not MUTEX.match(e.get('t', '')):
                    self.access(n, False, st)
            elif k == 'var':
                d = self.env.get(e['d'])
                if d and d[0] == 'derived':
                    for x in d[1]:
                        self.access(x, False, st, via=e.get('n'))
            return
        if k == 'lambda':
            self.created(e)
            for c in e.get('caps', []):
                if 'init' in c:
                    self.expr(c['init'], st)
            self.escaped(tuple(e['fs']), False)
            return
        if k == 'fn':
            return
        if k in ('call', 'ctor'):
            return self.e_call(e, st)
        if k == 'bin' and re.match(r'^([-+*/%&|^]|<<|>>)?=$', e.get('op', '')):
            self.expr(e['b'], st)
            self.write(e['a'], st)
            return
        if k == 'un' and e.get('op') in ('++', '--', 'p++', 'p--', '++p', '--p', '&'):
            self.write(e['e'], st)
            return
        if k in ('bin',) and e.get('op') in ('&&', '||'):
            self.expr(e['a'], st)
            p, n = self.flags(e['a'])
            s2 = st.copy()
            s2.known |= p if e['op'] == '&&' else n
            self.expr(e['b'], s2)
            return
        if k == 'un' and e.get('op') == '*' and self.strip(e['e'])['k'] == 'this':
            self.access(self.name(e), False, st)
            return
        for v in e.values():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict) and 'k' in x:
                    self.expr(x, st)

    def write(self, l, st, via=None):
        l = self.strip(l)
        n = self.name(l)
        if n and l['k'] == 'mem' and self.field_type(l['f']).endswith('&'):
            self.expr(l, st)       # the object referred to is written, not the reference
            return
        if n:
            if l['k'] == 'mem' and isinstance(l.get('b'), dict) and l['b']['k'] != 'this':
                # a field of an object: the object's own owner is written too
                for x in self.sources(l['b']):
                    self.access(x, True, st)
                if not self.sources(l['b']):
                    self.expr(l['b'], st)
            self.access(n, True, st)
            return
        src = self.sources(l)
        for x in src:
            self.access(x, True, st, via='reference')
        if not src:
            self.expr(l, st)
        if l['k'] == 'call':
            self.e_call(l, st)
        if l['k'] == 'un' and l.get('op') == '*':
            self.expr(l['e'], st)

    def e_call(self, e, st):
        f = e.get('f') or {}
        n = f.get('n', '')
        o = e.get('o')
        m = tail(n)
        ot = self.strip(o).get('t', '') if o else ''
        # guards and mutexes used directly
        if o is not None and GUARD.match(ot):
            v = self.strip(o)
            g = ('g', v.get('d'))
            if g in st.guards:
                ms, act = st.guards[g]
                if m in ('unlock', 'release'):
                    st.guards[g] = (ms, False)
                elif m == 'lock':
                    for x in ms:
                        self.acquired.append((x, st.held(), self.where, self.rootname))
                    st.guards[g] = (ms, True)
            return
        if o is not None and MUTEX.match(ot):
            x = self.name(o) or 'local'
            if m in ('lock', 'lock_shared'):
                self.acquired.append((x, st.held(), self.where, self.rootname))
                st.guards[('m', x)] = (frozenset([x]), True)
            elif m in ('unlock', 'unlock_shared'):
                st.guards.pop(('m', x), None)
            return
        if GUARD.match(e.get('t', '')) and e['k'] == 'ctor':
            for x in self.mutexes(e):
                self.acquired.append((x, st.held(), self.where, self.rootname))
            return      # a temporary: the lock is gone at the end of the expression
        if m in ('lock', 'try_lock') and n.startswith('std::') and o is None:
            for x in self.mutexes(e):
                st.guards[('m', x)] = (frozenset([x]), True)
            return
        thread = bool(re.match(r'std::(jthread|thread)::(jthread|thread)$|std::async$', plain(n)))
        if o is not None:
            oe = self.strip(o)
            fname = self.name(o)
            if fname and m == 'join' and 'thread' in ot:
                self.joins.append((fname, st.held(), self.where, self.rootname))
                st.joined |= {fname}
            if fname and ATOMIC.match(ot):
                if m in ('store', 'operator=', 'exchange', 'test_and_set') and not (e.get('a') and self.strip(e['a'][0]).get('k') == 'bool' and self.strip(e['a'][0]).get('v') is False):
                    for a in self.pending:
                        a['pub'].add(fname)
                self.access(fname, m in ('store', 'operator=', 'exchange'), st)
            elif oe['k'] == 'this':
                pass
            else:
                constm = f.get('const') or m in READS
                if constm:
                    self.expr(o, st)
                else:
                    self.write(o, st)
        pts = f.get('pt') or []
        clos = []
        refs = []
        params = None
        target = self.prog.func(f.get('k', '')) if f.get('k') else None
        if target is not None:
            params = target.x.get('p')
        atomicfn = re.match(r'std::atomic_(load|store|exchange)', n)
        for i, a in enumerate(e.get('a', [])):
            b = self.strip(a)
            if b['k'] == 'lambda':
                self.created(b)
                for c in b.get('caps', []):
                    if 'init' in c:
                        self.expr(c['init'], st)
                if target is not None and params and i < len(params):
                    clos.append((params[i]['d'], tuple(b['fs'])))
                elif n and IMMEDIATE.match(plain(n)) and o is None:
                    for key in b['fs']:
                        self.call(key, st)
                else:
                    self.escaped(tuple(b['fs']), thread)
                continue
            if b['k'] == 'var' and not b.get('g') and isinstance(self.env.get(b.get('d')), tuple) and self.env[b['d']] and self.env[b['d']][0] != 'derived':
                fs = self.env[b['d']]
                if target is not None and params and i < len(params):
                    clos.append((params[i]['d'], fs))
                elif n and IMMEDIATE.match(plain(n)) and o is None:
                    for key in fs:
                        self.call(key, st)
                else:
                    self.escaped(fs, thread)
                continue
            if b['k'] == 'fn' or (b['k'] == 'un' and b.get('op') == '&' and self.strip(b['e'])['k'] in ('fn', 'memfn')) or b['k'] == 'memfn':
                x = b if b['k'] != 'un' else self.strip(b['e'])
                key = (x.get('f') or {}).get('k')
                if key:
                    self.escaped((key,), thread)
                continue
            pt = pts[i] if i < len(pts) else ''
            if target is not None and params and i < len(params) and re.search(r'[&*]$|reference_wrapper', params[i]['t']):
                src = self.sources(b)
                if src:
                    refs.append((params[i]['d'], frozenset(src)))
                    continue
            if atomicfn:
                x = self.strip(b['e']) if b['k'] == 'un' and b.get('op') == '&' else b
                nm = self.name(x)
                if nm:
                    self.accesses.append({'field': nm, 'w': atomicfn.group(1) != 'load', 'held': st.held(), 'root': self.rootname, 'ctor': self.ctor, 'where': self.where, 'known': st.known, 'joined': st.joined, 'via': 'atomic', 'pub': set()})
                    continue
            if re.match(r'std::(reference_wrapper::reference_wrapper|ref|cref|addressof|forward|move_if_noexcept|as_const)$', plain(n)):
                if not self.sources(b):
                    self.expr(a, st)
            elif '&' in pt and not pt.startswith('const ') and '&&' not in pt and target is None and not MUTEX.match(b.get('t', '')):
                self.write(a, st)
            else:
                self.expr(a, st)
        # who is called
        if f.get('k'):
            if e.get('op') == '()' and o is not None and 'std::function' in ot:
                self.unknown_calls.append((ot, st.held(), self.where, self.rootname))
            elif target is not None and not n.startswith('std::'):
                self.call(f['k'], st, clos, refs)
        if o is not None and e.get('op') == '()' and 'std::function' in ot and not f.get('k'):
            self.unknown_calls.append((ot, st.held(), self.where, self.rootname))
        if o is not None and self.strip(o)['k'] == 'var':
            fs = self.env.get(self.strip(o).get('d'))
            if e.get('op') == '()' and isinstance(fs, tuple) and fs and fs[0] != 'derived':
                for key in fs:
                    self.call(key, st)
