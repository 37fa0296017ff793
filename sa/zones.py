"""Difference bounds: the order facts of a path as constraints x - y < c or x - y <= c, closed under transitivity."""

INF = (float('inf'), 0)
ZERO = ('zero',)


def linear(t):
    """({term: coefficient}, constant) of an arithmetic term"""
    if t[0] in ('i', 'f', 'b'):
        return {}, t[1] + 0
    if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
        (a, c), (b, d) = linear(t[2]), linear(t[3])
        s = 1 if t[1] == '+' else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}, c + s * d
    if t[0] == 'op' and t[1] == '*' and len(t) == 4:
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if x[0] in ('i', 'f'):
                a, c = linear(y)
                return {k: v * x[1] for k, v in a.items() if v * x[1]}, c * x[1]
    if t[0] == 'neg' and len(t) == 2:
        a, c = linear(t[1])
        return {k: -v for k, v in a.items()}, -c
    return {t: 1}, 0


class Zone:
    def __init__(self, facts=()):
        self.b = {}
        for k, v in (facts.items() if hasattr(facts, 'items') else facts):
            if k[0] == 'rel':
                self.relate(k[1], k[2], v)
            elif v[0] in ('i', 'f') and k[0] not in ('op', 'not'):
                self.relate(k, v, '=')
        self.close()

    def form(self, a, b):
        """(x, y, c) such that a - b is x - y + c, None if it has another form"""
        (p, c), (q, d) = linear(a), linear(b)
        r = dict(p)
        for k, v in q.items():
            r[k] = r.get(k, 0) - v
        r = {k: v for k, v in r.items() if v}
        plus = [k for k, v in r.items() if v == 1]
        minus = [k for k, v in r.items() if v == -1]
        if len(plus) + len(minus) != len(r) or len(plus) > 1 or len(minus) > 1:
            return None
        return (plus[0] if plus else ZERO, minus[0] if minus else ZERO, c - d)

    def relate(self, a, b, rel):
        """a rel b for some of the relations < = >"""
        f = self.form(a, b)
        if f is None:
            return
        x, y, c = f
        rel = set(rel)
        if '>' not in rel:
            self.bound(x, y, (-c, 0 if '=' in rel else -1))
        if '<' not in rel:
            self.bound(y, x, (c, 0 if '=' in rel else -1))

    def bound(self, x, y, w):
        """x - y <= w[0], strictly if w[1] is negative"""
        for v in (x, y):
            self.b.setdefault((v, v), (0, 0))
        if w < self.b.get((x, y), INF):
            self.b[x, y] = w

    def close(self):
        vs = {v for p in self.b for v in p}
        for k in vs:
            for i in vs:
                ik = self.b.get((i, k))
                if ik is None:
                    continue
                for j in vs:
                    kj = self.b.get((k, j))
                    if kj is not None:
                        w = (ik[0] + kj[0], min(ik[1], kj[1]))
                        if w < self.b.get((i, j), INF):
                            self.b[i, j] = w
        return self

    def empty(self):
        return any(x == y and w < (0, 0) for (x, y), w in self.b.items())

    def with_(self, a, b, rel):
        z = Zone()
        z.b = dict(self.b)
        z.relate(a, b, rel)
        return z.close()

    def admits(self, a, b, rel):
        """whether some values that satisfy everything known satisfy a rel b too"""
        return not self.with_(a, b, rel).empty()
