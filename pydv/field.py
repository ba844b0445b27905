"""Normal forms modulo a prime p.

In a theorem with the option field=p, x % p is kept as (f % p) with f the normal form of x modulo the ideal of the
polynomials known to vanish modulo p (path conditions t % p == 0 and i * a - 1 for inverses i of a).  Algebraically
equal values are then equal as terms, however the program writes its formulas."""
import z3


class Field(object):
    def __init__(self, p):
        self.p = p
        self.atoms, self.index = [], {}
        self.relations, self.basis = [], None

    def poly(self, t):
        """The polynomial of a term: a dictionary from monomials (tuples of (atom, exponent)) to coefficients."""
        p = self.p
        if isinstance(t, int): return self.clean({(): t})
        if z3.is_int_value(t): return self.clean({(): t.as_long()})
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == p: return self.poly(t.arg(0))
        if k == z3.Z3_OP_UMINUS: return self.clean({m: -c for m, c in self.poly(t.arg(0)).items()})
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            out = {}
            for j, a in enumerate(t.children()):
                s = -1 if k == z3.Z3_OP_SUB and j else 1
                for m, c in self.poly(a).items(): out[m] = out.get(m, 0) + s * c
            return self.clean(out)
        if k == z3.Z3_OP_MUL:
            out = {(): 1}
            for a in t.children(): out = self.times(out, self.poly(a))
            return out
        i = t.get_id()
        if i not in self.index:
            self.index[i] = len(self.atoms)
            self.atoms.append(t)
        return {((self.index[i], 1),): 1}

    def clean(self, d): return {m: c % self.p for m, c in d.items() if c % self.p}

    def times(self, a, b):
        out = {}
        for m, c in a.items():
            for n, e in b.items():
                x = dict(m)
                for v, k in n: x[v] = x.get(v, 0) + k
                key = tuple(sorted(x.items()))
                out[key] = out.get(key, 0) + c * e
        return self.clean(out)

    def relate(self, t):
        """t vanishes modulo p."""
        q = self.poly(t)
        if q:
            self.relations.append(q)
            self.basis = None

    # -- polynomials as dictionaries from exponent vectors, later atoms first (lexicographic order)

    def vector(self, q):
        n = len(self.atoms)
        d = {}
        for m, c in q.items():
            e = [0] * n
            for v, k in m: e[n - 1 - v] = k
            d[tuple(e)] = c
        return d

    def monic(self, f):
        i = pow(f[max(f)], -1, self.p)
        return {m: c * i % self.p for m, c in f.items()}

    def subtract(self, f, c, shift, g):
        """f - c * x^shift * g, in place."""
        for m, e in g.items():
            k = tuple(a + b for a, b in zip(m, shift))
            v = (f.get(k, 0) - c * e) % self.p
            if v: f[k] = v
            else: f.pop(k, None)

    def divide(self, f, basis):
        """The remainder of f; the polynomials of the basis are monic."""
        f, out = dict(f), {}
        lead = [(max(g), g) for g in basis]
        while f:
            m = max(f)
            for l, g in lead:
                if all(a >= b for a, b in zip(m, l)):
                    self.subtract(f, f[m], tuple(a - b for a, b in zip(m, l)), g)
                    break
            else: out[m] = f.pop(m)
        return out

    def groebner(self, polys):
        basis = [self.monic(f) for f in polys]
        pairs = [(i, j) for j in range(len(basis)) for i in range(j)]
        while pairs:
            if len(basis) > 40: break                   # normal forms with fewer relations are still right
            i, j = pairs.pop(0)
            f, g = basis[i], basis[j]
            a, b = max(f), max(g)
            if not any(x and y for x, y in zip(a, b)): continue
            l = tuple(map(max, a, b))
            s = {}
            self.subtract(s, -1, tuple(x - y for x, y in zip(l, a)), f)
            self.subtract(s, 1, tuple(x - y for x, y in zip(l, b)), g)
            r = self.divide(s, basis)
            if r:
                pairs += [(k, len(basis)) for k in range(len(basis))]
                basis.append(self.monic(r))
        return basis

    def normal(self, t):
        """The normal form of a term, as a term."""
        q = self.poly(t)
        if self.relations and any(q):
            n = len(self.atoms)
            if self.basis is None or self.basis[1] != n:
                polys = []
                for r in map(self.vector, self.relations):
                    if r not in polys: polys.append(r)
                self.basis = self.groebner(polys), n
            r = self.divide(self.vector(q), self.basis[0])
            q = {tuple((n - 1 - v, k) for v, k in sorted(enumerate(e), reverse=True) if k): c for e, c in r.items()}
        return self.term(q)

    def term(self, q):
        p = self.p
        if not q: return 0
        if set(q) == {()}: return q[()]
        s = None
        for m in sorted(q):
            c = q[m]
            if 2 * c > p: c -= p
            t = None
            for v, k in m:
                for _ in range(k): t = self.atoms[v] if t is None else t * self.atoms[v]
            t = z3.IntVal(c) if t is None else t if c == 1 else c * t
            s = t if s is None else s + t
        return z3.simplify(s, som=True) % p

    def learn(self, f):
        """Relations among path conditions."""
        if z3.is_not(f):
            if z3.is_not(f.arg(0)): self.learn(f.arg(0).arg(0))
        elif z3.is_and(f):
            for g in f.children(): self.learn(g)
        elif z3.is_eq(f):
            a, b = f.children()
            if a.sort() == z3.IntSort() and not any(z3.is_int_value(x) for x in (a, b)): self.relate(a - b)
            for x, y in ((a, b), (b, a)):
                if z3.is_app_of(x, z3.Z3_OP_MOD) and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() == self.p and z3.is_int_value(y): self.relate(x.arg(0) - y)
