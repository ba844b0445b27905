"""C07: elliptic-curve arithmetic."""
import functools
from pydv.lang import *
from . import prims, ec
from bitforge.utils import ecdsa, numbertheory
from bitforge.utils.ellipticcurve import CurveFp, Point, INFINITY
from bitforge.utils.secp256k1 import generator_secp256k1


def secrets(g):
    k = g.r.random()
    if k < 0.3: return g.r.randint(1, ec.N - 1)
    if k < 0.5: return g.r.randint(1, 40)
    if k < 0.6: return ec.N - g.r.randint(1, 40)
    return min(max(1, (1 << g.r.randint(0, 255)) + g.r.choice([-1, 0, 1])), ec.N - 1)


SECRET = Biased(Int(1, ec.N - 1), secrets)


# ---- contracts on points of secp256k1, for the callers

GEN = generator_secp256k1
SECP = GEN.curve()
MUL, ADD = ['bitforge.utils.ellipticcurve.Point.' + m for m in ('__mul__', '__add__')]
INV = 'bitforge.utils.numbertheory.inverse_mod'


def names():
    """The fields of a point, whatever they are called, or None."""
    try:
        d = dict(vars(GEN))
        f = [next(k for k in d if same(d[k])) for same in (lambda v: v is GEN.curve(), lambda v: v == GEN.x(), lambda v: v == GEN.y(), lambda v: v == GEN.order())]
        return f if len(set(f)) == 4 == len(d) else None
    except Exception: return None


NAMES = names()


def point_of(like, x, y):
    if NAMES is None: return Point(like.curve(), x, y)
    return make(Point, {NAMES[0]: like.curve(), NAMES[1]: x, NAMES[2]: y, NAMES[3]: None})


@contract(MUL, Is(Point), Int(), by='C07.multiples_all', note='for points of secp256k1')
def spec_mul(self, other):
    prims.require(self.curve() is SECP)
    prims.require(self.order() == ec.N or (self.order() is None and other >= 0))
    if other % ec.N == 0: return INFINITY
    x, y = prims.multiple(self.x(), self.y(), other % ec.N)
    return point_of(self, x, y)


@contract(ADD, Is(Point), Is(Point), by='C07.addition_all', note='for points of secp256k1')
def spec_add(self, other):
    if self is INFINITY: return other
    if other is INFINITY: return self
    prims.require(self.curve() is GEN.curve() and other.curve() is GEN.curve())
    s = prims.point_sum((self.x(), self.y()), (other.x(), other.y()))
    if s is None: return INFINITY
    return point_of(self, s[0], s[1])


@contract(INV, Int(), Int(), by='C07.inverse_all', note='for the two primes of secp256k1')
def spec_inverse(a, m):
    prims.require(m == ec.N or m == ec.P)
    prims.require(a % m != 0)
    return prims.inverse(a, m) if 0 < a < m else prims.inverse(a % m, m)


@contract('bitforge.utils.ecdsa.public_pair_for_secret_exponent', OneOf(generator_secp256k1), SECRET,
          use=(MUL,))
def spec_public_pair(generator, secret_exponent):
    return prims.pubpair(secret_exponent)


# ---- modular inverses

def moduli(g):
    r = g.r
    k = r.random()
    if k < 0.3: return r.randint(2, 60)
    if k < 0.5: return r.choice([ec.P, ec.N])
    if k < 0.7: return max(2, (1 << r.randint(1, 300)) + r.choice([-1, 0, 1]))
    return r.randint(2, 1 << r.randint(2, 300))


def gcd(a, b):
    while b: a, b = b, a % b
    return abs(a)


def coprime(g):
    r = g.r
    m = moduli(g)
    for _ in range(100):
        a = r.choice([1, -1, m - 1, m + 1, r.randint(0, m - 1), r.randint(-3 * m, 3 * m), 2, -2, r.randint(1, 50)])
        if gcd(a, m) == 1: return (a, m)
    return (1, m)


@theorem('C07', Native(coprime), bounded=True, weight=2)
def inverse(case):
    a, m = case
    x = numbertheory.inverse_mod(a, m)
    assert 0 < x < m and (a * x) % m == 1


class Euclid(object):
    """Loop facts of the extended Euclidean algorithm, for whichever variables have them."""
    @staticmethod
    def candidates(it, n, entry, head, rope, info):
        from pydv.loops import Cand
        from pydv.core import T, And, Or, Le, Lt, Eq, zi
        from pydv.prims import gcd_term, unfold_gcd
        ints = [sl for sl in head.d if head.d[sl][0] == 'int' and sl in entry.d]
        E = lambda x: T(entry.d[x][1])
        V = lambda s, x: zi(T(s.d[x][1]))

        def gcd(s, c, d):
            if s.head: unfold_gcd(it, V(s, c), V(s, d))
            return Eq(gcd_term(it, V(s, c), V(s, d)), 1)

        def bezout(s, x, u, w, a, m):
            if s.head: it.ctx.zero(V(s, x) - V(s, u) * zi(a) - V(s, w) * m)
            return Eq(V(s, x), V(s, u) * zi(a) + V(s, w) * m)

        def cofactors(s, c, d, u, w, m):
            x, y = V(s, u), V(s, w)
            half = lambda x, y: And(x >= 0, y <= 0, Le(-y, x), Or(Le(1, V(s, c)), Lt(-y, x)), Eq(x * V(s, d) - y * V(s, c), m))
            return Or(half(x, y), half(-x, -y))

        small = lambda x: isinstance(E(x), int) and abs(E(x)) <= 1
        for c in ints:
            if isinstance(E(c), int): continue
            for d in ints:
                m = E(d)
                if isinstance(m, int) and m not in (ec.N, ec.P) or c == d: continue
                m = m if isinstance(m, int) else zi(m)
                yield Cand(('euclid', c, d), lambda s, c=c, d=d, m=m: And(Le(0, V(s, c)), Lt(V(s, c), V(s, d)), Le(V(s, d), m)))
                yield Cand(('gcd', c, d), lambda s, c=c, d=d: gcd(s, c, d))
                for u in ints:
                    for w in ints:
                        if u == w or not small(u) or not small(w): continue
                        for x in (c, d):
                            yield Cand(('bezout', c, d, x, u, w), lambda s, c=c, x=x, u=u, w=w, m=m: bezout(s, x, u, w, E(c), m))
                        yield Cand(('cofactors', c, d, u, w), lambda s, c=c, d=d, u=u, w=w, m=m: cofactors(s, c, d, u, w, m))


@theorem('C07', Int(), OneOf(ec.N, ec.P), plugin=Euclid, linear='products')
def inverse_all(a, m):
    """Modular inverses for the field and the order of secp256k1."""
    b = a % m
    if b == 0:
        return
    prims.lemma_coprime(b, m)
    x = numbertheory.inverse_mod(a, m)
    assert 0 < x < m
    assert (a * x) % m == 1


@theorem('C07', Int(), Int(2), plugin=Euclid, linear='products', name='inverse_any')
def inverse_any(a, m):
    """Modular inverses for every modulus."""
    if prims.gcd(a % m, m) != 1:
        return
    x = numbertheory.inverse_mod(a, m)
    assert 0 < x < m
    assert (a * x) % m == 1


# ---- addition on secp256k1, for all points

FIELD = Biased(Int(0, ec.P - 1), lambda g: ec.jmul(secrets(g), ec.G)[0])


def curve_point(g): return ec.jmul(secrets(g), ec.G)


POINT = Biased(Tup(Int(0, ec.P - 1), Int(0, ec.P - 1)), curve_point, rate=1.0)


def on_secp(u): return (u[1] * u[1] - (u[0] * u[0] * u[0] + 7)) % ec.P == 0


def chord(u, v):
    """The sum of two points by the formulas of the chord and the tangent, None for infinity."""
    p = ec.P
    if u[0] == v[0]:
        if (u[1] + v[1]) % p == 0: return None
        m = 3 * u[0] * u[0] * prims.inverse(2 * u[1] % p, p) % p
    else:
        m = (v[1] - u[1]) * prims.inverse((v[0] - u[0]) % p, p) % p
    x = (m * m - u[0] - v[0]) % p
    return x, (m * (u[0] - x) - u[1]) % p


@theorem('C07', POINT, POINT, use=(INV,), field=ec.P)
def addition_all(u, v):
    if not (on_secp(u) and on_secp(v)):
        return
    prims.lemma_lift(u[0], u[1])                # no point has y = 0
    P, Q = Point(SECP, u[0], u[1]), Point(SECP, v[0], v[1])
    R, w = P + Q, chord(u, v)
    if w is None:
        assert R is INFINITY
        return
    assert R.pair() == w and R.curve() is SECP
    assert on_secp(w)


@theorem('C07', POINT, use=(INV,), field=ec.P)
def doubling_all(u):
    if not on_secp(u):
        return
    prims.lemma_lift(u[0], u[1])
    R, w = Point(SECP, u[0], u[1]).double(), chord(u, u)
    if w is None:
        assert R is INFINITY
        return
    assert R.pair() == w and R.curve() is SECP
    assert on_secp(w)


# ---- multiples of points of secp256k1

class Scalar(object):
    """Loop facts of multiplication by the bits of two numbers a and b, i being a power of two: the point is the multiple by a // 2i - b // 2i."""
    @staticmethod
    def candidates(it, n, entry, head, rope, info):
        from pydv.loops import Cand, Whole
        from pydv.core import T, And, Eq, Le, zi, mk, SInt, SObj
        from pydv.prims import power2, shifted, halves, multiple_or_none, same_base
        import z3
        ctx = it.ctx
        ints = [sl for sl in head.d if head.d[sl][0] == 'int' and sl in entry.d]
        V = lambda s, x: zi(T(s.d[x][1]))
        fixed = []
        for v in head.env.vars.values():
            if isinstance(v, SInt) and not any(v.t.eq(w) for w in fixed) and not any(v.t.eq(V(head, x)) for x in ints): fixed.append(v.t)

        def power(s, x):
            if s.head:
                for a in fixed: halves(it, a, V(s, x))
            return power2(it, V(s, x))

        for x in ints:
            yield Cand(('power of 2', x), lambda s, x=x: power(s, x))
            for a in fixed: yield Cand(('twice', x, str(a)), lambda s, x=x, a=a: Le(V(s, x), 2 * a))
        objects = [sl for sl in entry.d if entry.d[sl][0] == 'other' and isinstance(entry.d[sl][1], SObj) and entry.d[sl][1].cls is Point and sl[0] == 'v']
        for o in objects:
            base = entry.d[o][1]
            u = [zi(T(it.call(f, [base], {}))) for f in (Point.x, Point.y)]
            k = lambda s, x, a, b: shifted(it, a, 2 * V(s, x)) - shifted(it, b, 2 * V(s, x))

            def define(s, x, a, b):
                w = multiple_or_none(it, u[0], u[1], k(s, x, a, b))
                return Whole(INFINITY if w is None else it.call(point_of, [base] + list(it.iter_concrete(w)), {}))

            def check(s, o, x, a, b):
                v, j = s.d[o][1], k(s, x, a, b)
                if v is INFINITY: return Eq(j % ec.N, 0)
                w = same_base(it, [it.call(f, [v], {}) for f in (Point.x, Point.y)], [mk(c) for c in u])
                if w is None or str(w[3]) not in ('1', '-1'): return False
                m = w[2] * w[3]
                if NAMES is None or it.call(Point.curve, [v], {}) is not SECP: return False
                return And(j % ec.N != 0, Eq((m - j) % ec.N, 0))
            for x in ints:
                for a in fixed:
                    for b in fixed:
                        if a.eq(b): continue
                        key = ('multiple', o, x, str(a), str(b))
                        yield Cand(key, slot=o, define=functools.partial(define, x=x, a=a, b=b), check=functools.partial(check, o=o, x=x, a=a, b=b))
                        if key not in info.killed: return


DOUBLE = 'bitforge.utils.ellipticcurve.Point.double'


@contract(DOUBLE, Is(Point), by='C07.doubling_all', note='for points of secp256k1')
def spec_double(self):
    if self is INFINITY: return self
    prims.require(self.curve() is SECP)
    s = prims.point_sum((self.x(), self.y()), (self.x(), self.y()))
    if s is None: return INFINITY
    return point_of(self, s[0], s[1])


@theorem('C07', POINT, Int(), OneOf(None, ec.N), use=(ADD, DOUBLE), plugin=Scalar, field=ec.P, powers=True, group=True, linear=True)
def multiples_all(u, k, order):
    if not on_secp(u) or (order is None and k < 0):
        return
    R = Point(SECP, u[0], u[1], order) * k
    if k % ec.N == 0:
        assert R is INFINITY
        return
    prims.lemma_period(u, k)
    assert R.pair() == prims.multiple(u[0], u[1], k % ec.N) and R.curve() is SECP


# ---- the group law on small curves and on secp256k1

PRIMES = [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]


def small(g):
    r = g.r
    while True:
        p = r.choice(PRIMES)
        a, b = r.randrange(p), r.randrange(p)
        if (4 * a ** 3 + 27 * b * b) % p: return p, a, b


@functools.lru_cache(None)
def points(p, a, b):
    return [(x, y) for x in range(p) for y in range(p) if (y * y - x * x * x - a * x - b) % p == 0]


def negated(u, p): return u and (u[0], -u[1] % p)


def operands(g):
    r = g.r
    if r.random() < 0.85:
        p, a, b = small(g)
        pts = points(p, a, b) + [None]
        u = r.choice(pts)
        v = r.choice([r.choice(pts), u, negated(u, p)])
        return (p, a, b), u, v, r.random() < 0.3
    u = r.choice([None, ec.jmul(secrets(g), ec.G), ec.G])
    v = r.choice([None, ec.jmul(secrets(g), ec.G), u, negated(u, ec.P), u and ec.add(u, u)])
    return (ec.P, 0, 7), u, v, r.random() < 0.3


def point(curve, u, n=None): return INFINITY if u is None else Point(curve, u[0], u[1], n)


@functools.lru_cache(None)
def order(p, a, u):
    """The order of a point of a small curve."""
    n, v = 1, u
    while v is not None: n, v = n + 1, ec.add(v, u, p, a)
    return n


def is_point(q, curve, u):
    """q is the point u of the curve (None: infinity), with reduced coordinates."""
    assert isinstance(q, Point)
    if u is None: assert q == INFINITY and q.curve() is None
    else: assert q.pair() == u and q.curve() == curve and q != INFINITY


@theorem('C07', Native(operands), bounded=True, weight=3)
def law(case):
    (p, a, b), u, v, known = case
    c = SECP if p == ec.P else CurveFp(p, a, b)
    n = lambda w: None if not known or w is None else ec.N if p == ec.P else order(p, a, w)     # points that know their order add like others
    P, Q = point(c, u, n(u)), point(c, v, n(v))
    is_point(P + Q, c, ec.add(u, v, p, a))
    is_point(P.double(), c, ec.add(u, u, p, a))
    is_point(P, c, u)
    is_point(Q, c, v)
    assert (P == Q) == (u == v)


def scalars(g):
    r = g.r
    if r.random() < 0.93:
        p, a, b = small(g)
        u = r.choice(points(p, a, b) + [None])
        k = r.choice([r.randint(0, 40), r.randint(0, 2 * p + 5), (1 << r.randint(0, 40)) + r.choice([-1, 0, 1])])
        return (p, a, b), u, k
    u = r.choice([ec.G, ec.jmul(secrets(g), ec.G)])
    return (ec.P, 0, 7), u, r.choice([0, 1, 2, 3, ec.N - 1, ec.N, ec.N + 1, 2 * ec.N, secrets(g), secrets(g), secrets(g) + ec.N])


@theorem('C07', Native(scalars), bounded=True, weight=4)
def multiples(case):
    (p, a, b), u, k = case
    c = SECP if p == ec.P else CurveFp(p, a, b)
    want = ec.mul(k, u, p, a) if p != ec.P else ec.jmul(k % ec.N, u)
    P = point(c, u)
    is_point(P * k, c, want)
    is_point(k * P, c, want)
    is_point(P, c, u)


def ordered(g):
    (p, a, b), u, k = scalars(g)
    while u is None: (p, a, b), u, k = scalars(g)
    if p == ec.P: return (p, a, b), u, k, ec.N
    n, v = 1, u
    while v is not None: n, v = n + 1, ec.add(v, u, p, a)
    return (p, a, b), u, k, n * g.r.choice([1, 1, 2])


@theorem('C07', Native(ordered), bounded=True, weight=2)
def multiples_of_known_order(case):
    (p, a, b), u, k, n = case
    c = SECP if p == ec.P else CurveFp(p, a, b)
    P = Point(c, u[0], u[1], n)
    want = ec.mul(k, u, p, a) if p != ec.P else ec.jmul(k % ec.N, u)
    is_point(P * k, c, want)
    is_point(k * P, c, want)
    assert P.order() == n


@theorem('C07', SECRET, bounded=True, weight=2)
def public_pair(k):
    assert ecdsa.public_pair_for_secret_exponent(generator_secp256k1, k) == ec.jmul(k, ec.G)


@theorem('C07', Native(lambda g: small(g) + (g.r.randrange(110), g.r.randrange(110))), bounded=True, weight=0.5)
def on_curve(case):
    """Only points of the curve can be made."""
    p, a, b, x, y = case
    c = CurveFp(p, a, b)
    ok = (y * y - x * x * x - a * x - b) % p == 0
    assert bool(c.contains_point(x, y)) is ok
    try: Point(c, x, y)
    except ValueError:
        assert not ok
        return
    assert ok


@theorem('C07')
def parameters():
    """The curve is secp256k1."""
    assert (SECP.p(), SECP.a(), SECP.b()) == (ec.P, 0, 7)
    assert generator_secp256k1.pair() == ec.G and generator_secp256k1.order() == ec.N


def roots(g):
    """A number and an odd prime."""
    r = g.r
    p = r.choice(ODD) if r.random() < 0.9 else r.choice([2 ** 61 - 1, 2 ** 127 - 1, ec.P, ec.N, 998244353, 3 * 2 ** 30 + 1, 2 ** 255 - 19, 2 ** 16 + 1, 7340033])
    a = r.choice([r.randrange(p), r.randrange(p) ** 2 % p, r.randrange(p) ** 2, r.randrange(3 * p), 0, 1, p - 1, p, 4])
    return a, p


ODD = [p for p in range(3, 700) if all(p % d for d in range(2, p))]


@theorem('C07', Native(roots), bounded=True, weight=1)
def square_root(case):
    """A square root modulo an odd prime, or 0 if there is none."""
    a, p = case
    x = numbertheory.modular_sqrt(a, p)
    if a % p and pow(a, (p - 1) // 2, p) != 1: assert x == 0
    else: assert 0 <= x < p and x * x % p == a % p
