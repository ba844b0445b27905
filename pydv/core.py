"""Symbolic values, byte/list ropes, and the path context (branching, facts, proofs).

Everything opaque is a z3 term of the uninterpreted sort S (a finite sequence); sequences that the
program builds are ropes, i.e. lists of pieces.  The solver only ever sees linear/non-linear integer
arithmetic, reals and uninterpreted functions; the facts about those functions are instantiated on
ground terms when a term is created (no quantifiers reach the solver).
"""
import time
import z3
from .field import Field

S = z3.DeclareSort('S')
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()


class Unsupported(Exception):
    """The code uses something outside the verified subset."""


class PathEnd(Exception):
    """The current path ends here (infeasible, or closed by a loop back edge)."""


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, val):
        self.val = val          # SObj of an exception class, or a real exception instance

    @property
    def cls(self):
        return self.val.cls if isinstance(self.val, SObj) else type(self.val)


# ----------------------------------------------------------------------------------------------
# values

class Sym(object):
    __slots__ = ()


class SInt(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SInt(%s)' % self.t


class SBool(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SBool(%s)' % self.t


class SReal(Sym):
    """A Python float known only as a real number (rounding handled by the operation models)."""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t


class SBytes(Sym):
    __slots__ = ('rope',)
    def __init__(self, rope): self.rope = rope
    def __repr__(self): return 'SBytes(%r)' % (self.rope,)


class SStr(Sym):
    __slots__ = ('rope',)
    def __init__(self, rope): self.rope = rope
    def __repr__(self): return 'SStr(%r)' % (self.rope,)


class OText(Sym):
    """Text whose content is never inspected (messages, reprs)."""
    __slots__ = ('why', 'least')
    def __init__(self, why='text', least=0): self.why, self.least = why, least       # at least that many characters


class STuple(Sym):
    """A tuple of symbolic length."""
    __slots__ = ('rope',)
    def __init__(self, rope): self.rope = rope
    def __repr__(self): return 'STuple(%r)' % (self.rope,)


class HBytes(Sym):
    """A mutable bytearray (or subclass)."""
    __slots__ = ('rope', 'cls', 'oid')
    def __init__(self, rope, cls=bytearray, oid=None):
        self.rope, self.cls, self.oid = rope, cls, oid
    def __repr__(self): return 'HBytes(%r)' % (self.rope,)


class HList(Sym):
    __slots__ = ('rope', 'oid')
    def __init__(self, rope, oid=None):
        self.rope, self.oid = rope, oid
    def __repr__(self): return 'HList(%r)' % (self.rope,)


class HDict(Sym):
    __slots__ = ('items', 'oid')
    def __init__(self, items, oid=None):
        self.items, self.oid = list(items), oid       # list of [key, value]


class HSet(Sym):
    __slots__ = ('items', 'oid')
    def __init__(self, items, oid=None):
        self.items, self.oid = list(items), oid


class SObj(Sym):
    """An instance of a concrete (real) class with symbolic fields."""
    __slots__ = ('cls', 'fields', 'oid', 'tag')
    def __init__(self, cls, fields, oid=None, tag=None):
        self.cls, self.fields, self.oid, self.tag = cls, fields, oid, tag
    def __repr__(self): return 'SObj(%s,%r)' % (self.cls.__name__, self.fields)


class SIter(Sym):
    """An iterator over a rope (consumed from the left) or over a lazily produced sequence."""
    __slots__ = ('rope', 'oid', 'lazy')
    def __init__(self, rope, oid=None, lazy=None):
        self.rope, self.oid, self.lazy = rope, oid, lazy


class Lazy(Sym):
    """A generator expression, map() or filter() not yet consumed."""
    __slots__ = ('run', 'gen')
    def __init__(self, run): self.run, self.gen = run, None     # gen: the rest, once next() was called on it


class SRange(Sym):
    __slots__ = ('lo', 'hi', 'step')
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step


class Func(Sym):
    """A function or lambda created by interpreted code."""
    __slots__ = ('node', 'env', 'globs', 'defaults', 'kwdefaults', 'name', 'qual', 'cls')
    def __init__(self, node, env, globs, defaults, kwdefaults, name, qual, cls=None):
        self.node, self.env, self.globs = node, env, globs
        self.defaults, self.kwdefaults, self.name, self.qual, self.cls = defaults, kwdefaults, name, qual, cls


class Bound(Sym):
    __slots__ = ('fn', 'self_')
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_


class BMeth(Sym):
    """A bound builtin method of a symbolic value."""
    __slots__ = ('obj', 'name')
    def __init__(self, obj, name): self.obj, self.name = obj, name


class Super(Sym):
    __slots__ = ('cls', 'obj')
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class Union(Sym):
    """A value that is one of several, chosen by (unevaluated) conditions; resolved by branching."""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts


# ----------------------------------------------------------------------------------------------
# integer terms

def is_int(v):
    return (isinstance(v, int)) or isinstance(v, (SInt, SBool))


def T(v):
    """z3 term (or python int) of an integer-like value."""
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, SInt): return v.t
    if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ExprRef): return v
    raise Unsupported('integer expected, got %r' % (type(v),))


def zi(t):
    return z3.IntVal(t) if isinstance(t, int) else t


def mk(t):
    """Value from a term; folds constants."""
    if isinstance(t, bool): return t
    if isinstance(t, int): return t
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    if z3.is_bool(t): return SBool(t)
    return SInt(t)


def tn(t):
    """Normalise a term to python int if constant."""
    if isinstance(t, int): return int(t)
    if z3.is_int_value(t): return t.as_long()
    s = z3.simplify(t, som=True)
    if z3.is_int_value(s): return s.as_long()
    return s


def teq(a, b):
    """Syntactic equality of terms."""
    a, b = tn(a), tn(b)
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


def fdiv(a, b):
    """Python floor division of terms, b a positive constant or term (see Ctx.divmod)."""
    if isinstance(a, int) and isinstance(b, int): return a // b
    return zi(a) / zi(b)


def fmod(a, b):
    if isinstance(a, int) and isinstance(b, int): return a % b
    return zi(a) % zi(b)


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs): return False
    if not xs: return True
    return z3.And(*xs) if len(xs) > 1 else xs[0]


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs): return True
    if not xs: return False
    return z3.Or(*xs) if len(xs) > 1 else xs[0]


def Not(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if c is True: return a
    if c is False: return b
    return z3.If(c, zi(a), zi(b))


def Eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    a, b = tn(a), tn(b)
    if isinstance(a, int) and isinstance(b, int): return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b): return True
    return zi(a) == zi(b)


def Le(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return zi(a) <= zi(b)


def Lt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return zi(a) < zi(b)


# ----------------------------------------------------------------------------------------------
# pieces

class Piece(object):
    __slots__ = ()


class Elems(Piece):
    """Explicit elements (values)."""
    __slots__ = ('v',)
    def __init__(self, v): self.v = tuple(v)
    def __repr__(self): return 'E%r' % (self.v,)


class Sl(Piece):
    """Elements term[lo .. lo+n), reversed if rev.  kind: 'byte', 'char' or an element type object."""
    __slots__ = ('term', 'lo', 'n', 'rev', 'kind')
    def __init__(self, term, lo, n, kind, rev=False):
        self.term, self.lo, self.n, self.kind, self.rev = term, lo, n, kind, rev
    def __repr__(self): return 'Sl(%s,%s,%s%s)' % (self.term, self.lo, self.n, ',rev' if self.rev else '')


class Enc(Piece):
    """The n digits of v in the base of alphabet alpha; big endian if be.  0 <= v < base**n."""
    __slots__ = ('alpha', 'v', 'n', 'be')
    def __init__(self, alpha, v, n, be): self.alpha, self.v, self.n, self.be = alpha, v, n, be
    def __repr__(self): return 'Enc%d(%s,%s,%s)' % (self.alpha, self.v, self.n, self.be)


class Rep(Piece):
    """n copies of an element."""
    __slots__ = ('v', 'n')
    def __init__(self, v, n): self.v, self.n = v, n
    def __repr__(self): return 'Rep(%r,%s)' % (self.v, self.n)


class Hex(Piece):
    """The lower-case hexadecimal digits of a byte rope."""
    __slots__ = ('rope',)
    def __init__(self, rope): self.rope = rope
    def __repr__(self): return 'Hex(%r)' % (self.rope,)


class Dec(Piece):
    """The decimal digits of a non-negative integer."""
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self): return 'Dec(%s)' % (self.v,)


class Flat(Piece):
    """Concatenation of f(term[i]) for i in [lo, lo+n): f is a registered element function."""
    __slots__ = ('f', 'term', 'lo', 'n', 'kind')
    def __init__(self, f, term, lo, n, kind): self.f, self.term, self.lo, self.n, self.kind = f, term, lo, n, kind
    def __repr__(self): return 'Flat(%s,%s,%s,%s)' % (self.f, self.term, self.lo, self.n)


FLATS = {}      # element functions of Flat pieces: name -> (function(it, element) -> Rope, least length of a result)


class Lam(Piece):
    """n elements given by a function of the index; key identifies the function."""
    __slots__ = ('fn', 'lo', 'n', 'key')
    def __init__(self, fn, lo, n, key): self.fn, self.lo, self.n, self.key = fn, lo, n, key
    def __repr__(self): return 'Lam(%s,%s,%s)' % (self.key, self.lo, self.n)


class Rope(object):
    __slots__ = ('p',)
    def __init__(self, pieces=()): self.p = tuple(pieces)
    def __repr__(self): return '<%s>' % ' '.join(map(repr, self.p))


EMPTY = Rope()

ALPHA58 = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'

f_round = z3.Function('round', z3.RealSort(), z3.RealSort())
f_len = z3.Function('len', S, I)
f_at = z3.Function('at', S, I, I)
f_slice = z3.Function('slice', S, I, I, S)
f_rslice = z3.Function('rslice', S, I, I, S)
f_cat = z3.Function('cat', S, S, S)
f_unit = z3.Function('unit', I, S)
f_enc = z3.Function('enc', I, I, I, B, S)
f_rep = z3.Function('rep', I, I, S)
f_hex = z3.Function('hex', S, S)
f_dec = z3.Function('dec', I, S)
f_pow = z3.Function('pw', I, I, I)
c_eps = z3.Const('eps', S)
_val = {}


def f_val(alpha, be):
    k = 'val%d%s' % (alpha, 'be' if be else 'le')
    if k not in _val: _val[k] = z3.Function(k, S, I, I, I)
    return _val[k]


f_valid = {a: z3.Function('valid%d' % a, S, I, I, B) for a in (58,)}
f_lz = {a: z3.Function('lz%d' % a, S, I, I, I) for a in (58, 256)}


def look58(t):
    """Digit value of a base58 character (arbitrary outside the alphabet)."""
    if isinstance(t, int): return ALPHA58.index(bytes([t])) if bytes([t]) in ALPHA58 else 0
    r = z3.IntVal(0)
    # contiguous runs of the alphabet
    for a, b, off in RUNS58:
        r = z3.If(z3.And(t >= a, t <= b), t - a + off, r)
    return r


def isval58(t):
    if isinstance(t, int): return 0 <= t < 256 and bytes([t]) in ALPHA58
    return z3.Or(*[z3.And(t >= a, t <= b) for a, b, off in RUNS58])


def char58(v):
    if isinstance(v, int): return ALPHA58[v]
    r = z3.IntVal(0)
    for a, b, off in RUNS58:
        r = z3.If(z3.And(v >= off, v <= off + b - a), v - off + a, r)
    return r


def _runs():
    out = []
    for i, c in enumerate(ALPHA58):
        if out and out[-1][1] == c - 1: out[-1][1] = c
        else: out.append([c, c, i])
    return [tuple(x) for x in out]


RUNS58 = _runs()


def digit_of(alpha, elem):
    return elem if alpha == 256 else look58(elem)


def elem_of(alpha, digit):
    return digit if alpha == 256 else char58(digit)


class ElemType(object):
    """Type of the elements of an opaque sequence of objects."""
    def __init__(self, name, make):
        self.name, self.make = name, make
    def __repr__(self): return 'ET(%s)' % self.name


# ----------------------------------------------------------------------------------------------
# statistics shared by a unit

class Stats(object):
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.backends = {}
        self.failed = []        # (label, status, detail)
        self.samples = []       # models of explored paths


def products(x, y, xy):
    """What linear arithmetic can use about a product."""
    out = []
    for k in (0, 1, 2):
        for a, b in ((x, y), (y, x)) if k else ((x, y),):
            # (a - k) * b has the sign of its factors
            c = xy - k * b
            out += [z3.Implies(z3.And(a >= k, b >= 0), c >= 0), z3.Implies(z3.And(a >= k, b <= 0), c <= 0)]
    out += [z3.Implies(z3.And(x <= 0, y >= 0), xy <= 0), z3.Implies(z3.And(x <= 0, y <= 0), xy >= 0)]
    return out


def cofactor(t, y):
    """The polynomial c with t = c * y + (monomials without y)."""
    t = z3.simplify(zi(t), som=True)
    r = z3.IntVal(0)
    for m in (t.children() if z3.is_add(t) else [t]):
        fs = [m]
        while any(z3.is_mul(f) for f in fs): fs = [g for f in fs for g in (f.children() if z3.is_mul(f) else [f])]
        k = [j for j, f in enumerate(fs) if f.eq(y)]
        if not k: continue
        p = z3.IntVal(1)
        for j, f in enumerate(fs):
            if j != k[0]: p = p * f
        r = r + p
    return r


class Linear(object):
    """Replaces products and quotients of unknowns by opaque numbers (a weaker, decidable view of a formula)."""
    def __init__(self):
        self.cache = {}
        self.mono = {}
        self.keep = []
        self.nonlinear = False
        self.signs = []

    def __call__(self, f):
        if not z3.is_expr(f): return f
        f = z3.simplify(f, som=True)
        self.keep.append(f)
        return self.walk(f)

    def walk(self, t):
        i = t.get_id()
        r = self.cache.get(i)
        if r is not None: return r
        if t.num_args() == 0: r = t
        else:
            args = [self.walk(a) for a in t.children()]
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL:
                nums = [a for a in args if z3.is_int_value(a) or z3.is_rational_value(a)]
                vs = [a for a in args if not (z3.is_int_value(a) or z3.is_rational_value(a))]
                if len(vs) > 1:
                    vs.sort(key=lambda a: a.get_id())
                    m = self.atom(('mul',) + tuple(a.get_id() for a in vs), t.sort(), vs)
                    r = m
                    for c in nums: r = c * r
            elif k == z3.Z3_OP_POWER:
                r = self.atom(('pow',) + tuple(a.get_id() for a in args), t.sort(), args)
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV, z3.Z3_OP_REM) and not (z3.is_int_value(args[1]) or z3.is_rational_value(args[1])):
                r = self.atom(('div%d' % k,) + tuple(a.get_id() for a in args), t.sort(), args)
            if r is None:
                r = t if all(a.eq(b) for a, b in zip(args, t.children())) else t.decl()(*args) if not z3.is_quantifier(t) else t
        self.cache[i] = r
        self.keep.append(r)
        return r

    def atom(self, key, sort, args):
        self.nonlinear = True
        if key not in self.mono:
            self.mono[key] = z3.Const('mono!%d' % len(self.mono), sort)
            self.keep += list(args)
            if key[0] == 'mul' and len(args) == 2 and sort == z3.IntSort(): self.signs += products(args[0], args[1], self.mono[key])
        return self.mono[key]


class Ctx(object):
    """One path.  `prefix` is the list of decisions to replay."""

    FEAS_MS = 3000
    PROVE_MS = 8000
    SLOW = 1

    def __init__(self, prefix, stats, deadline=None, opts=None):
        self.prefix = prefix
        self.stats = stats
        self.deadline = deadline
        self.opts = opts or {}
        self.taken = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.FEAS_MS)
        self.linear = Linear()
        self.quotients, self.zeros, self.product_facts = {}, [], []
        self.field = Field(opts['field']) if opts and opts.get('field') else None
        self.lsolver = z3.Solver()
        self.pc = []
        self.counter = {}
        self.oid = 0
        self.pows = {}           # (base) -> list of exponent terms
        self.vals = []           # registered (alpha,be,term,lo,n)
        self.seen = set()
        self.exact = True
        self.atc = {}
        self.unknown = 0
        self.notes = []
        self.depth = 0
        self.hashes = {}
        self.members = []
        self.modpows = []
        self.canons = []         # ropes that equal ropes are replaced by
        self.texts58 = []
        self.asciiterms = set()
        self.it = None
        self.lambase, self.lamcount, self.witnesses, self.foralls = {}, 0, [], []
        self.evals = []
        self.joined = []
        self.nonames = set()
        self.spelled = {}
        self.secs = []
        self.made = {}
        self.txs = []
        self.flatalias = []     # (Flat piece, rope it equals)

    # -- naming
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n)

    def fresh_int(self, base='i'):
        return z3.Int(self.name(base))

    def fresh_bool(self, base='b'):
        return z3.Bool(self.name(base))

    def fresh_real(self, base='r'):
        return z3.Real(self.name(base))

    def fresh_term(self, base='s'):
        return z3.Const(self.name(base), S)

    def new_oid(self):
        self.oid += 1
        return self.oid

    # -- solving
    def add(self, f):
        if f is True: return
        if f is False:
            f = z3.BoolVal(False)
        self.pc.append(f)
        if self.field is not None: self.field.learn(f)
        self.solver.add(f)
        self.lsolver.add(self.linear(f))
        self.signs()

    fact = add

    def fact_once(self, key, f):
        if key in self.seen: return
        self.seen.add(key)
        self.add(f() if callable(f) else f)

    def fact_once_new(self, key):
        if key in self.seen: return False
        self.seen.add(key)
        return True

    def member_at(self, p, x, m, idx):
        e = self.at(p.term, idx, p.kind)
        self.add(z3.Implies(z3.And(zi(idx) >= zi(p.lo), zi(idx) < zi(p.lo) + zi(p.n), self.it.eqz(e, x)), m))

    NONLIN_MS = 400

    def signs(self):
        """What is known about the products made so far, for the second attempt."""
        if self.opts.get('linear') == 'products': self.product_facts += self.linear.signs
        del self.linear.signs[:]

    def zero(self, z):
        """z is known to be 0: so are its multiples by the quotients (linear arithmetic does not see that)."""
        self.zeros.append(z)
        for v in list(self.quotients.values()): self.lsolver.add(self.linear(v[0] * z) == 0)

    def quotient(self, x, y):
        """(q, r) of the Euclidean division by y > 0: r is a polynomial, q a number."""
        x, y = zi(x), zi(y)
        key = (z3.simplify(x, som=True).get_id(), z3.simplify(y, som=True).get_id())
        if key not in self.quotients:
            self.keep(x)
            self.keep(y)
            q = self.fresh_int('q')
            r = x - q * y
            self.add(z3.Implies(y > 0, z3.And(r >= 0, r < y, (x >= 0) == (q >= 0), (x >= y) == (q >= 1), (x >= 2 * y) == (q >= 2), z3.Implies(q == 0, r == x), z3.Implies(q == 1, r == x - y))))
            for z in self.zeros: self.lsolver.add(self.linear(q * z) == 0)
            self.quotients[key] = q, r, z3.simplify(x, som=True), z3.simplify(y, som=True)
            if z3.is_const(y) and not z3.is_int_value(y):
                # q against the quotients of x by y that the equations at hand suggest (products with y: their sign is what matters)
                for z in self.zeros:
                    for t in (cofactor(x, y) + cofactor(z, y), cofactor(x, y) - cofactor(z, y)):
                        d = q - t
                        dy = self.linear(d * y)
                        d = self.linear(d)
                        self.lsolver.add(z3.Implies(d >= 1, dy >= y), z3.Implies(d <= -1, dy <= -y), z3.Implies(d == 0, dy == 0))
        return self.quotients[key][:2]

    def _check(self, extra, ms, feas=False):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the unit used up')
        t0 = time.time()
        self.stats.queries += 1
        ms *= self.SLOW
        if extra and not self.want_model:
            le = [self.linear(e) for e in extra]
            self.signs()
            if self.linear.nonlinear:
                self.lsolver.set('timeout', min(ms, 3000 * self.SLOW))
                self.lsolver.push()
                for e in le: self.lsolver.add(e)
                r = self.lsolver.check()
                if r != z3.unsat and self.product_facts and not feas:
                    self.lsolver.add(*self.product_facts)
                    r = self.lsolver.check()
                self.lsolver.pop()
                if r == z3.unsat:
                    self.stats.solver_time += time.time() - t0
                    self.model_ = None
                    return r
                if self.opts.get('linear'):         # products of unknowns are opaque in this theorem
                    self.stats.solver_time += time.time() - t0
                    self.model_ = None
                    return z3.unknown
                if feas: ms = min(ms, self.NONLIN_MS)
        self.solver.set('timeout', ms)
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        m = None
        if r == z3.sat and self.want_model:
            m = self.solver.model()
        self.solver.pop()
        self.stats.solver_time += time.time() - t0
        self.model_ = m
        return r

    want_model = False

    def prove(self, f, ms=None):
        """True if pc entails f (incomplete: False means 'not shown')."""
        if isinstance(f, bool): return f
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return self._check([z3.Not(f)], ms or self.PROVE_MS) == z3.unsat

    def quick(self, f):
        return self.prove(f, 1500)

    def feasible(self, f):
        return self._check([f], self.FEAS_MS, True) != z3.unsat

    def assume(self, f):
        if f is True: return
        if f is False: raise PathEnd('assume false')
        self.add(f)

    def branch(self, f):
        """Decide a condition; forks the exploration if both sides are possible."""
        if isinstance(f, SBool): f = f.t
        if isinstance(f, bool): return f
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.taken.append(d)
            if d in ('T', 't'):
                if d == 'T': self.add(f)
                return True
            if d == 'F': self.add(z3.Not(f))
            return False
        t = self._check([f], self.FEAS_MS, True)
        if t == z3.unsat:
            self.taken.append('f')      # forced: negation is entailed
            return False
        e = self._check([z3.Not(f)], self.FEAS_MS, True)
        if e == z3.unsat:
            self.taken.append('t')
            return True
        if t == z3.unknown or e == z3.unknown: self.unknown += 1
        self.pending.append(self.taken + ['F'])
        self.taken.append('T')
        self.add(f)
        return True

    def choose(self, n, label='case'):
        """Nondeterministic choice of 0..n-1 (all explored)."""
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.taken.append(d)
            return d
        for j in range(1, n):
            self.pending.append(self.taken + [j])
        self.taken.append(0)
        return 0

    # -- powers
    def branches(self):
        return sum(1 for d in self.taken if d in ('T', 'F'))

    def split_nb(self, rope, k):
        """rope[:k] without branching when the rope is a single piece."""
        k = tn(k)
        if isinstance(k, int) and k == 0: return EMPTY
        if teq(k, self.rlen(rope)): return rope
        if len(rope.p) == 1:
            p = rope.p[0]
            if isinstance(p, Sl):
                if p.rev: return Rope([Sl(p.term, tn(zi(p.lo) + zi(p.n) - zi(k)), k, p.kind, True)])
                return Rope([Sl(p.term, p.lo, k, p.kind)])
            if isinstance(p, Rep): return Rope([Rep(p.v, k)])
        t = self.toterm(rope)
        n = self.rlen(rope)
        self.fact_once(('len', t.get_id()), lambda: f_len(t) == zi(n))
        return Rope([Sl(t, 0, k, 'byte')])

    def rlz_nb(self, alpha, rope):
        if not rope.p: return 0
        if len(rope.p) == 1 and isinstance(rope.p[0], Sl) and not rope.p[0].rev:
            p = rope.p[0]
            return self.lz(alpha, p.term, p.lo, p.n)
        raise Unsupported('leading zeros')

    def P(self, base, n):
        """base**n for n >= 0 as a term."""
        n = tn(n)
        if isinstance(n, int):
            return base ** n if n >= 0 else 0
        lst = self.pows.setdefault(base, [0] + list(self.opts.get('pow_consts', {}).get(base, ())))
        self.exact = False       # what is known about powers with symbolic exponents is incomplete
        t = f_pow(base, n)
        for m in lst:
            if not isinstance(m, int) and m.eq(n): return t
        self.add(t >= 0)
        self.add(z3.Implies(n >= 0, t >= 1))
        for m in lst:
            self._powrel(base, n, m)
        lst.append(n)
        return t

    def _powrel(self, base, n, m):
        tn_, tm = (base ** m if isinstance(m, int) else f_pow(base, m)), None
        pm = tn_
        pn = f_pow(base, n)
        n, m = zi(n), zi(m)
        # a difference that is a constant is the common case
        d = tn(n - m)
        if isinstance(d, int):
            if d == 0: self.add(pn == pm)
            elif 0 < d <= 80: self.add(z3.Implies(m >= 0, pn == (base ** d) * pm))
            elif -80 <= d < 0: self.add(z3.Implies(n >= 0, pm == (base ** -d) * pn))
            else:
                self.add(z3.Implies(z3.And(m >= 0, n >= 0), (pn > pm) if d > 0 else (pn < pm)))
            return
        self.add(z3.Implies(n == m, pn == pm))
        self.add(z3.Implies(z3.And(m >= 0, n > m), pn >= base * pm))
        self.add(z3.Implies(z3.And(n >= 0, m > n), pm >= base * pn))
        self.add(z3.Implies(z3.And(m >= 0, n == m + 1), pn == base * pm))
        self.add(z3.Implies(z3.And(n >= 0, m == n + 1), pm == base * pn))

    def pow_hint(self, base, consts):
        """Register constant exponents so that symbolic ones are related to them."""
        lst = self.pows.setdefault(base, [0])
        for c in consts:
            if c in lst: continue
            for m in list(lst):
                if not isinstance(m, int): self._powrel(base, m, c)
            lst.append(c)

    # -- opaque sequences
    def new_seq(self, kind, base='s', n=None, lo=0, hi=None):
        t = self.fresh_term(base)
        L = f_len(t)
        if n is None:
            self.add(L >= lo)
            if hi is not None: self.add(L <= hi)
            return Rope([Sl(t, 0, L, kind)])
        self.add(L == zi(n))
        return Rope([Sl(t, 0, tn(n), kind)])

    def term_rope(self, t, kind, n=None):
        """Rope of an opaque term with (known) length n."""
        if n is None:
            n = f_len(t)
            self.fact_once(('len>=0', t.get_id()), lambda: f_len(t) >= 0)
        else:
            n = tn(n)
            self.fact_once(('len', t.get_id()), lambda: f_len(t) == zi(n))
        self.keep(t)
        if isinstance(n, int) and n == 0: return EMPTY
        return Rope([Sl(t, 0, n, kind)])

    _keep = None

    def keep(self, t):
        if self._keep is None: self._keep = []
        self._keep.append(t)

    def at(self, term, idx, kind):
        idx = tn(idx)
        if not isinstance(kind, str):
            key = (type(kind).__name__, term.get_id(), idx if isinstance(idx, int) else zi(idx).get_id())
            if key not in self.made:
                v = kind.make(self, term, idx)
                if not (isinstance(v, SObj) and issubclass(v.cls, tuple)): return v
                v.tag = 'element'
                self.keep(term)
                if not isinstance(idx, int): self.keep(zi(idx))
                self.made[key] = v
            return self.made[key]
        e = f_at(term, zi(idx))
        k = ('at', e.get_id())
        if k not in self.seen:
            self.seen.add(k)
            self.keep(e)
            self.keep(term)
            self.add(z3.And(e >= 0, e <= (255 if kind == 'byte' else 0x10FFFF)))
            for (a, tm, lo, n) in [v for v in self.vals if v[0] == 'valid58' and v[1].eq(term)]:
                self._valid_at(tm, lo, n, idx)
            self.atc.setdefault(term.get_id(), []).append(idx)
            if term.get_id() in self.asciiterms: self.add(e < 128)
            for (p, x, m) in self.members:
                if p.term.eq(term) and p.kind == kind: self.member_at(p, x, m, idx)
        return SInt(e)

    def _valid_at(self, term, lo, n, idx):
        self.add(z3.Implies(z3.And(f_valid[58](term, zi(lo), zi(n)), zi(lo) <= zi(idx), zi(idx) < zi(lo) + zi(n)),
                            isval58(f_at(term, zi(idx)))))

    def aterm(self, term, idx):
        return self.at(term, idx, 'byte').t

    # value of a slice as a number
    def slval(self, alpha, be, term, lo, n, unfold=True):
        lo, n = tn(lo), tn(n)
        if isinstance(n, int):
            if n == 0: return 0
            if n == 1: return digit_of(alpha, self.aterm(term, lo))
        f = f_val(alpha, be)
        t = f(term, zi(lo), zi(n))
        key = ('val', t.get_id())
        if key in self.seen: return t
        self.seen.add(key)
        self.keep(t)
        p = self.P(alpha, n)
        if alpha == 256:
            self.add(z3.And(t >= 0, t < p) if isinstance(n, int) else z3.Implies(zi(n) >= 0, z3.And(t >= 0, t < p)))
        else:
            v = self.valid(term, lo, n)
            self.add(z3.Implies(z3.And(v, zi(n) >= 0), z3.And(t >= 0, t < p)))
            self.add(t >= 0)
        self.add(z3.Implies(zi(n) <= 0, t == 0))
        # relation to slices already known, and one unfolding
        for (k2, tm, lo2, n2) in list(self.vals):
            if k2 == ('val', alpha, be) and tm.eq(term):
                self._valrel(alpha, be, term, lo, n, lo2, n2)
                self._valrel(alpha, be, term, lo2, n2, lo, n)
        self.vals.append((('val', alpha, be), term, lo, n))
        if unfold:
            m = tn(zi(n) - 1)
            if not (isinstance(m, int) and m > 80):
                self.slval(alpha, be, term, lo, m, unfold=(unfold is True and 'two' in self.opts and not isinstance(m, int)) and 'last')
                if isinstance(m, int):
                    self.add(self._valstep(alpha, be, term, lo, m, n))
                elif alpha == 256:
                    pm = self.P(alpha, m)
                    d = self.aterm(term, lo if be else tn(zi(lo) + m))
                    for c in (1, 128): self.add(z3.Implies(zi(n) >= 1, (d >= c) == (t >= c * pm)))
        return t

    def _valstep(self, alpha, be, term, lo, m, n):
        """val(lo, m+1) from val(lo, m)."""
        f = f_val(alpha, be)
        d = digit_of(alpha, self.aterm(term, tn(zi(lo) + zi(m))))
        small = f(term, zi(lo), zi(m)) if not (isinstance(m, int) and m <= 1) else (
            z3.IntVal(0) if m == 0 else zi(digit_of(alpha, self.aterm(term, lo))))
        big = f(term, zi(lo), zi(n)) if not (isinstance(n, int) and n <= 1) else zi(d)
        if be: return big == alpha * small + d
        return big == small + zi(self.P(alpha, m)) * d

    def _valrel(self, alpha, be, term, lo, n, lo2, n2):
        """If (lo2,n2) is (lo, n-1): relate."""
        if teq(lo, lo2):
            d = tn(zi(n) - zi(n2))
            if isinstance(d, int):
                if d == 1:
                    self.add(z3.Implies(zi(n2) >= 0, self._valstep(alpha, be, term, lo, n2, n)))
                elif 1 < d <= 40:
                    # longer common prefix: split into prefix and rest
                    f = f_val(alpha, be)
                    rest = zi(self.slval(alpha, be, term, tn(zi(lo) + zi(n2)), d, unfold=False))
                    big = f(term, zi(lo), zi(n))
                    small = f(term, zi(lo), zi(n2))
                    if isinstance(n2, int) and n2 <= 1: return
                    eqn = (big == (alpha ** d) * small + rest) if be else (big == small + zi(self.P(alpha, n2)) * rest)
                    self.add(z3.Implies(zi(n2) >= 0, eqn))
            else:
                self.add(z3.Implies(z3.And(zi(n2) >= 0, zi(n) == zi(n2) + 1),
                                    self._valstep(alpha, be, term, lo, n2, n)))
        elif teq(zi(lo) + 1, lo2):
            # same end, one more element in front
            d = tn(zi(n) - zi(n2))
            if isinstance(d, int) and d != 1: return
            f = self._valfront(alpha, be, term, lo, n2, n)
            g = zi(n2) >= 0 if isinstance(d, int) else z3.And(zi(n2) >= 0, zi(n) == zi(n2) + 1)
            self.add(z3.Implies(g, f))

    def _valfront(self, alpha, be, term, lo, m, n):
        """val(lo, m+1) from val(lo+1, m)."""
        f = f_val(alpha, be)
        d = zi(digit_of(alpha, self.aterm(term, lo)))
        lo2 = tn(zi(lo) + 1)
        small = f(term, zi(lo2), zi(m)) if not (isinstance(m, int) and m <= 1) else (
            z3.IntVal(0) if m == 0 else zi(digit_of(alpha, self.aterm(term, lo2))))
        big = f(term, zi(lo), zi(n)) if not (isinstance(n, int) and n <= 1) else d
        if be: return big == d * zi(self.P(alpha, m)) + small
        return big == alpha * small + d

    def valid(self, term, lo, n):
        """All elements of the slice are base58 characters."""
        lo, n = tn(lo), tn(n)
        v = f_valid[58](term, zi(lo), zi(n))
        key = ('valid', v.get_id())
        if key in self.seen: return v
        self.seen.add(key)
        self.keep(v)
        self.add(z3.Implies(zi(n) <= 0, v))
        for (k2, tm, lo2, n2) in list(self.vals):
            if k2 == 'valid58' and tm.eq(term) and teq(lo, lo2):
                for (a, b) in ((n, n2), (n2, n)):
                    self.add(z3.Implies(z3.And(zi(b) >= 0, zi(a) == zi(b) + 1),
                                        f_valid[58](term, zi(lo), zi(a)) ==
                                        z3.And(f_valid[58](term, zi(lo), zi(b)),
                                               isval58(self.aterm(term, tn(zi(lo) + zi(b)))))))
        self.vals.append(('valid58', term, lo, n))
        for idx in self.atc.get(term.get_id(), []):
            self._valid_at(term, lo, n, idx)
        return v

    def lz(self, alpha, term, lo, n):
        """Number of leading zero digits of the slice (which must be valid digits)."""
        lo, n = tn(lo), tn(n)
        t = f_lz[alpha](term, zi(lo), zi(n))
        key = ('lz', t.get_id())
        if key in self.seen: return t
        self.seen.add(key)
        self.keep(t)
        v = self.slval(alpha, True, term, lo, n)
        g = z3.And(zi(n) >= 0, self.valid(term, lo, n)) if alpha == 58 else (zi(n) >= 0)
        k = tn(zi(n) - t)
        p1 = self.P(alpha, k)
        p0 = self.P(alpha, tn(zi(k) - 1))
        self.add(z3.Implies(g, z3.And(t >= 0, t <= zi(n), zi(v) < p1, z3.Implies(zi(k) > 0, zi(v) >= p0))))
        return t

    def ndig(self, alpha, v):
        """Number of digits of v >= 0 without leading zeros (0 for 0)."""
        if isinstance(v, int):
            k = 0
            while v >= alpha ** k: k += 1
            return k
        f = z3.Function('ndig%d' % alpha, I, I)
        t = f(v)
        key = ('ndig', t.get_id())
        if key in self.seen: return t
        self.seen.add(key)
        self.keep(t)
        p1 = self.P(alpha, t)
        p0 = self.P(alpha, tn(t - 1))
        self.add(t >= 0)
        self.add(z3.Implies(v >= 0, z3.And(v < p1, z3.Implies(t > 0, v >= p0))))
        return t

    # ------------------------------------------------------------------------------------------
    # ropes

    def plen(self, p):
        if isinstance(p, Elems): return len(p.v)
        if isinstance(p, (Sl, Enc, Rep, Lam)): return p.n
        if isinstance(p, Hex): return tn(2 * zi(self.rlen(p.rope)))
        if isinstance(p, Dec):
            t = f_dec(p.v)
            self.fact_once(('declen', t.get_id()), lambda: f_len(t) >= 1)
            self.keep(t)
            return f_len(t)
        if isinstance(p, Flat):
            t = self.toterm(Rope([p]))
            self.fact_once(('len>=0', t.get_id()), lambda: f_len(t) >= 0)
            return f_len(t)
        raise Unsupported('length of %r' % (p,))

    def rlen(self, rope):
        n = 0
        for p in rope.p:
            k = self.plen(p)
            n = n + k if isinstance(n, int) and isinstance(k, int) else zi(n) + zi(k)
        return tn(n)

    def norm(self, rope):
        """Merge adjacent pieces and drop empty ones."""
        out = []
        for p in rope.p:
            if isinstance(p, Elems):
                if not p.v: continue
                if out and isinstance(out[-1], Elems):
                    out[-1] = Elems(out[-1].v + p.v)
                    continue
                if len(p.v) == 1 and out and isinstance(out[-1], Sl) and not out[-1].rev and out[-1].kind == 'byte':
                    q, e = out[-1], p.v[0]
                    if isinstance(e, SInt) and e.t.eq(f_at(q.term, zi(tn(zi(q.lo) + zi(q.n))))):
                        out[-1] = Sl(q.term, q.lo, tn(zi(q.n) + 1), q.kind)
                        continue
            elif isinstance(p, (Sl, Flat, Lam, Rep, Enc)) and isinstance(p.n, int) and p.n == 0:
                continue
            elif isinstance(p, Hex) and not p.rope.p:
                continue
            if isinstance(p, Sl) and out and isinstance(out[-1], Sl) and out[-1].term.eq(p.term) and out[-1].rev == p.rev:
                q = out[-1]
                if not p.rev and teq(zi(q.lo) + zi(q.n), zi(p.lo)):
                    out[-1] = Sl(q.term, q.lo, tn(zi(q.n) + zi(p.n)), q.kind)
                    continue
                if p.rev and teq(zi(p.lo) + zi(p.n), zi(q.lo)):
                    out[-1] = Sl(q.term, p.lo, tn(zi(q.n) + zi(p.n)), q.kind, True)
                    continue
            if isinstance(p, Flat) and out and isinstance(out[-1], Flat) and out[-1].term.eq(p.term) and out[-1].f == p.f:
                q = out[-1]
                if teq(zi(q.lo) + zi(q.n), zi(p.lo)):
                    out[-1] = Flat(q.f, q.term, q.lo, tn(zi(q.n) + zi(p.n)), q.kind)
                    continue
            if isinstance(p, Lam) and out and isinstance(out[-1], Lam) and out[-1].key == p.key:
                q = out[-1]
                if teq(zi(q.lo) + zi(q.n), zi(p.lo)):
                    out[-1] = Lam(q.fn, q.lo, tn(zi(q.n) + zi(p.n)), q.key)
                    continue
            if isinstance(p, Rep) and out and isinstance(out[-1], Rep) and p.v is out[-1].v or (
                    isinstance(p, Rep) and out and isinstance(out[-1], Rep) and isinstance(p.v, int) and
                    isinstance(out[-1].v, int) and p.v == out[-1].v):
                q = out[-1]
                out[-1] = Rep(q.v, tn(zi(q.n) + zi(p.n)))
                continue
            if isinstance(p, Hex) and out and isinstance(out[-1], Hex):
                out[-1] = Hex(self.norm(Rope(out[-1].rope.p + p.rope.p)))
                continue
            out.append(p)
        # leading zero digits of a big-endian number are part of it
        return Rope(out)

    def cat(self, *ropes):
        ps = ()
        for r in ropes: ps += r.p
        return self.norm(Rope(ps))

    def elems(self, rope):
        """The elements of a rope of known length (list of values)."""
        out = []
        for p in rope.p:
            n = self.plen(p)
            if not isinstance(n, int):
                n = self.known_len(n)
                if n is None: raise Unsupported('elements of a sequence of unknown length')
            for k in range(n):
                out.append(self.pat(p, k))
        return out

    def known_len(self, n):
        """Constant value of a length term if the path fixes it."""
        n = tn(n)
        if isinstance(n, int): return n
        self.want_model = True
        r = self._check([], self.FEAS_MS)
        m = self.model_
        self.want_model = False
        if r != z3.sat: return None
        c = m.eval(n, model_completion=True).as_long()
        return c if self.prove(n == c) else None

    def pat(self, p, off):
        """Element `off` of piece p (in range)."""
        off = tn(off)
        if isinstance(p, Elems):
            if isinstance(off, int): return p.v[off]
            vs = p.v
            if all(is_int(v) for v in vs):
                t = zi(T(vs[-1]))
                for k in range(len(vs) - 2, -1, -1): t = z3.If(off == k, zi(T(vs[k])), t)
                return mk(t)
            for k in range(len(vs) - 1):
                if self.branch(off == k): return vs[k]
            return vs[-1]
        if isinstance(p, Sl):
            i = tn(zi(p.lo) + zi(p.n) - 1 - zi(off)) if p.rev else tn(zi(p.lo) + zi(off))
            return self.at(p.term, i, p.kind)
        if isinstance(p, Enc):
            k = tn(zi(p.n) - 1 - zi(off)) if p.be else off
            pw = self.P(p.alpha, k)
            if isinstance(p.v, int) and isinstance(pw, int): return elem_of(p.alpha, (p.v // pw) % p.alpha)
            if isinstance(pw, int):
                return mk(zi(elem_of(p.alpha, (zi(p.v) / pw) % p.alpha)))
            if teq(zi(k) + 1, p.n):
                q, low = self.topdigit(p.alpha, p.v, k)
                return mk(zi(elem_of(p.alpha, q)))
            if teq(zi(k) + 2, p.n):
                q, low = self.topdigit(p.alpha, p.v, tn(zi(k) + 1))
                q, low = self.topdigit(p.alpha, low, k)
                return mk(zi(elem_of(p.alpha, q)))
            q = z3.Function('digit%d' % p.alpha, I, I, I)(zi(p.v), zi(k))
            self.fact_once(('dig', q.get_id()), lambda: z3.And(q >= 0, q < p.alpha))
            self.keep(q)
            self.exact = False
            return mk(zi(elem_of(p.alpha, q)))
        if isinstance(p, Rep):
            return p.v
        if isinstance(p, Lam):
            return p.fn(tn(zi(p.lo) + zi(off)))
        if isinstance(p, Hex):
            if isinstance(off, int):
                b = self.rat(p.rope, off // 2)
                t = T(b)
                d = (t >> 4 if off % 2 == 0 else t & 15) if isinstance(t, int) else (t / 16 if off % 2 == 0 else t % 16)
                if isinstance(d, int): return ord('0123456789abcdef'[d])
                return mk(z3.If(d < 10, d + 48, d + 87))
        t = self.toterm(Rope([p]))
        return self.at(t, off, 'byte')

    def flat_grow(self, p):
        self.flat_steps = getattr(self, 'flat_steps', 0) + 1
        return self.flat_steps < 200

    def flat_first(self, p):
        """A non-empty Flat piece with its first element spelled out."""
        if not self.prove(Lt(0, p.n)): raise Unsupported('first element of a concatenation')
        r = FLATS[p.f][0](self.it, self.at(p.term, p.lo, p.kind))
        rest = Flat(p.f, p.term, tn(zi(p.lo) + 1), tn(zi(p.n) - 1), p.kind)
        a, b = f_len(self.pterm(p)), zi(self.rlen(r)) + f_len(self.pterm(rest))
        self.add(a == b)
        return Rope(r.p + (rest,))

    def rat(self, rope, i):
        """Element i (0 <= i < len known to hold)."""
        acc = 0
        ps = rope.p
        for k, p in enumerate(ps):
            n = self.plen(p)
            if isinstance(p, Flat) and (k == len(ps) - 1 or self.decide(Lt(i, tn(zi(acc) + zi(n))))):
                if not self.flat_grow(p): raise Unsupported('element of a concatenation')
                return self.rat(self.flat_first(p), tn(zi(i) - zi(acc)))
            if k == len(ps) - 1 or self.decide(Lt(i, tn(zi(acc) + zi(n)))):
                return self.pat(p, tn(zi(i) - zi(acc)))
            acc = tn(zi(acc) + zi(n))
        raise Unsupported('element of an empty sequence')

    def decide(self, f):
        if isinstance(f, bool): return f
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return self.branch(f)

    def psplit(self, p, k):
        """Split piece at 0 < k < len."""
        k = tn(k)
        if isinstance(p, Elems):
            if not isinstance(k, int): raise Unsupported('symbolic split of explicit elements')
            return Elems(p.v[:k]), Elems(p.v[k:])
        rest = tn(zi(self.plen(p)) - zi(k))
        if isinstance(p, Sl):
            if p.rev:
                return (Sl(p.term, tn(zi(p.lo) + zi(rest)), k, p.kind, True), Sl(p.term, p.lo, rest, p.kind, True))
            return Sl(p.term, p.lo, k, p.kind), Sl(p.term, tn(zi(p.lo) + zi(k)), rest, p.kind)
        if isinstance(p, Rep):
            return Rep(p.v, k), Rep(p.v, rest)
        if isinstance(p, Lam):
            return Lam(p.fn, p.lo, k, p.key), Lam(p.fn, tn(zi(p.lo) + zi(k)), rest, p.key)
        if isinstance(p, Flat):
            raise Unsupported('split of a concatenation')
        if isinstance(p, Enc):
            # LE: low k digits first.  BE: high digits first.
            if p.be and teq(k, 1):
                hi, lo = self.topdigit(p.alpha, p.v, rest)
                return Enc(p.alpha, hi, 1, True), Enc(p.alpha, lo, rest, True)
            if not p.be and teq(rest, 1):
                hi, lo = self.topdigit(p.alpha, p.v, k)
                return Enc(p.alpha, lo, k, False), Enc(p.alpha, hi, 1, False)
            if p.be:
                pw = self.P(p.alpha, rest)
                hi, lo = self.divmod_(p.v, pw)
                return Enc(p.alpha, hi, k, True), Enc(p.alpha, lo, rest, True)
            pw = self.P(p.alpha, k)
            hi, lo = self.divmod_(p.v, pw)
            return Enc(p.alpha, lo, k, False), Enc(p.alpha, hi, rest, False)
        if isinstance(p, Hex):
            if isinstance(k, int) and k % 2 == 0:
                a, b = self.split(p.rope, k // 2)
                return Hex(a), Hex(b)
        t = self.toterm(Rope([p]))
        n = self.plen(p)
        self.fact_once(('len', t.get_id()), lambda: f_len(t) == zi(n))
        return Sl(t, 0, k, 'byte'), Sl(t, k, rest, 'byte')

    def topdigit(self, alpha, v, k):
        """(digit k, the number formed by the lower digits) of 0 <= v < alpha**(k+1)."""
        pw = self.P(alpha, k)
        if isinstance(v, int) and isinstance(pw, int): return v // pw, v % pw
        if isinstance(pw, int): return tn(zi(v) / pw), tn(zi(v) % pw)
        v = zi(v)
        q = z3.Function('top%d' % alpha, I, I, I)(v, zi(k))
        r = z3.Function('low%d' % alpha, I, I, I)(v, zi(k))
        if self.fact_once_new(('top', q.get_id())):
            self.keep(q)
            p1 = self.P(alpha, tn(zi(k) + 1))
            g = z3.And(v >= 0, v < p1, zi(k) >= 0)
            self.add(z3.And(q >= 0, q < alpha, r >= 0))
            self.add(z3.Implies(g, z3.And(v == q * pw + r, r < pw)))
            for c in (1, alpha // 2): self.add(z3.Implies(g, (q >= c) == (v >= c * pw)))
        return q, r

    def divmod_(self, v, d):
        if isinstance(v, int) and isinstance(d, int): return v // d, v % d
        if isinstance(d, int): return tn(zi(v) / d), tn(zi(v) % d)
        q, r = self.fresh_int('q'), self.fresh_int('r')
        self.add(z3.Implies(d >= 1, z3.And(zi(v) == q * d + r, r >= 0, r < d, z3.Implies(zi(v) >= 0, q >= 0))))
        return q, r

    def split(self, rope, k):
        """(rope[:k], rope[k:]) for 0 <= k <= len (known)."""
        k = tn(k)
        if isinstance(k, int) and k == 0: return EMPTY, rope
        acc = 0
        left = []
        ps = list(rope.p)
        total = self.rlen(rope)
        if teq(k, total): return rope, EMPTY
        for j, p in enumerate(ps):
            n = self.plen(p)
            end = tn(zi(acc) + zi(n))
            if teq(k, end): return Rope(left + [p]), Rope(ps[j + 1:])
            if self.decide(Le(end, k)):
                left.append(p)
                acc = end
                continue
            off = tn(zi(k) - zi(acc))
            if self.decide(Le(off, 0)): return Rope(left), Rope(ps[j:])
            if isinstance(p, Flat):
                if not self.flat_grow(p): raise Unsupported('split of a concatenation')
                a, b = self.split(Rope(self.flat_first(p).p + tuple(ps[j + 1:])), off)
                return self.norm(Rope(tuple(left) + a.p)), b
            if isinstance(p, Elems) and not isinstance(off, int):
                kk = self.known_len(off)
                if kk is None:
                    for c in range(1, len(p.v)):
                        if c == len(p.v) - 1 or self.branch(off == c):
                            kk = c
                            break
                off = kk
            a, b = self.psplit(p, off)
            return Rope(left + [a]), Rope([b] + ps[j + 1:])
        return rope, EMPTY

    def rev(self, rope):
        out = []
        for p in reversed(rope.p):
            if isinstance(p, Elems): out.append(Elems(p.v[::-1]))
            elif isinstance(p, Sl): out.append(Sl(p.term, p.lo, p.n, p.kind, not p.rev))
            elif isinstance(p, Enc): out.append(Enc(p.alpha, p.v, p.n, not p.be))
            elif isinstance(p, Rep): out.append(p)
            else:
                t = self.toterm(Rope([p]))
                n = self.plen(p)
                self.fact_once(('len', t.get_id()), lambda: f_len(t) == zi(n))
                out.append(Sl(t, 0, n, 'byte', True))
        return self.norm(Rope(out))

    # numeric value
    def val(self, alpha, rope, be):
        acc, mult = 0, 1
        for p in rope.p:
            n = self.plen(p)
            if isinstance(p, Elems):
                for e in p.v:
                    d = digit_of(alpha, T(e))
                    if be: acc = self.mul(acc, alpha, d)
                    else:
                        acc = self.mul(d, mult, acc)
                        mult = tn(zi(mult) * alpha)
                continue
            if isinstance(p, Sl):
                v = self.slval(alpha, be != p.rev, p.term, p.lo, p.n)
            elif isinstance(p, Enc) and p.alpha == alpha:
                if p.be == be or teq(p.n, 1): v = p.v
                else:
                    t = self.toterm(Rope([p]))
                    self.fact_once(('len', t.get_id()), lambda: f_len(t) == zi(n))
                    v = self.slval(alpha, be, t, 0, n)
            elif isinstance(p, Rep) and isinstance(p.v, int) and digit_of(alpha, p.v) == 0:
                v = 0
            else:
                t = self.toterm(Rope([p]))
                self.fact_once(('len', t.get_id()), lambda: f_len(t) == zi(n))
                v = self.slval(alpha, be, t, 0, n)
            pw = self.P(alpha, n)
            if be: acc = self.mul(acc, pw, v)
            else:
                acc = self.mul(v, mult, acc)
                mult = tn(zi(mult) * zi(pw))
        return tn(acc)

    @staticmethod
    def mul(a, b, c):
        """a*b + c"""
        if isinstance(a, int) and a == 0: return c
        if isinstance(a, int) and isinstance(b, int) and isinstance(c, int): return a * b + c
        return zi(a) * zi(b) + zi(c)

    def allvalid(self, alpha, rope):
        if alpha == 256: return True
        cs = []
        for p in rope.p:
            if isinstance(p, Elems): cs += [isval58(T(e)) for e in p.v]
            elif isinstance(p, Sl): cs.append(self.valid(p.term, p.lo, p.n))
            elif isinstance(p, Enc) and p.alpha == 58: pass
            elif isinstance(p, Rep): cs.append(Or(isval58(T(p.v)), Le(p.n, 0)))
            else:
                t = self.toterm(Rope([p]))
                cs.append(self.valid(t, 0, self.plen(p)))
        return And(*cs)

    def rlz(self, alpha, rope):
        """Leading zero digits of a rope of valid digits."""
        rope = self.norm(rope)
        if not rope.p: return 0
        p = rope.p[0]
        rest = Rope(rope.p[1:])
        if isinstance(p, Rep) and isinstance(p.v, int) and digit_of(alpha, p.v) == 0:
            return tn(zi(p.n) + zi(self.rlz(alpha, rest)))
        if isinstance(p, Elems):
            k = 0
            for e in p.v:
                d = digit_of(alpha, T(e))
                if self.branch(Eq(d, 0)): k += 1
                else: return k
            return tn(k + zi(self.rlz(alpha, rest)))
        if isinstance(p, Enc) and p.alpha == alpha and p.be:
            # number of leading zeros = n - ndig(v)
            k = tn(zi(p.n) - zi(self.ndig(alpha, p.v)))
            nd = self.ndig(alpha, p.v)
            self._ndig_le(alpha, p.v, p.n)
            if not rest.p: return k
            if self.branch(Eq(p.v, 0)): return tn(zi(p.n) + zi(self.rlz(alpha, rest)))
            return k
        if not rest.p and isinstance(p, Sl) and not p.rev:
            return self.lz(alpha, p.term, p.lo, p.n)
        t = self.toterm(rope)
        n = self.rlen(rope)
        self.fact_once(('len', t.get_id()), lambda: f_len(t) == zi(n))
        return self.lz(alpha, t, 0, n)

    def _ndig_le(self, alpha, v, n):
        """0 <= v < alpha**n implies ndig(v) <= n (by the power facts)."""
        nd = self.ndig(alpha, v)
        self.P(alpha, n)

    # ------------------------------------------------------------------------------------------
    # ropes as opaque terms

    def toterm(self, rope):
        rope = self.norm(rope)
        if not rope.p: 
            self.fact_once('epslen', lambda: f_len(c_eps) == 0)
            return c_eps
        ts = []
        for p in rope.p:
            ts.append(self.pterm(p))
        t = ts[-1]
        for x in reversed(ts[:-1]): t = f_cat(x, t)
        if len(ts) > 1:
            n = self.rlen(rope)
            self.fact_once(('len', t.get_id()), lambda: f_len(t) == zi(n))
            self.keep(t)
        return t

    def pterm(self, p):
        if isinstance(p, Elems):
            if all(isinstance(e, int) for e in p.v):
                t = z3.Const('lit_%s' % '_'.join('%x' % e for e in p.v), S)
                lits = self.opts.setdefault('_lits', {})
                if id(self) not in lits: lits.clear(); lits[id(self)] = {}
                reg = lits[id(self)]
                if p.v not in reg:
                    for w, u in reg.items():
                        self.add(t != u)
                    reg[p.v] = t
                    self.add(f_len(t) == len(p.v))
                    for k, e in enumerate(p.v[:64]): self.add(f_at(t, k) == e)
                return t
            ts = []
            for e in p.v:
                if is_int(e): ts.append(f_unit(zi(T(e))))
                else: ts.append(self.objterm(e))
            t = ts[-1]
            for x in reversed(ts[:-1]): t = f_cat(x, t)
            n = len(p.v)
            self.fact_once(('len', t.get_id()), lambda: f_len(t) == n)
            self.keep(t)
            return t
        if isinstance(p, Sl):
            if not p.rev and teq(p.lo, 0):
                L = f_len(p.term)
                if teq(p.n, L) or self.quick(L == zi(p.n)):
                    return p.term
            f = f_rslice if p.rev else f_slice
            t = f(p.term, zi(p.lo), zi(p.n))
            self.fact_once(('len', t.get_id()), lambda: f_len(t) == zi(p.n))
            self.keep(t)
            if not p.rev: self.fact_once(('slt', t.get_id()), lambda: z3.Implies(z3.And(zi(p.lo) == 0, zi(p.n) == f_len(p.term)), t == p.term))
            return t
        if isinstance(p, Enc): t = f_enc(p.alpha, zi(p.v), zi(p.n), bool(p.be))
        elif isinstance(p, Rep):
            t = f_rep(zi(T(p.v)), zi(p.n)) if is_int(p.v) else z3.Function('repo', S, I, S)(self.objterm(p.v), zi(p.n))
        elif isinstance(p, Hex): t = f_hex(self.toterm(p.rope))
        elif isinstance(p, Dec): return f_dec(zi(p.v))
        elif isinstance(p, Flat):
            t = z3.Function('flat_' + p.f, S, I, I, S)(p.term, zi(p.lo), zi(p.n))
            self.keep(t)
            least = FLATS[p.f][1]
            self.fact_once(('flatlen', t.get_id()), lambda: z3.And(f_len(t) >= 0, f_len(t) >= least * zi(p.n), z3.Implies(zi(p.n) <= 0, f_len(t) == 0)))
            return t
        elif isinstance(p, Lam): t = z3.Const('lam_%s' % p.key, S); t = f_slice(t, zi(p.lo), zi(p.n))
        else: raise Unsupported('term of %r' % (p,))
        self.keep(t)
        n = self.plen(p)
        self.fact_once(('len', t.get_id()), lambda: f_len(t) == zi(n))
        return t

    def objterm(self, v):
        """Opaque term of an element value (injective encoding)."""
        if isinstance(v, SBytes) or isinstance(v, HBytes): return z3.Function('objB', S, S)(self.toterm(v.rope))
        if isinstance(v, bytes): return z3.Function('objB', S, S)(self.toterm(Rope([Elems(v)])))
        if is_int(v): return f_unit(zi(T(v)))
        if v is None: return z3.Const('objNone', S)
        if isinstance(v, SObj):
            t = z3.Const('obj_%s' % v.cls.__name__, S)
            for k in sorted(v.fields): t = f_cat(t, self.objterm(v.fields[k]))
            return t
        if isinstance(v, tuple):
            t = z3.Const('tup%d' % len(v), S)
            for e in v: t = f_cat(t, self.objterm(e))
            return t
        if isinstance(v, (STuple, HList)): return z3.Function('objL', S, S)(self.toterm(v.rope))
        if isinstance(v, SStr): return z3.Function('objT', S, S)(self.toterm(v.rope))
        if isinstance(v, str): return z3.Function('objT', S, S)(self.toterm(Rope([Elems(map(ord, v))])))
        raise Unsupported('term of element %r' % (type(v),))
