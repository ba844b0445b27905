"""Symbolic interpreter for the Python subset, run on the ASTs of the real function objects."""
import ast
import builtins
import functools
import inspect
import linecache
import os
import types
import z3

from .core import *
from . import core
from .eqs import rope_eq

REPO = os.environ.get('PYDV_REPO', '/repo') + '/'
SPECS = ('/verif/specs/', '/verif/pydv/lang.py')

# ----------------------------------------------------------------------------------------------
# locating the AST of a real function

_files = {}


def file_index(fn):
    if fn not in _files:
        with open(fn, 'rb') as h:
            src = h.read()
        tree = ast.parse(src)
        idx = {}
        stack = [(tree, '', None)]
        while stack:
            node, qual, cls = stack.pop()
            for ch in ast.iter_child_nodes(node):
                q, c = qual, cls
                if isinstance(ch, (ast.FunctionDef,)):
                    q = (qual + '.' if qual else '') + ch.name
                    line = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                    idx.setdefault(('def', ch.name, line), []).append((ch, cls))
                    q += '.<locals>'
                elif isinstance(ch, ast.Lambda):
                    idx.setdefault(('lambda', ch.lineno), []).append((ch, cls))
                elif isinstance(ch, ast.ClassDef):
                    q = (qual + '.' if qual else '') + ch.name
                    c = ch.name
                stack.append((ch, q, c))
        _files[fn] = (tree, idx)
    return _files[fn]


def node_of(func):
    """(AST node, name of the enclosing class) of a real function object."""
    code = func.__code__
    fn = code.co_filename
    if not fn.startswith(REPO) and not fn.startswith(SPECS) and 'functools' not in fn:
        raise Unsupported('no source for %s' % func.__qualname__)
    tree, idx = file_index(fn)
    if code.co_name == '<lambda>':
        cands = idx.get(('lambda', code.co_firstlineno), [])
        if len(cands) > 1:
            pos = [p for p in code.co_positions() if p[0] is not None]
            good = []
            for n, c in cands:
                b = n.body
                if any((p[0], p[2]) == (b.lineno, b.col_offset) and (p[1], p[3]) == (b.end_lineno, b.end_col_offset) for p in pos):
                    good.append((n, c))
            cands = good
    else:
        cands = idx.get(('def', code.co_name, code.co_firstlineno), [])
    if len(cands) != 1:
        raise Unsupported('cannot locate the source of %s' % func.__qualname__)
    return cands[0]


class ReturnEx(Exception):
    def __init__(self, v): self.v = v


class BreakEx(Exception): pass
class ContinueEx(Exception): pass


class Restart(Exception):
    """The unit has learned something (havoc set, dead invariant) and must be explored again."""


class Env(object):
    __slots__ = ('vars', 'parent', 'globs', 'fname', 'cls', 'selfv', 'local', 'clsobj')
    def __init__(self, globs, parent=None, fname='', cls=None):
        self.vars, self.parent, self.globs, self.fname, self.cls = {}, parent, globs, fname, cls
        self.local = None
        self.selfv = None
        self.clsobj = None


class Poison(Sym):
    __slots__ = ('why',)
    def __init__(self, why): self.why = why


class CellNS(object):
    """Environment made of the closure cells of a real function."""
    def __init__(self, func):
        self.names = func.__code__.co_freevars
        self.cells = func.__closure__ or ()

    def get(self, n):
        if n in self.names:
            return True, self.cells[self.names.index(n)].cell_contents
        return False, None


def assigned_names(fn):
    """Names local to a function body (assignment targets, loops, imports, defs), not nested scopes."""
    out = set()
    glob = set()

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and not top:
            for g in ast.walk(n):
                if isinstance(g, ast.NamedExpr): out.add(g.target.id)
            if isinstance(n, ast.Lambda): return
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        if isinstance(n, (ast.Global, ast.Nonlocal)): glob.update(n.names)
        for ch in ast.iter_child_nodes(n):
            visit(ch)
    if isinstance(fn, ast.Lambda):
        return set()
    for s in fn.body: visit(s)
    return out - glob


_MISSING = object()


def integral(t):
    """Whether a real term is an integer by its form."""
    if z3.is_rational_value(t): return t.denominator_as_long() == 1
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL): return True
    if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS): return all(integral(x) for x in t.children())
    return False


def as_int(t):
    """The integer an integral() term stands for."""
    if z3.is_rational_value(t): return z3.IntVal(t.numerator_as_long())
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL): return t.arg(0)
    xs = [as_int(x) for x in t.children()]
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD: return z3.Sum(xs)
    if k == z3.Z3_OP_MUL: return z3.Product(xs)
    if k == z3.Z3_OP_UMINUS: return -xs[0]
    r = xs[0]
    for x in xs[1:]: r = r - x
    return r


class Interp(object):
    MAXDEPTH = 60
    UNROLL = 300

    def __init__(self, ctx, unit):
        self.ctx = ctx
        self.mags = {}
        self.unit = unit            # Unit driver: contracts, loop knowledge
        self.depth = 0
        self.flat_budget = 40
        self.strict = False     # objects are compared by class and contents, not by __eq__
        self.mutlog = []            # stack of (limit oid, set) for loop bodies
        self.steps = 0
        self.callstack = []
        self.quiet = 0
        self.in_spec = 0
        ctx.it = self

    # ------------------------------------------------------------------------------------------
    # helpers for values

    def raise_(self, cls, *args):
        raise PyExc(SObj(cls, {'args': tuple(args)}, self.ctx.new_oid()))

    def new_list(self, rope): return HList(rope, self.ctx.new_oid())
    def list_of(self, vals): return HList(Rope([Elems(vals)]) if vals else EMPTY, self.ctx.new_oid())
    def new_bytearray(self, rope, cls=bytearray): return HBytes(rope, cls, self.ctx.new_oid())

    def mkbytes(self, rope):
        rope = self.ctx.norm(rope)
        if all(isinstance(p, Elems) and all(type(e) is int for e in p.v) for p in rope.p):
            return bytes([e for p in rope.p for e in p.v])
        return SBytes(rope)

    def mkstr(self, rope):
        rope = self.ctx.norm(rope)
        if all(isinstance(p, Elems) and all(type(e) is int for e in p.v) for p in rope.p):
            return ''.join(chr(e) for p in rope.p for e in p.v)
        return SStr(rope)

    def mktuple(self, rope):
        rope = self.ctx.norm(rope)
        if all(isinstance(p, Elems) for p in rope.p):
            return tuple(e for p in rope.p for e in p.v)
        return STuple(rope)

    def pytype(self, v):
        if isinstance(v, SInt): return int
        if isinstance(v, SBool): return bool
        if isinstance(v, SBytes): return bytes
        if isinstance(v, (SStr, OText)): return str
        if isinstance(v, STuple): return tuple
        if isinstance(v, HBytes): return v.cls
        if isinstance(v, HList): return list
        if isinstance(v, HDict): return dict
        if isinstance(v, HSet): return set
        if isinstance(v, SReal): return float
        if isinstance(v, SObj): return v.cls
        if isinstance(v, Func): return types.FunctionType
        if isinstance(v, (Bound, BMeth)): return types.MethodType
        if isinstance(v, SRange): return range
        if isinstance(v, (SIter, Lazy)): return types.GeneratorType
        if isinstance(v, Poison): raise Unsupported('value not tracked through a loop: %s' % v.why)
        if isinstance(v, Sym): raise Unsupported('type of %r' % (type(v),))
        return type(v)

    def isinst(self, v, cls):
        if isinstance(cls, tuple): return any(self.isinst(v, c) for c in cls)
        if isinstance(cls, (HList, STuple)): raise Unsupported('isinstance with %r' % cls)
        return issubclass(self.pytype(v), cls)

    def conc(self, v):
        """(True, python value) if the value is fully concrete."""
        if isinstance(v, Sym):
            if isinstance(v, HList):
                xs = []
                for p in v.rope.p:
                    if not isinstance(p, Elems): return False, None
                    for e in p.v:
                        ok, c = self.conc(e)
                        if not ok: return False, None
                        xs.append(c)
                return True, xs
            if isinstance(v, HBytes):
                xs = []
                for p in v.rope.p:
                    if not isinstance(p, Elems): return False, None
                    for e in p.v:
                        if not isinstance(e, int): return False, None
                        xs.append(e)
                return True, v.cls(xs)
            if isinstance(v, HDict):
                d = {}
                for k, x in v.items:
                    ok, kk = self.conc(k)
                    ok2, xx = self.conc(x)
                    if not (ok and ok2): return False, None
                    d[kk] = xx
                return True, d
            if isinstance(v, HSet):
                xs = set()
                for x in v.items:
                    ok, xx = self.conc(x)
                    if not ok: return False, None
                    xs.add(xx)
                return True, xs
            return False, None
        if type(v) is tuple:
            xs = []
            for e in v:
                ok, c = self.conc(e)
                if not ok: return False, None
                xs.append(c)
            return True, tuple(xs)
        if isinstance(v, slice):
            xs = [self.conc(x) for x in (v.start, v.stop, v.step)]
            if not all(o for o, _ in xs): return False, None
            return True, slice(*[c for _, c in xs])
        return True, v

    def lift(self, v):
        """Represent the mutable result of a native call."""
        if type(v) is list: return self.list_of([self.lift(e) for e in v])
        if isinstance(v, bytearray): return HBytes(Rope([Elems(v)]) if v else EMPTY, type(v), self.ctx.new_oid())
        if type(v) is dict: return HDict([[k, self.lift(x)] for k, x in v.items()], self.ctx.new_oid())
        if type(v) is set: return HSet(list(v), self.ctx.new_oid())
        return v

    def is_bytes(self, v): return isinstance(v, (bytes, bytearray, SBytes, HBytes))
    def is_str(self, v): return isinstance(v, (str, SStr, OText))
    def is_seq(self, v): return isinstance(v, (tuple, list, STuple, HList)) and not isinstance(v, SObj)

    def brope(self, v):
        if isinstance(v, (SBytes, HBytes)): return v.rope
        if isinstance(v, (bytes, bytearray)): return Rope([Elems(v)]) if v else EMPTY
        raise Unsupported('bytes expected, got %s' % self.pytype(v).__name__)

    def srope(self, v):
        if isinstance(v, SStr): return v.rope
        if isinstance(v, str): return Rope([Elems(map(ord, v))]) if v else EMPTY
        raise Unsupported('text content is not tracked (%s)' % self.pytype(v).__name__)

    def lrope(self, v):
        if isinstance(v, (STuple, HList)): return v.rope
        if isinstance(v, (tuple, list)): return Rope([Elems(v)]) if v else EMPTY
        if isinstance(v, SObj) and issubclass(v.cls, tuple): return Rope([Elems([v.fields[f] for f in v.cls._fields])])
        raise Unsupported('sequence expected, got %s' % self.pytype(v).__name__)

    def rope_of(self, v):
        if self.is_bytes(v): return self.brope(v)
        if self.is_str(v): return self.srope(v)
        return self.lrope(v)

    def length(self, v):
        """len(v) as term/int."""
        if isinstance(v, SObj):
            if issubclass(v.cls, tuple): return len(v.cls._fields)
            f = self.class_attr(v.cls, '__len__')
            if f is not _MISSING: return T(self.call_method(v, '__len__'))
            self.raise_(TypeError, 'no len')
        if isinstance(v, (SBytes, HBytes, SStr, STuple, HList)): return self.ctx.rlen(v.rope)
        if isinstance(v, (HDict, HSet)): return len(v.items)
        if isinstance(v, SRange):
            if v.step == 1: 
                d = tn(zi(T(v.hi)) - zi(T(v.lo)))
                return Ite(Lt(0, d), d, 0) if not isinstance(d, int) else max(0, d)
            raise Unsupported('len of range with step')
        if isinstance(v, OText):
            n = self.ctx.fresh_int('textlen')
            self.ctx.add(n >= 0)
            return n
        if isinstance(v, Poison): self.pytype(v)
        if isinstance(v, Sym): self.raise_(TypeError, 'no len')
        try:
            return len(v)
        except TypeError as e:
            raise PyExc(e)

    def truth(self, v):
        """Boolean value; branches."""
        f = self.truthf(v)
        if isinstance(f, bool): return f
        return self.ctx.branch(f)

    def truthf(self, v):
        if isinstance(v, SBool): return v.t
        if isinstance(v, SInt): return Not(Eq(v.t, 0))
        if isinstance(v, SReal): return v.t != 0
        if isinstance(v, (SBytes, HBytes, SStr, STuple, HList, SRange)): return Lt(0, self.length(v))
        if isinstance(v, (HDict, HSet)): return len(v.items) > 0
        if isinstance(v, SObj):
            if self.class_attr(v.cls, '__bool__') is not _MISSING:
                return self.truthf(self.call_method(v, '__bool__'))
            if issubclass(v.cls, tuple): return len(v.cls._fields) > 0
            if self.class_attr(v.cls, '__len__') is not _MISSING: return Lt(0, self.length(v))
            return True
        if isinstance(v, OText):
            if v.least > 0: return True
            raise Unsupported('truth of untracked text')
        if isinstance(v, Poison): self.pytype(v)
        if isinstance(v, Sym): return True
        return bool(v)

    def boolv(self, f):
        """Value from a formula."""
        if isinstance(f, bool): return f
        return mk(f)

    # ------------------------------------------------------------------------------------------
    # equality

    def eqv(self, a, b):
        """Python == as value."""
        return self.boolv(self.eq(a, b))

    def rleast(self, rope):
        n = self.ctx.rlen(rope)
        return n if isinstance(n, int) else 0

    def least(self, v):
        if isinstance(v, OText): return v.least
        if isinstance(v, str): return len(v)
        return self.rleast(v.rope)

    def eq(self, a, b):
        """Python a == b as formula or bool."""
        if a is b and not isinstance(a, (SReal, float, OText)): return True
        if isinstance(a, OText) or isinstance(b, OText):
            x, y = (a, b) if isinstance(a, OText) else (b, a)
            if not self.is_str(y) or isinstance(y, str) and len(y) < x.least: return False
            raise Unsupported('comparison of untracked text')
        if isinstance(a, Poison) or isinstance(b, Poison): self.pytype(a), self.pytype(b)
        if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
            if self.isnum(a) and self.isnum(b): return self.real(a) == self.real(b)
            return False
        if is_int(a) and is_int(b): return Eq(T(a), T(b))
        oa, ob = self.objlike(a), self.objlike(b)
        if oa or ob:
            for x, y, o in ((a, b, oa), (b, a, ob)):
                if not o: continue
                f = self.class_attr(self.pytype(x), '__eq__')
                if isinstance(f, types.FunctionType):
                    return self.truthf(self.call(f, [x, y], {}))
            if oa and ob and not self.istup(a) and not self.istup(b):
                if isinstance(a, SObj) and isinstance(b, SObj): return a.oid == b.oid and a.oid is not None
                if isinstance(a, SObj) or isinstance(b, SObj): return False
                return bool(a == b)
            if not (self.istup(a) and self.istup(b)): return False
            return self.seq_eq(self.lrope(self.astuple(a)), self.lrope(self.astuple(b)))
        return self.eq_formula(a, b)

    def istup(self, v):
        return isinstance(v, STuple) or (isinstance(v, SObj) and issubclass(v.cls, tuple)) or isinstance(v, tuple)

    def astuple(self, v):
        if isinstance(v, SObj): return tuple(v.fields[f] for f in v.cls._fields)
        return v

    def objlike(self, v):
        if isinstance(v, SObj): return True
        if isinstance(v, Sym): return False
        t = type(v)
        return t.__module__ not in ('builtins', 'enum') and not isinstance(v, (int, str, bytes, bytearray, float, type)) \
            and type(v) not in (tuple, list, dict, set)

    def seq_eq(self, r1, r2):
        ctx = self.ctx
        r1, r2 = ctx.norm(r1), ctx.norm(r2)
        for a, b in ((r1, r2), (r2, r1)):
            # a sequence of unknown length against one of fixed length: decide the length, then element by element
            if any(isinstance(p, Lam) for p in a.p) and all(isinstance(p, Elems) for p in b.p):
                vs = [v for p in b.p for v in p.v]
                if not ctx.branch(Eq(ctx.rlen(a), len(vs))): return False
                for k, v in enumerate(vs):
                    x = ctx.rat(a, k)
                    f = self.eq(x, v) if a is r1 else self.eq(v, x)
                    if f is True: continue
                    if f is False or not ctx.branch(f): return False
                return True
        return rope_eq(self, r1, r2)

    def eq_formula(self, a, b):
        """Equality of built-in values (also used for elements of ropes)."""
        if a is b: return True
        if is_int(a) and is_int(b): return Eq(T(a), T(b))
        if self.is_bytes(a) and self.is_bytes(b): return rope_eq(self, self.brope(a), self.brope(b))
        if self.ctx.nonames and self.is_str(a) and self.is_str(b) and self.models.texts().differ(self, a, b): return False
        if self.is_str(a) and self.is_str(b): return rope_eq(self, self.srope(a), self.srope(b))
        if self.objlike(a) or self.objlike(b): return self.eq(a, b)
        ta = isinstance(a, (tuple, STuple))
        tb = isinstance(b, (tuple, STuple))
        la = isinstance(a, (list, HList))
        lb = isinstance(b, (list, HList))
        if (ta and tb) or (la and lb): return self.seq_eq(self.lrope(a), self.lrope(b))
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, HDict) or isinstance(b, HDict): raise Unsupported('dict equality')
            if isinstance(a, (HSet, set, frozenset)) and isinstance(b, (HSet, set, frozenset)):
                xs, ys = [list(s.items) if isinstance(s, HSet) else list(s) for s in (a, b)]
                inside = lambda v, vs: Or(*[self.eq(v, w) for w in vs])
                return And(*([inside(x, ys) for x in xs] + [inside(y, xs) for y in ys]))
            ka, kb = self.kindof(a), self.kindof(b)
            if ka != kb: return False
            raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))
        try:
            return bool(a == b)
        except Exception as e:
            raise PyExc(e)

    def kindof(self, v):
        if v is None: return 'none'
        if is_int(v): return 'int'
        if self.is_bytes(v): return 'bytes'
        if self.is_str(v): return 'str'
        if isinstance(v, (tuple, STuple)): return 'tuple'
        if isinstance(v, (list, HList)): return 'list'
        return 'other:%s' % self.pytype(v).__name__

    def same(self, a, b):
        """Strict structural identity: same class, same contents (used by contracts)."""
        if a is b: return True
        if isinstance(a, OText) or isinstance(b, OText): raise Unsupported('comparison of untracked text')
        ta, tb = self.pytype(a), self.pytype(b)
        if ta is bool or tb is bool:
            if ta is not tb: return False
            return Eq(T(a), T(b))
        if ta is not tb: return False
        if isinstance(a, SObj) or isinstance(b, SObj):
            if issubclass(ta, BaseException): return True
            fa, fb = self.objfields(a), self.objfields(b)
            if set(fa) != set(fb): return False
            return And(*[self.same(fa[k], fb[k]) for k in sorted(fa)])
        if self.is_bytes(a): return rope_eq(self, self.brope(a), self.brope(b))
        if self.is_str(a): return rope_eq(self, self.srope(a), self.srope(b))
        if isinstance(a, (tuple, list, STuple, HList)):
            ra, rb = self.ctx.norm(self.lrope(a)), self.ctx.norm(self.lrope(b))
            if len(ra.p) == len(rb.p) <= 1 and all(isinstance(p, Elems) for p in ra.p + rb.p):
                xs = [p.v for p in ra.p] or [()]
                ys = [p.v for p in rb.p] or [()]
                if len(xs[0]) != len(ys[0]): return False
                return And(*[self.same(x, y) for x, y in zip(xs[0], ys[0])])
            return rope_eq(self, ra, rb)
        if isinstance(a, HDict) or isinstance(b, HDict):
            ia = a.items if isinstance(a, HDict) else [[k, v] for k, v in a.items()]
            ib = b.items if isinstance(b, HDict) else [[k, v] for k, v in b.items()]
            if len(ia) != len(ib): return False
            return And(*[And(self.same(x[0], y[0]), self.same(x[1], y[1])) for x, y in zip(ia, ib)])
        return self.eq(a, b)

    def objfields(self, v):
        if isinstance(v, SObj): return v.fields
        if isinstance(v, tuple) and hasattr(type(v), '_fields'): return dict(zip(type(v)._fields, v))
        return dict(vars(v))

    def lam_eq(self, f, n):
        _, k, a, b = f
        ctx = self.ctx
        ctx.add(z3.Or(k < zi(n), zi(n) <= 0))
        # equality at a generic index k stands for that of the sequences: to assume it is to assume less,
        # its negation gives the index of a difference, and to show it is to show it for every index
        ctx.exact = False
        return Or(Le(n, 0), self.eq_formula(ctx.pat(a, k), ctx.pat(b, k)))

    proving = False

    # ------------------------------------------------------------------------------------------
    # arithmetic

    def isnum(self, v): return is_int(v) or isinstance(v, (float, SReal))

    def real(self, v):
        if isinstance(v, SReal): return v.t
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')): raise Unsupported('non-finite float')
            n, d = v.as_integer_ratio()
            return z3.Q(n, d)
        t = T(v)
        return z3.RealVal(t) if isinstance(t, int) else z3.ToReal(t)

    def arith(self, op, a, b):
        ctx = self.ctx
        x, y = T(a), T(b)
        if isinstance(x, int) and isinstance(y, int):
            try:
                return PYOPS[op](a if not isinstance(a, Sym) else x, b if not isinstance(b, Sym) else y)
            except Exception as e:
                raise PyExc(e)
        if op == '+': return mk(zi(x) + zi(y))
        if op == '-': return mk(zi(x) - zi(y))
        if op == '*':
            return mk(zi(x) * zi(y))
        if op == '//' and y == 2 and self.unit.opts.get('powers'):
            from .prims import half
            return mk(half(self, x))
        if op in ('//', '%'):
            q, r = self.idivmod(a, b)
            return q if op == '//' else r
        if op == '>>':
            if isinstance(y, int):
                if y < 0: self.raise_(ValueError, 'negative shift count')
                return mk(zi(x) / (1 << y))
            if not ctx.prove(zi(y) >= 0):
                if ctx.branch(zi(y) < 0): self.raise_(ValueError, 'negative shift count')
            q, r = ctx.divmod_(x, ctx.P(2, y))
            return mk(zi(q))
        if op == '<<':
            if isinstance(y, int):
                if y < 0: self.raise_(ValueError, 'negative shift count')
                return mk(zi(x) * (1 << y))
            if ctx.branch(zi(y) < 0): self.raise_(ValueError, 'negative shift count')
            return mk(zi(x) * ctx.P(2, y))
        if op == '**':
            if isinstance(x, int) and not isinstance(y, int) and x >= 2:
                if ctx.branch(zi(y) < 0): raise Unsupported('negative power')
                return mk(ctx.P(x, y))
            if isinstance(y, int) and 0 <= y <= 8:
                t = z3.IntVal(1)
                for _ in range(y): t = t * zi(x)
                return mk(t)
            raise Unsupported('power')
        if op == '&':
            if isinstance(a, SBool) and isinstance(b, (SBool, bool)) or isinstance(b, SBool) and isinstance(a, bool):
                return self.boolv(And(self.truthf(a), self.truthf(b)))
            if isinstance(x, int): x, y = y, x
            if isinstance(y, int): return mk(self.mask(x, y))
            h = None
            if self.unit.opts.get('powers'):
                from .prims import bit
                h = bit(self, x, y)
                if h is None: h = bit(self, y, x)
            if h is not None: return h
            raise Unsupported('& of two symbolic integers')
        if op == '|':
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return self.boolv(Or(self.truthf(a), self.truthf(b)))
            if isinstance(x, int): x, y = y, x
            if isinstance(y, int): return mk(zi(x) + y - self.mask(x, y))
            raise Unsupported('| of two symbolic integers')
        if op == '^':
            if isinstance(x, int): x, y = y, x
            if isinstance(y, int): return mk(zi(x) + y - 2 * self.mask(x, y))
            raise Unsupported('^ of two symbolic integers')
        raise Unsupported('operator %s' % op)

    def mask(self, x, c):
        """x & c for a constant c (two's complement semantics)."""
        x = zi(x)
        if c < 0:
            # x & c == x - (x & ~c)
            return x - self.mask(x, ~c)
        if c == 0: return z3.IntVal(0)
        t = None
        k = 0
        while c >> k:
            if (c >> k) & 1:
                j = k
                while (c >> j) & 1: j += 1
                # bits k..j-1
                y = (x % (1 << j)) if k == 0 else ((x / (1 << k)) % (1 << (j - k))) * (1 << k)
                t = y if t is None else t + y
                k = j
            else:
                k += 1
        return t

    def idivmod(self, a, b):
        ctx = self.ctx
        x, y = T(a), T(b)
        if isinstance(x, int) and isinstance(y, int):
            try:
                return divmod(x, y)
            except Exception as e:
                raise PyExc(e)
        if ctx.field is not None and y == ctx.field.p:
            return mk(zi(x) / y), mk(ctx.field.normal(zi(x)))
        if ctx.opts.get('linear') == 'products' and not (isinstance(y, int) and y <= 0):
            if not isinstance(y, int) and ctx.branch(zi(y) == 0): self.raise_(ZeroDivisionError)
            if not isinstance(y, int) and not ctx.branch(zi(y) > 0): raise Unsupported('division by a negative symbolic integer')
            q, r = ctx.quotient(x, y)
            return mk(q), mk(r)
        if isinstance(y, int):
            if y == 0: self.raise_(ZeroDivisionError)
            if y > 0: return mk(zi(x) / y), mk(zi(x) % y)
            q, r = self.idivmod(mk(-zi(x)), -y)
            return q, mk(-zi(T(r)))
        if ctx.branch(zi(y) == 0): self.raise_(ZeroDivisionError)
        if ctx.branch(zi(y) > 0):
            q, r = ctx.fresh_int('q'), ctx.fresh_int('r')
            ctx.add(zi(x) == q * y + r)
            ctx.add(z3.And(r >= 0, r < y))
            ctx.add(z3.Implies(zi(x) >= 0, q >= 0))
            ctx.add(z3.Implies(z3.And(zi(x) >= 0, zi(x) < y), q == 0))
            ctx.add(z3.Implies(zi(x) >= y, q >= 1))
            return mk(q), mk(r)
        raise Unsupported('division by a negative symbolic integer')

    def neg(self, v):
        if isinstance(v, SReal): return SReal(-v.t)
        if isinstance(v, float): return -v
        t = T(v)
        return mk(-t)

    def fround(self, t, ops=()):
        """A float result: the real value t rounded to nearest, as a function of t (relative error at most 2**-53, integers up to
        2**53 exact).  Only within the range of normal numbers."""
        ctx = self.ctx
        t = z3.simplify(t)
        a = z3.If(t >= 0, t, -t)
        if integral(t) and ctx.quick(a <= 2 ** 53): return SReal(t)
        r = f_round(t)
        es = [self.magnitude(x) for x in ops]
        if es and None not in es and sum(es) < 999:
            self.mags[z3.simplify(r).get_id()] = sum(es) + 1
            ctx.keep(z3.simplify(r))
        elif not ctx.prove(z3.And(a <= 2 ** 1000, z3.Or(a == 0, a >= z3.Q(1, 2 ** 1000))), 10000): raise Unsupported('float out of range %s %s' % (es, t))
        e = z3.Q(1, 2 ** 53)
        k = z3.ToInt(t)
        ctx.fact_once(('round', r.get_id()), lambda: z3.And(
            r - t <= a * e, t - r <= a * e,
            z3.Implies(z3.And(t == z3.ToReal(k), a <= 2 ** 53), r == t)))
        ctx.keep(r)
        return SReal(r)

    def magnitude(self, x):
        """e with x == 0 or 2**-e <= |x| <= 2**e, else None."""
        x = z3.simplify(x)
        e = self.mags.get(x.get_id())
        if e is None:
            a = z3.If(x >= 0, x, -x)
            for e in (100, 400):
                if self.ctx.prove(z3.And(a <= 2 ** e, z3.Or(a == 0, a >= z3.Q(1, 2 ** e))), 4000):
                    self.mags[x.get_id()] = e
                    self.ctx.keep(x)
                    return e
            return None
        return e

    def binop(self, op, a, b):
        for v in (a, b):
            if isinstance(v, Poison): self.pytype(v)
        if is_int(a) and is_int(b):
            if op == '/':
                if isinstance(T(b), int) and T(b) == 0: self.raise_(ZeroDivisionError)
                if isinstance(a, Sym) or isinstance(b, Sym):
                    if not isinstance(T(b), int) and self.ctx.branch(zi(T(b)) == 0): self.raise_(ZeroDivisionError)
                    return self.fround(self.real(a) / self.real(b), (self.real(a), self.real(b)))
                return a / b
            return self.arith(op, a, b)
        if self.isnum(a) and self.isnum(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                try: return PYOPS[op](a, b)
                except Exception as e: raise PyExc(e)
            x, y = self.tofloat(a), self.tofloat(b)
            if op == '+': return self.fround(x + y)
            if op == '-': return self.fround(x - y)
            if op == '*': return self.fround(x * y, (x, y))
            if op == '/':
                if self.ctx.branch(y == 0): self.raise_(ZeroDivisionError)
                return self.fround(x / y, (x, y))
            raise Unsupported('float %s' % op)
        if op == '%' and self.is_str(a): return self.strformat(a, b)
        if op == '+':
            if self.is_bytes(a) and self.is_bytes(b):
                r = self.ctx.cat(self.brope(a), self.brope(b))
                ta = self.pytype(a)
                if issubclass(ta, bytearray): return self.new_bytearray(r)      # a subclass operand gives bytearray
                return self.mkbytes(r)
            if self.is_str(a) and self.is_str(b):
                if isinstance(a, OText) or isinstance(b, OText): return OText('text', self.least(a) + self.least(b))
                return self.mkstr(self.ctx.cat(self.srope(a), self.srope(b)))
            if isinstance(a, (list, HList)) and isinstance(b, (list, HList)):
                return self.new_list(self.ctx.cat(self.lrope(a), self.lrope(b)))
            if self.istup(a) and self.istup(b):
                return self.mktuple(self.ctx.cat(self.lrope(self.astuple(a)), self.lrope(self.astuple(b))))
        if op == '*':
            if is_int(a): a, b = b, a
            if is_int(b):
                if self.is_bytes(a) or self.is_str(a) or self.is_seq(a): return self.repeat(a, b)
        # user operators
        name, rname = OPNAMES[op]
        for x, y, nm in ((a, b, name), (b, a, rname)):
            if self.objlike(x):
                f = self.class_attr(self.pytype(x), nm)
                if isinstance(f, types.FunctionType): return self.call(f, [x, y], {})
        oka, ca = self.conc(a)
        okb, cb = self.conc(b)
        if oka and okb:
            try: return self.lift(PYOPS[op](ca, cb))
            except Exception as e: raise PyExc(e)
        ka, kb = self.kindof(a), self.kindof(b)
        if ka in ('int', 'bytes', 'str', 'none', 'tuple', 'list') and kb in ('int', 'bytes', 'str', 'none', 'tuple', 'list'):
            self.raise_(TypeError, 'unsupported operand types for %s: %s and %s' % (op, ka, kb))
        raise Unsupported('operator %s on %s and %s' % (op, ka, kb))

    def tofloat(self, v):
        """real value of an operand converted to float"""
        if is_int(v) and isinstance(v, Sym): return self.fround(self.real(v)).t
        if is_int(v):
            return self.real(float(v))
        return self.real(v)

    def repeat(self, a, n):
        rope = self.rope_of(a)
        ctx = self.ctx
        k = T(n)
        els = None
        if isinstance(k, int):
            r = Rope(rope.p * max(0, k))
            if all(isinstance(p, Elems) for p in rope.p):
                vs = [e for p in rope.p for e in p.v]
                r = Rope([Elems(vs * max(0, k))]) if vs and k > 0 and len(vs) * k <= 4096 else (
                    EMPTY if not vs or k <= 0 else Rope([Rep(vs[0], k)]) if len(vs) == 1 else r)
            else:
                r = ctx.norm(r)
        else:
            if len(rope.p) == 0: r = EMPTY
            elif len(rope.p) == 1 and isinstance(rope.p[0], Elems) and len(rope.p[0].v) == 1:
                if ctx.branch(Lt(0, k)): r = Rope([Rep(rope.p[0].v[0], k)])
                else: r = EMPTY
            else: raise Unsupported('symbolic repetition')
        if self.is_bytes(a):
            return self.new_bytearray(r) if issubclass(self.pytype(a), bytearray) else self.mkbytes(r)
        if self.is_str(a): return self.mkstr(r)
        if isinstance(a, (list, HList)): return self.new_list(r)
        return self.mktuple(r)

    def strformat(self, fmt, arg):
        if not isinstance(fmt, str): return OText()
        args = arg if isinstance(arg, tuple) and not hasattr(type(arg), '_fields') else (arg,)
        ok, c = self.conc(arg)
        if ok:
            try: return fmt % c
            except Exception as e: raise PyExc(e)
        # split into literal parts and simple specifiers
        import re
        parts = re.split(r'(%%|%[-0-9.]*[a-zA-Z])', fmt)
        rope = EMPTY
        k = 0
        for p in parts:
            if not p: continue
            if p == '%%':
                rope = self.ctx.cat(rope, self.srope('%'))
            elif p.startswith('%'):
                if k >= len(args): self.raise_(TypeError, 'not enough arguments')
                v = args[k]
                k += 1
                if p == '%s' and isinstance(v, SStr): rope = self.ctx.cat(rope, v.rope)
                elif p in ('%s', '%d') and is_int(v) and not isinstance(v, (SBool, bool)): 
                    d = self.decstr(v)
                    if d is None: return OText()
                    rope = self.ctx.cat(rope, d)
                elif p == '%s' and isinstance(v, str): rope = self.ctx.cat(rope, self.srope(v))
                elif re.fullmatch(r'%\.[0-9]+f', p) and isinstance(v, SReal):
                    from . import uris
                    d = uris.fixed_text(self, v, int(p[2:-1]))
                    if d is None: return OText()
                    rope = self.ctx.cat(rope, d)
                else: return OText()
            else:
                rope = self.ctx.cat(rope, self.srope(p))
        if k != len(args): self.raise_(TypeError, 'not all arguments converted')
        return self.mkstr(rope)

    def decstr(self, v):
        t = T(v)
        if isinstance(t, int): return self.srope(str(t))
        if self.ctx.prove(t >= 0): return Rope([Dec(t)])
        return None

    # ------------------------------------------------------------------------------------------
    # comparisons

    def compare(self, op, a, b):
        ctx = self.ctx
        if op == '==': return self.eqv(a, b)
        if op == '!=':
            if self.objlike(a):
                f = self.class_attr(self.pytype(a), '__ne__')
                if isinstance(f, types.FunctionType): return self.call(f, [a, b], {})
            return self.boolv(Not(self.eq(a, b)))
        if op == 'is': return self.identical(a, b)
        if op == 'is not': return self.boolv(Not(self.truthf(self.identical(a, b))))
        if op == 'in': return self.boolv(self.contains(a, b))
        if op == 'not in': return self.boolv(Not(self.contains(a, b)))
        if is_int(a) and is_int(b):
            x, y = T(a), T(b)
            if isinstance(x, int) and isinstance(y, int): return CMP[op](x, y)
            return mk(CMP[op](zi(x), zi(y)))
        if self.isnum(a) and self.isnum(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym): return CMP[op](a, b)
            return mk(CMP[op](self.real(a), self.real(b)))
        if self.objlike(a) or self.objlike(b):
            name, rname = CMPNAMES[op]
            for x, y, nm in ((a, b, name), (b, a, rname)):
                if not self.objlike(x): continue
                f = self.class_attr(self.pytype(x), nm)
                if isinstance(f, types.FunctionType):
                    r = self.call(f, [x, y], {})
                    if r is NotImplemented: continue
                    return r
            if self.istup(a) and self.istup(b): pass
            else: self.raise_(TypeError, 'unorderable')
        oka, ca = self.conc(a)
        okb, cb = self.conc(b)
        if oka and okb:
            try: return CMP[op](ca, cb)
            except Exception as e: raise PyExc(e)
        ka, kb = self.kindof(a), self.kindof(b)
        if ka != kb: self.raise_(TypeError, 'unorderable')
        raise Unsupported('ordering of %s' % ka)

    def identical(self, a, b):
        if a is None or b is None or a is NotImplemented or b is NotImplemented: return a is b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return self.boolv(Eq(T(a), T(b)))
        if isinstance(a, bool) or isinstance(b, bool): return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (HBytes, HList, SObj, HDict, HSet)) or isinstance(b, (HBytes, HList, SObj, HDict, HSet)):
                if a is not b and getattr(a, 'tag', None) == getattr(b, 'tag', None) == 'element' and a.cls is b.cls: raise Unsupported('identity of elements')
                return a is b
            if a is b: return True
            raise Unsupported('identity of values')
        return a is b

    def contains(self, x, c):
        if isinstance(c, HDict):
            return Or(*[self.eq(x, k) for k, _ in c.items])
        if isinstance(c, HSet): return Or(*[self.eq(x, k) for k in c.items])
        if isinstance(c, dict):
            if isinstance(x, Sym):
                if is_int(x): return self.in_ints(x, [k for k in c if isinstance(k, int)])
                return Or(*[self.eq(x, k) for k in c])
            return x in c
        if isinstance(c, SRange):
            if c.step != 1: raise Unsupported('membership in range with step')
            return And(Le(T(c.lo), T(x)), Lt(T(x), T(c.hi)))
        if isinstance(c, range) and is_int(x):
            if c.step == 1: return And(Le(c.start, T(x)), Lt(T(x), c.stop))
        if self.is_bytes(c) and self.is_bytes(x):
            ok, cc = self.conc(c)
            ok2, xx = self.conc(x)
            if ok and ok2: return bytes(xx) in bytes(cc)
            n = self.length(x)
            if isinstance(n, int) and ok:
                b = bytes(cc)
                return Or(*[self.eq(x, b[k:k + n]) for k in range(len(b) - n + 1)])
            if ok and len(cc) <= 8:
                b = bytes(cc)
                return Or(*[self.eq(x, y) for y in sorted(set(b[i:j] for i in range(len(b) + 1) for j in range(i, len(b) + 1)))])
            raise Unsupported('substring search')
        if self.is_str(c):
            ok, cc = self.conc(c)
            ok2, xx = self.conc(x)
            if ok and ok2:
                try: return xx in cc
                except TypeError as e: raise PyExc(e)
            if ok and isinstance(xx, str) and len(xx) == 1: pass
            raise Unsupported('substring search')
        if self.is_bytes(c) or isinstance(c, (tuple, list, STuple, HList)):
            rope = self.ctx.norm(self.rope_of(c))
            out = []
            for p in rope.p:
                if isinstance(p, Elems):
                    out += [self.eq(x, e) for e in p.v]
                else:
                    out.append(self.exists_eq(p, x))
            return Or(*out)
        if isinstance(c, (Lazy, SIter)):
            for e in self.iter_concrete(c):
                if self.truth(self.eqv(x, e)): return True
            return False
        if self.objlike(c):
            f = self.class_attr(self.pytype(c), '__contains__')
            if isinstance(f, types.FunctionType): return self.truthf(self.call(f, [c, x], {}))
        raise Unsupported('membership in %s' % self.pytype(c).__name__)

    def exists_eq(self, p, x):
        """Formula: some element of piece p equals x.  Skolemised: a fresh predicate with its witness."""
        ctx = self.ctx
        n = ctx.plen(p)
        key = ctx.name('mem')
        if isinstance(p, Rep): return And(Lt(0, n), self.eq(p.v, x))
        if isinstance(p, Sl) and is_int(x):
            m = z3.Function('member', S, I, I, I, B)(p.term, zi(p.lo), zi(n), zi(T(x)))
            w = z3.Function('memberw', S, I, I, I, I)(p.term, zi(p.lo), zi(n), zi(T(x)))
            if ctx.fact_once_new(('mem', m.get_id())):
                ctx.keep(m)
                e = ctx.at(p.term, w, p.kind)
                ctx.add(z3.Implies(m, z3.And(w >= zi(p.lo), w < zi(p.lo) + zi(n), self.eqz(e, x))))
                ctx.members.append((p, x, m))
                for idx in list(ctx.atc.get(p.term.get_id(), [])): ctx.member_at(p, x, m, idx)
            return m
        raise Unsupported('membership in a symbolic sequence')

    def eqz(self, a, b):
        f = self.eq(a, b)
        return z3.BoolVal(f) if isinstance(f, bool) else f

    def in_ints(self, x, ks):
        t = T(x)
        if isinstance(t, int): return t in ks
        ks = sorted(ks)
        runs = []
        for k in ks:
            if runs and runs[-1][1] == k - 1: runs[-1][1] = k
            else: runs.append([k, k])
        return Or(*[(t == a if a == b else z3.And(t >= a, t <= b)) for a, b in runs])

    # ------------------------------------------------------------------------------------------
    # attributes

    def class_attr(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                if k is object and name in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__hash__',
                                            '__init__', '__new__', '__repr__', '__str__'): return _MISSING
                return k.__dict__[name]
        return _MISSING

    def getattr_(self, obj, name, env=None):
        if isinstance(obj, Super): return self.super_attr(obj, name)
        if isinstance(obj, SObj):
            if name == '__class__': return obj.cls
            if name == '__dict__': return HDict([[k, v] for k, v in obj.fields.items() if not (k == 'args' and issubclass(obj.cls, BaseException))], self.ctx.new_oid())
            a = self.class_attr(obj.cls, name)
            if isinstance(a, property): return self.call(a.fget, [obj], {})
            if name in obj.fields: return obj.fields[name]
            if name == '__doc__': return obj.cls.__doc__
            if a is _MISSING: 
                if name in ('__init__', '__eq__', '__new__'): return Bound(getattr(object, name), obj)
                if self.class_attr(obj.cls, '__getattr__') is not _MISSING: return self.call_method(obj, '__getattr__', [name], {})
                self.raise_(AttributeError, name)
            return self.bind(a, obj, obj.cls)
        if isinstance(obj, (SInt, SBool, SBytes, SStr, STuple, HBytes, HList, HDict, HSet, OText, SReal, SIter)):
            t = self.pytype(obj)
            if isinstance(obj, HBytes) and t is not bytearray:
                a = self.class_attr(t, name)
                if isinstance(a, types.FunctionType): return Bound(a, obj)
                if isinstance(a, (staticmethod, classmethod)): return self.bind(a, obj, t)
            if name == '__class__': return t
            if not hasattr(t, name): self.raise_(AttributeError, name)
            return BMeth(obj, name)
        if isinstance(obj, Poison): self.pytype(obj)
        if isinstance(obj, Sym): raise Unsupported('attribute %s of %s' % (name, type(obj).__name__))
        # real object
        if isinstance(obj, types.ModuleType) or isinstance(obj, type):
            try: v = getattr(obj, name)
            except AttributeError as e: raise PyExc(e)
            return self.wrapreal(v)
        t = type(obj)
        if type(obj) in (str, bytes, bytearray, int, list, tuple, dict, set, float, bool):
            if not hasattr(obj, name): self.raise_(AttributeError, name)
            return BMeth(obj, name)
        a = self.class_attr(t, name)
        if isinstance(a, property) and isinstance(a.fget, types.FunctionType) and self.interpretable(a.fget):
            return self.call(a.fget, [obj], {})
        if isinstance(a, types.FunctionType) and name not in getattr(obj, '__dict__', {}): return Bound(a, obj)
        try: return self.wrapreal(getattr(obj, name))
        except AttributeError as e: raise PyExc(e)

    def wrapreal(self, v):
        return v

    def bind(self, a, obj, cls):
        if isinstance(a, types.FunctionType): return Bound(a, obj)
        if isinstance(a, staticmethod): return a.__func__
        if isinstance(a, classmethod): return Bound(a.__func__, cls)
        if isinstance(a, property): return self.call(a.fget, [obj], {})
        if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType, types.ClassMethodDescriptorType)):
            return BMeth(obj, a.__name__)
        return a

    def super_attr(self, sup, name):
        mro = sup.obj.__mro__ if isinstance(sup.obj, type) else self.pytype(sup.obj).__mro__
        k = mro.index(sup.cls) + 1
        for c in mro[k:]:
            if name in c.__dict__:
                a = c.__dict__[name]
                if name == '__new__': return ('new', c)
                if name == '__init__' and not isinstance(a, types.FunctionType): return ('init', sup.obj)
                if isinstance(a, types.FunctionType): return Bound(a, sup.obj)
                if isinstance(a, staticmethod): return a.__func__
                if isinstance(a, classmethod):
                    return Bound(a.__func__, sup.obj if isinstance(sup.obj, type) else self.pytype(sup.obj))
                if isinstance(a, property): return self.call(a.fget, [sup.obj], {})
                if isinstance(sup.obj, (HBytes, HList)): return BMeth(sup.obj, name)
                raise Unsupported('super().%s' % name)
        self.raise_(AttributeError, name)

    def setattr_(self, obj, name, v):
        if isinstance(obj, SObj):
            a = self.class_attr(obj.cls, name)
            if isinstance(a, property) and a.fset is None: self.raise_(AttributeError, name)
            if isinstance(a, property): return self.call(a.fset, [obj, v], {})
            if issubclass(obj.cls, tuple) and name in obj.cls._fields: self.raise_(AttributeError, name)
            self.mutated(obj, name)
            obj.fields[name] = v
            return
        if isinstance(obj, tuple) and hasattr(type(obj), '_fields') and name in type(obj)._fields:
            self.raise_(AttributeError, name)
        raise Unsupported('assignment to an attribute of %s' % self.pytype(obj).__name__)

    def mutated(self, obj, field=None):
        for limit, log in self.mutlog:
            if obj.oid is None or obj.oid <= limit: log.append((obj, field))

    # ------------------------------------------------------------------------------------------
    # calls

    def interpretable(self, f):
        fn = f.__code__.co_filename
        return fn.startswith(REPO) or fn.startswith(SPECS) or 'functools' in fn

    def call_method(self, obj, name, args=(), kwargs=None):
        return self.call(self.getattr_(obj, name), list(args), kwargs or {})

    def call(self, f, args, kwargs):
        self.steps += 1
        if self.steps > 400000: raise Unsupported('step budget')
        if isinstance(f, Bound): return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Func): return self.call_node(f.node, f.env, f.globs, f.defaults, f.kwdefaults, f.name, f.cls, args, kwargs)
        if isinstance(f, BMeth): return self.models.method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, tuple) and len(f) == 2 and f[0] == 'new': return self.new_base(f[1], args, kwargs)
        if isinstance(f, tuple) and len(f) == 2 and f[0] == 'init':
            if isinstance(f[1], SObj) and issubclass(f[1].cls, BaseException): f[1].fields['args'] = tuple(args)
            return None
        if isinstance(f, types.MethodType): return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        h = self.models.handler(f)
        if h is not None: return h(self, args, kwargs)
        if isinstance(f, types.FunctionType):
            c = self.unit.contract_for(self, f)
            if c is not None:
                r = c.apply(self, args, kwargs)
                if r is not NotImplemented: return r[0]
            if self.interpretable(f): return self.call_real(f, args, kwargs)
            return self.native(f, args, kwargs)
        if isinstance(f, type): return self.instantiate(f, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), dict(f.keywords, **kwargs))
        if isinstance(f, SObj):
            return self.call_method(f, '__call__', args, kwargs)
        if isinstance(f, Sym): raise Unsupported('call of %s' % type(f).__name__)
        if f is None or isinstance(f, (int, str, bytes)): self.raise_(TypeError, 'not callable')
        return self.native(f, args, kwargs)

    def native(self, f, args, kwargs):
        cs = [self.conc(a) for a in args]
        ks = {k: self.conc(v) for k, v in kwargs.items()}
        if all(o for o, _ in cs) and all(o for o, _ in ks.values()):
            if getattr(f, '__self__', None) is not None and isinstance(f, types.BuiltinMethodType) and \
                    isinstance(f.__self__, (list, dict, set, bytearray)) and f.__name__ in MUTATORS:
                raise Unsupported('mutation of a shared object')
            try:
                return self.lift(f(*[c for _, c in cs], **{k: c for k, (_, c) in ks.items()}))
            except (Unsupported, PathEnd, PyExc, Restart):
                raise
            except Exception as e:
                raise PyExc(e)
        raise Unsupported('call of %s with symbolic arguments' % getattr(f, '__qualname__', f))

    def call_real(self, f, args, kwargs):
        node, cls = node_of(f)
        env = CellNS(f) if f.__closure__ else None
        kwd = f.__kwdefaults__ or {}
        clsobj = None
        return self.call_node(node, env, f.__globals__, f.__defaults__ or (), kwd, f.__qualname__, cls, args, kwargs, f)

    def call_node(self, node, penv, globs, defaults, kwdefaults, name, cls, args, kwargs, real=None):
        if self.depth > self.MAXDEPTH: raise Unsupported('call depth')
        env = Env(globs, penv, name, cls)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(names):
            if not a.vararg: self.raise_(TypeError, 'too many positional arguments')
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg: vals[a.vararg.arg] = ()
        for n, v in zip(names, args): vals[n] = v
        extra = []
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals: self.raise_(TypeError, 'multiple values for argument')
                vals[k] = v
            elif a.kwarg: extra.append([k, v])
            else: self.raise_(TypeError, 'unexpected keyword argument %s' % k)
        if a.kwarg: vals[a.kwarg.arg] = HDict(extra, self.ctx.new_oid())
        off = len(names) - len(defaults)
        for k, n in enumerate(names):
            if n not in vals:
                if k >= off: vals[n] = defaults[k - off]
                else: self.raise_(TypeError, 'missing argument %s' % n)
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in kwdefaults: vals[x.arg] = kwdefaults[x.arg]
                else: self.raise_(TypeError, 'missing argument')
        env.vars = vals
        env.selfv = vals[names[0]] if names else None
        if isinstance(node, ast.Lambda):
            self.depth += 1
            self.callstack.append(('lambda', node.lineno, node.col_offset))
            try: return self.ev(node.body, env)
            finally:
                self.depth -= 1
                self.callstack.pop()
        if not hasattr(node, '_locals'):
            node._locals = assigned_names(node)
            node._isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(node))
        env.local = node._locals
        if node._isgen: raise Unsupported('generator function')
        self.depth += 1
        self.callstack.append((name, node.lineno))
        try:
            self.block(node.body, env)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
            self.callstack.pop()

    def new_base(self, c, args, kwargs):
        """cls.__new__ of a built-in base reached through super()."""
        cls = args[0]
        if issubclass(c, tuple) and hasattr(c, '_fields'):
            return self.new_namedtuple(cls, c, args[1:], kwargs)
        if c is object:
            return SObj(cls, {}, self.ctx.new_oid())
        raise Unsupported('%s.__new__' % c.__name__)

    def new_namedtuple(self, cls, base, args, kwargs):
        fields = list(base._fields)
        d = dict(zip(fields, args))
        if len(args) > len(fields): self.raise_(TypeError, 'too many fields')
        for k, v in kwargs.items():
            if k not in fields or k in d: self.raise_(TypeError, 'unexpected field')
            d[k] = v
        for f in fields:
            if f not in d:
                if f in base._field_defaults: d[f] = base._field_defaults[f]
                else: self.raise_(TypeError, 'missing field %s' % f)
        o = SObj(cls, d, self.ctx.new_oid())
        return o

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException): return self.new_exception(cls, args, kwargs)
        new = None
        for k in cls.__mro__:
            if '__new__' in k.__dict__:
                new = (k, k.__dict__['__new__'])
                break
        k, fn = new
        if isinstance(fn, staticmethod): fn = fn.__func__
        if k is object:
            o = SObj(cls, {}, self.ctx.new_oid())
        elif isinstance(fn, types.FunctionType) and self.interpretable(fn):
            o = self.call(fn, [cls] + list(args), kwargs)
        elif issubclass(k, tuple) and hasattr(k, '_fields'):
            o = self.new_namedtuple(cls, k, args, kwargs)
        elif issubclass(cls, bytearray) and k is bytearray:
            return self.models.make_bytearray(self, cls, args, kwargs)
        else:
            return self.native(cls, args, kwargs)
        if isinstance(o, SObj) and issubclass(o.cls, cls):
            init = self.class_attr(cls, '__init__')
            if isinstance(init, types.FunctionType): self.call(init, [o] + list(args), kwargs)
            elif k is object and init is _MISSING and (args or kwargs): self.raise_(TypeError, 'no arguments expected')
        return o

    def new_exception(self, cls, args, kwargs):
        o = SObj(cls, {'args': tuple(args)}, self.ctx.new_oid())
        init = self.class_attr(cls, '__init__')
        if isinstance(init, types.FunctionType) and self.interpretable(init):
            if self.unit.full_errors:
                self.call(init, [o] + list(args), kwargs)
                return o
            prep = self.class_attr(cls, 'prepare')
            if isinstance(prep, types.FunctionType):
                kw = {k: v for k, v in kwargs.items() if k != 'cause'}
                self.call(prep, [o] + list(args), kw)
                o.fields['cause'] = kwargs.get('cause')
            else:
                self.call(init, [o] + list(args), kwargs)
        return o

    # ------------------------------------------------------------------------------------------
    # names

    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if isinstance(e, CellNS):
                ok, v = e.get(name)
                if ok: return v
                break
            if name in e.vars:
                v = e.vars[name]
                if v is _MISSING: raise PyExc(SObj(UnboundLocalError, {'args': (name,)}))
                return v
            if first and e.local is not None and name in e.local:
                raise PyExc(SObj(UnboundLocalError, {'args': (name,)}))
            first = False
            e = e.parent
        g = env.globs
        if name in g: return g[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        raise PyExc(SObj(NameError, {'args': (name,)}))

    def mangle(self, name, env):
        if name.startswith('__') and not name.endswith('__'):
            e = env
            while e is not None and not isinstance(e, CellNS) and e.cls is None: e = e.parent
            if e is not None and not isinstance(e, CellNS) and e.cls: return '_%s%s' % (e.cls.lstrip('_'), name)
        return name

    # ------------------------------------------------------------------------------------------
    # expressions

    def ev(self, n, env):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(n).__name__)
        return m(n, env)

    def ev_Constant(self, n, env): return n.value
    def ev_Name(self, n, env): return self.lookup(self.mangle(n.id, env), env)

    def ev_Attribute(self, n, env):
        return self.getattr_(self.ev(n.value, env), self.mangle(n.attr, env), env)

    def ev_Tuple(self, n, env): return self.mkseq(n, env, tuple)
    def ev_List(self, n, env): return self.mkseq(n, env, list)

    def mkseq(self, n, env, kind):
        rope = EMPTY
        for e in n.elts:
            if isinstance(e, ast.Starred):
                rope = self.ctx.cat(rope, self.iter_rope(self.ev(e.value, env)))
            else:
                rope = Rope(rope.p + (Elems([self.ev(e, env)]),))
        rope = self.ctx.norm(rope)
        if kind is list: return self.new_list(rope)
        return self.mktuple(rope)

    def ev_Set(self, n, env): return HSet([self.ev(e, env) for e in n.elts], self.ctx.new_oid())

    def ev_Dict(self, n, env):
        d = HDict([], self.ctx.new_oid())
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, env)
                items = o.items if isinstance(o, HDict) else [[a, b] for a, b in o.items()]
                for a, b in items: self.models.dict_set(self, d, a, b)
            else:
                self.models.dict_set(self, d, self.ev(k, env), self.ev(v, env))
        return d

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(OPS[type(n.op)], a, b)

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not): return self.boolv(Not(self.truthf(v)))
        if isinstance(n.op, ast.USub):
            if is_int(v) or isinstance(v, (float, SReal)): return self.neg(v)
            if self.objlike(v): return self.call_method(v, '__neg__')
        if isinstance(n.op, ast.UAdd) and self.isnum(v): return v if not isinstance(v, (bool, SBool)) else mk(T(v))
        if isinstance(n.op, ast.Invert) and is_int(v): return mk(-zi(T(v)) - 1)
        self.raise_(TypeError, 'bad operand')

    def ev_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for k, e in enumerate(n.values):
            v = self.ev(e, env)
            if k == len(n.values) - 1: return v
            t = self.truth(v)
            if isand and not t: return v if not isinstance(v, (SBool,)) else False
            if not isand and t: return v if not isinstance(v, (SBool,)) else True
        return v

    def ev_Compare(self, n, env):
        a = self.ev(n.left, env)
        acc = None
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(c, env)
            r = self.compare(CMPOPS[type(op)], a, b)
            last = k == len(n.ops) - 1
            if last and acc is None: return r
            if isinstance(r, (bool, SBool)):
                f = self.truthf(r)
                acc = f if acc is None else And(acc, f)
                if acc is False: return False
                if last: return self.boolv(acc)
                if not self.pure(c) or not all(self.pure(x) for x in n.comparators[k + 1:]):
                    if not self.truth(self.boolv(acc)): return False
                    acc = True
            else:
                if acc is not None and not self.truth(self.boolv(acc)): return False
                acc = None
                if last: return r
                if not self.truth(r): return r
            a = b
        return self.boolv(acc)

    def pure(self, n):
        return not any(isinstance(x, (ast.Call, ast.Subscript, ast.Yield)) for x in ast.walk(n))

    def ev_IfExp(self, n, env):
        if self.truth(self.ev(n.test, env)): return self.ev(n.body, env)
        return self.ev(n.orelse, env)

    def ev_Lambda(self, n, env):
        return Func(n, env, env.globs, tuple(self.ev(d, env) for d in n.args.defaults), {}, '<lambda>', None, None)

    def ev_JoinedStr(self, n, env):
        rope = EMPTY
        bad = False
        for v in n.values:
            if isinstance(v, ast.Constant): rope = self.ctx.cat(rope, self.srope(v.value))
            else:
                x = self.ev(v.value, env)
                if v.format_spec is not None or v.conversion not in (-1,): 
                    ok, c = self.conc(x)
                    if ok and (v.format_spec is None or all(isinstance(q, ast.Constant) for q in v.format_spec.values)):
                        spec = ''.join(q.value for q in v.format_spec.values) if v.format_spec else ''
                        if v.conversion == 114: c = repr(c)
                        elif v.conversion == 115: c = str(c)
                        rope = self.ctx.cat(rope, self.srope(format(c, spec)))
                    else: bad = True
                    continue
                s = self.models.tostr(self, x)
                if isinstance(s, OText): bad = True
                else: rope = self.ctx.cat(rope, self.srope(s))
        return OText('text', self.rleast(rope)) if bad else self.mkstr(rope)

    def ev_Slice(self, n, env):
        g = lambda e: None if e is None else self.ev(e, env)
        return slice(g(n.lower), g(n.upper), g(n.step))

    def ev_Subscript(self, n, env):
        o = self.ev(n.value, env)
        k = self.ev(n.slice, env)
        return self.getitem(o, k)

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        env.vars[n.target.id] = v
        return v

    def ev_Starred(self, n, env): raise Unsupported('starred')

    def ev_Call(self, n, env):
        f = self.ev_fn(n.func, env)
        if f is super:
            if n.args: 
                a = [self.ev(x, env) for x in n.args]
                return Super(a[0], a[1])
            e = env
            c = self.enclosing_class(env)
            return Super(c, env.selfv)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                r = self.iter_rope(self.ev(a.value, env))
                args += self.ctx.elems(r)
            else: args.append(self.ev(a, env))
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, HDict): items = v.items
                elif isinstance(v, dict): items = list(v.items())
                else: raise Unsupported('** of %s' % self.pytype(v).__name__)
                for a, b in items: kwargs[a] = b
            else: kwargs[k.arg] = v
        if f is locals or f is globals or f is vars and not args: raise Unsupported('locals()')
        return self.call(f, args, kwargs)

    def enclosing_class(self, env):
        # the class whose body defines the function: found through its name in the mro of self
        c = env.selfv if isinstance(env.selfv, type) else self.pytype(env.selfv)
        for k in c.__mro__:
            if k.__name__ == env.cls: return k
        raise Unsupported('super() without a class')

    def ev_fn(self, n, env): return self.ev(n, env)

    # comprehension
    def ev_ListComp(self, n, env):
        rope = self.comp_rope(n, env)
        return self.new_list(rope)

    def ev_GeneratorExp(self, n, env):
        # the outermost iterable is evaluated at once, the rest on demand
        first = self.ev(n.generators[0].iter, env)
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name) and isinstance(n.elt, ast.Name) and n.elt.id == g.target.id and \
                isinstance(g.iter, ast.Call) and isinstance(first, HList) and first.oid == self.ctx.oid and self.loops.sym_len(self, first) is not None:
            return SIter(first.rope, self.ctx.new_oid())        # nothing else refers to the list
        return Lazy((n, env, first))

    def ev_SetComp(self, n, env):
        s = HSet([], self.ctx.new_oid())
        for v in self.ctx.elems(self.comp_rope(n, env)): self.models.set_add(self, s, v)
        return s

    def ev_DictComp(self, n, env):
        d = HDict([], self.ctx.new_oid())
        fake = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        node = type('X', (), {})()
        node.elt, node.generators = fake, n.generators
        for kv in self.ctx.elems(self.comp_rope(node, env)): self.models.dict_set(self, d, kv[0], kv[1])
        return d

    def comp_rope(self, n, env, first=_MISSING):
        """Rope of the values produced by a comprehension."""
        out = [EMPTY]
        r = self.loops.sym_comp(self, n, env, first)
        if r is not None: return r

        def run(k, e):
            if k == len(n.generators):
                out[0] = self.ctx.cat(out[0], Rope([Elems([self.ev(n.elt, e)])]))
                return
            g = n.generators[k]
            it = first if (k == 0 and first is not _MISSING) else self.ev(g.iter, e)
            for v in self.iter_concrete(it):
                e2 = Env(e.globs, e, e.fname, e.cls)
                e2.selfv = e.selfv
                self.assign(g.target, v, e2)
                if all(self.truth(self.ev(c, e2)) for c in g.ifs): run(k + 1, e2)
        run(0, env)
        return out[0]

    def iter_concrete(self, it):
        """Python-level iteration over a value of known length (lazy)."""
        if isinstance(it, Lazy):
            if it.gen is not None:
                for v in it.gen: yield v
                return
            n, env, first = it.run
            if len(n.generators) == 1:
                g = n.generators[0]
                for v in self.iter_concrete(first):
                    e2 = Env(env.globs, env, env.fname, env.cls)
                    e2.selfv = env.selfv
                    self.assign(g.target, v, e2)
                    if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                        yield self.ev(n.elt, e2)
                return
            for v in self.ctx.elems(self.comp_rope(n, env, first)): yield v
            return
        if isinstance(it, SIter):
            while True:
                try: v = self.models.next_(self, it)
                except PyExc as e:
                    if issubclass(e.cls, StopIteration): return
                    raise
                yield v
            return
        if isinstance(it, (HList, SObj)) or isinstance(it, SRange) or isinstance(it, Sym) or type(it) in (list, tuple, bytes, bytearray, str) or isinstance(it, tuple):
            if isinstance(it, HList):
                k = 0
                while True:           # lists may grow while iterated
                    n = self.ctx.rlen(it.rope)
                    if not isinstance(n, int):
                        n = self.ctx.known_len(n)
                        if n is None: raise Unsupported('iteration over a list of unknown length')
                    if k >= n: return
                    yield self.ctx.rat(it.rope, k)
                    k += 1
            for v in self.ctx.elems(self.iter_rope(it)): yield v
            return
        if isinstance(it, dict):
            for v in it: yield v
            return
        try:
            xs = list(it)
        except TypeError as e:
            raise PyExc(e)
        for v in xs: yield v

    def iter_rope(self, it):
        """All the elements of an iterable as a rope."""
        ctx = self.ctx
        if self.is_bytes(it): return self.brope(it)
        if isinstance(it, SStr): return self.char_rope(it)
        if isinstance(it, str): return Rope([Elems(list(it))]) if it else EMPTY
        if isinstance(it, (tuple, list, STuple, HList)): return self.lrope(it)
        if isinstance(it, SObj) and issubclass(it.cls, tuple): return self.lrope(it)
        if isinstance(it, SObj):
            f = self.class_attr(it.cls, '__iter__')
            if isinstance(f, types.FunctionType): return self.iter_rope(self.call(f, [it], {}))
            self.raise_(TypeError, 'not iterable')
        if isinstance(it, HDict): return Rope([Elems([k for k, _ in it.items])])
        if isinstance(it, HSet): return Rope([Elems(it.items)])
        if isinstance(it, SIter):
            r = it.rope
            if it.lazy is not None: 
                vs = list(self.iter_concrete(it))
                return Rope([Elems(vs)]) if vs else EMPTY
            self.mutated(it)
            it.rope = EMPTY
            return r
        if isinstance(it, Lazy):
            if it.gen is not None:
                vs = list(it.gen)
                return Rope([Elems(vs)]) if vs else EMPTY
            n, env, first = it.run
            return self.comp_rope(n, env, first)
        if isinstance(it, SRange):
            n = self.length(it)
            if isinstance(n, int):
                return Rope([Elems([mk(zi(T(it.lo)) + k) for k in range(n)])]) if n else EMPTY
            lo = T(it.lo)
            return Rope([Lam(lambda i: mk(zi(lo) + zi(i)), 0, n, 'range_%s' % (lo,))])
        if isinstance(it, Sym):
            if isinstance(it, Poison): self.pytype(it)
            self.raise_(TypeError, 'not iterable')
        try:
            xs = list(it)
        except TypeError as e:
            raise PyExc(e)
        return Rope([Elems(xs)]) if xs else EMPTY

    def char_rope(self, s):
        raise Unsupported('iteration over symbolic text')

    # ------------------------------------------------------------------------------------------
    # subscripts

    def getitem(self, o, k):
        ctx = self.ctx
        if isinstance(o, HDict):
            for key, v in o.items:
                if self.truth(self.eqv(k, key)): return v
            self.raise_(KeyError)
        if isinstance(o, dict):
            if isinstance(k, Sym) or not self.conc(k)[0]:
                if is_int(k) and isinstance(k, (SInt,)) and all(isinstance(x, int) and isinstance(v, int) for x, v in o.items()) and len(o) > 4:
                    if not ctx.branch(self.in_ints(k, list(o))): self.raise_(KeyError)
                    return mk(self.table(T(k), o))
                for key, v in o.items():
                    if self.truth(self.eqv(k, key)): return v
                self.raise_(KeyError)
            try: return o[k]
            except Exception as e: raise PyExc(e)
        if self.is_bytes(o) or self.is_str(o) or isinstance(o, (tuple, list, STuple, HList)) or (isinstance(o, SObj) and issubclass(o.cls, tuple)):
            if isinstance(k, slice): return self.getslice(o, k)
            if not is_int(k):
                self.raise_(TypeError, 'indices must be integers')
            rope = self.rope_of(o)
            n = ctx.rlen(rope)
            i = T(k)
            neg = Lt(i, 0)
            if ctx.decide(neg): i = tn(zi(i) + zi(n))
            if not ctx.decide(And(Le(0, i), Lt(i, n))): self.raise_(IndexError)
            if isinstance(o, bytes) and not isinstance(i, int) and len(o) > 2:
                return mk(self.table(i, dict(enumerate(o))))
            e = ctx.rat(rope, tn(i))
            if self.is_str(o): return self.mkstr(Rope([Elems([e])]))
            return e
        if isinstance(o, SRange) and is_int(k):
            n = self.length(o)
            i = T(k)
            if ctx.decide(Lt(i, 0)): i = tn(zi(i) + zi(n))
            if not ctx.decide(And(Le(0, i), Lt(i, n))): self.raise_(IndexError)
            return mk(zi(T(o.lo)) + zi(i) * o.step)
        if self.objlike(o):
            f = self.class_attr(self.pytype(o), '__getitem__')
            if isinstance(f, types.FunctionType): return self.call(f, [o, k], {})
        ok, c = self.conc(k)
        if not isinstance(o, Sym) and ok:
            try: return o[c]
            except Exception as e: raise PyExc(e)
        raise Unsupported('subscript of %s' % self.pytype(o).__name__)

    def table(self, t, d):
        """Term for d[t], t known to be a key."""
        runs = []
        for k in sorted(d):
            v = d[k]
            if runs and runs[-1][1] == k - 1 and runs[-1][2] + (k - runs[-1][0]) == v: runs[-1][1] = k
            else: runs.append([k, k, v])
        r = z3.IntVal(0)
        for a, b, off in runs: r = z3.If(z3.And(t >= a, t <= b), t - a + off, r)
        return r

    def slice_bounds(self, k, n):
        ctx = self.ctx

        def idx(v, default):
            if v is None: return default
            if not is_int(v): self.raise_(TypeError, 'slice indices must be integers')
            t = T(v)
            if ctx.decide(Lt(t, 0)):
                t = tn(zi(t) + zi(n))
                if ctx.decide(Lt(t, 0)): return 0
                return t
            if ctx.decide(Le(t, n)): return t
            return n
        lo, hi = idx(k.start, 0), idx(k.stop, n)
        if not ctx.decide(Le(lo, hi)): hi = lo
        return tn(lo), tn(hi)

    def getslice(self, o, k):
        ctx = self.ctx
        rope = self.rope_of(o)
        n = ctx.rlen(rope)
        step = k.step
        if step is not None and not isinstance(step, int): raise Unsupported('symbolic slice step')
        if step in (None, 1):
            lo, hi = self.slice_bounds(k, n)
            a, _ = ctx.split(rope, hi)
            _, r = ctx.split(a, lo)
        elif step == -1 and k.start is None and k.stop is None:
            r = ctx.rev(rope)
        elif isinstance(n, int):
            ok, kk = self.conc(k)
            if not ok: raise Unsupported('slice')
            els = ctx.elems(rope)
            r = Rope([Elems(els[kk])]) if els[kk] else EMPTY
        else: raise Unsupported('slice step')
        return self.like(o, r)

    def like(self, o, r):
        if self.is_bytes(o):
            t = self.pytype(o)
            if issubclass(t, bytearray): return self.new_bytearray(r)
            return self.mkbytes(r)
        if self.is_str(o): return self.mkstr(r)
        if isinstance(o, (list, HList)): return self.new_list(r)
        return self.mktuple(r)

    def setitem(self, o, k, v):
        ctx = self.ctx
        if isinstance(o, HDict):
            self.mutated(o)
            return self.models.dict_set(self, o, k, v)
        if isinstance(o, (HList, HBytes)):
            rope = o.rope
            n = ctx.rlen(rope)
            if isinstance(k, slice):
                if k.step not in (None, 1): raise Unsupported('slice assignment with step')
                lo, hi = self.slice_bounds(k, n)
                a, rest = ctx.split(rope, lo)
                _, b = ctx.split(rest, tn(zi(hi) - zi(lo)))
                self.mutated(o)
                o.rope = ctx.cat(a, self.models.byte_rope(self, v) if isinstance(o, HBytes) else self.iter_rope(v), b)
                return
            i = T(k)
            if ctx.decide(Lt(i, 0)): i = tn(zi(i) + zi(n))
            if not ctx.decide(And(Le(0, i), Lt(i, n))): self.raise_(IndexError)
            if isinstance(o, HBytes):
                if not is_int(v): self.raise_(TypeError)
                if not ctx.decide(And(Le(0, T(v)), Le(T(v), 255))): self.raise_(ValueError)
            a, rest = ctx.split(rope, tn(i))
            _, b = ctx.split(rest, 1)
            self.mutated(o)
            o.rope = ctx.cat(a, Rope([Elems([v])]), b)
            return
        if self.objlike(o):
            f = self.class_attr(self.pytype(o), '__setitem__')
            if isinstance(f, types.FunctionType): return self.call(f, [o, k, v], {})
        if isinstance(o, (SBytes, SStr, STuple, bytes, str, tuple)): self.raise_(TypeError, 'immutable')
        raise Unsupported('item assignment to %s' % self.pytype(o).__name__)

    def delitem(self, o, k):
        ctx = self.ctx
        if isinstance(o, (HList, HBytes)):
            n = ctx.rlen(o.rope)
            if isinstance(k, slice):
                if k.step not in (None, 1): raise Unsupported('slice deletion with step')
                lo, hi = self.slice_bounds(k, n)
            else:
                lo = T(k)
                if ctx.decide(Lt(lo, 0)): lo = tn(zi(lo) + zi(n))
                if not ctx.decide(And(Le(0, lo), Lt(lo, n))): self.raise_(IndexError)
                hi = tn(zi(lo) + 1)
            a, rest = ctx.split(o.rope, lo)
            _, b = ctx.split(rest, tn(zi(hi) - zi(lo)))
            self.mutated(o)
            o.rope = ctx.cat(a, b)
            return
        if isinstance(o, HDict):
            for j, (key, v) in enumerate(o.items):
                if self.truth(self.eqv(k, key)):
                    self.mutated(o)
                    del o.items[j]
                    return
            self.raise_(KeyError)
        raise Unsupported('deletion from %s' % self.pytype(o).__name__)

    # ------------------------------------------------------------------------------------------
    # statements

    def block(self, stmts, env):
        for s in stmts: self.st(s, env)

    def st(self, n, env):
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None: raise Unsupported('statement %s' % type(n).__name__)
        return m(n, env)

    def st_Expr(self, n, env): self.ev(n.value, env)
    def st_Pass(self, n, env): pass
    def st_Break(self, n, env): raise BreakEx()
    def st_Continue(self, n, env): raise ContinueEx()
    def st_Global(self, n, env): raise Unsupported('global statement')
    def st_Nonlocal(self, n, env): raise Unsupported('nonlocal statement')

    def st_Return(self, n, env):
        raise ReturnEx(None if n.value is None else self.ev(n.value, env))

    def st_Assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets: self.assign(t, v, env)

    def st_AnnAssign(self, n, env):
        if n.value is not None: self.assign(n.target, self.ev(n.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env.vars[self.mangle(t.id, env)] = v
        elif isinstance(t, ast.Attribute): self.setattr_(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts): raise Unsupported('starred target')
            if isinstance(v, (Lazy, SIter)):
                vs = list(self.iter_concrete(v))
                if len(vs) != len(t.elts): self.raise_(ValueError, 'unpack')
            else:
                r = self.iter_rope(v)
                n = self.ctx.rlen(r)
                if not self.ctx.decide(Eq(n, len(t.elts))): self.raise_(ValueError, 'unpack')
                vs = [self.ctx.rat(r, k) for k in range(len(t.elts))]
            for e, x in zip(t.elts, vs): self.assign(e, x, env)
        else: raise Unsupported('assignment target')

    def st_AugAssign(self, n, env):
        t = n.target
        op = OPS[type(n.op)]
        if isinstance(t, ast.Name):
            a = self.lookup(self.mangle(t.id, env), env)
            put = lambda v: env.vars.__setitem__(self.mangle(t.id, env), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            nm = self.mangle(t.attr, env)
            a = self.getattr_(o, nm)
            put = lambda v: self.setattr_(o, nm, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            a = self.getitem(o, k)
            put = lambda v: self.setitem(o, k, v)
        else: raise Unsupported('augmented assignment')
        b = self.ev(n.value, env)
        if op == '+' and isinstance(a, HList):
            r = self.iter_rope(b)
            self.mutated(a)
            a.rope = self.ctx.cat(a.rope, r)
            put(a)
            return
        if op == '+' and isinstance(a, HBytes):
            if not self.is_bytes(b): self.raise_(TypeError, "can't concat")
            self.mutated(a)
            a.rope = self.ctx.cat(a.rope, self.brope(b))
            put(a)
            return
        if isinstance(a, (list, bytearray)) and not isinstance(a, Sym): raise Unsupported('mutation of a shared object')
        if isinstance(a, (HList, HBytes, HSet, HDict)): raise Unsupported('in-place %s' % op)
        put(self.binop(op, a, b))

    def st_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Subscript): self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Name): env.vars[t.id] = _MISSING
            else: raise Unsupported('del')

    def st_If(self, n, env):
        if self.truth(self.ev(n.test, env)): self.block(n.body, env)
        else: self.block(n.orelse, env)

    def st_Assert(self, n, env):
        v = self.ev(n.test, env)
        if self.in_unit_frame(env):
            self.unit.obligation(self, self.truthf_goal(v), n, env)
            return
        if not self.truth(v):
            self.raise_(AssertionError, *( [self.ev(n.msg, env)] if n.msg else []))

    def truthf_goal(self, v): return self.truthf(v)

    def in_unit_frame(self, env):
        return env.globs.get('__name__', '').startswith('specs.')

    def st_Raise(self, n, env):
        if n.exc is None:
            e = env
            cur = self.handling[-1] if self.handling else None
            if cur is None: self.raise_(RuntimeError)
            raise PyExc(cur)
        v = self.ev(n.exc, env)
        if isinstance(v, type): v = self.call(v, [], {})
        if isinstance(v, SObj) or isinstance(v, BaseException): raise PyExc(v)
        self.raise_(TypeError, 'exceptions must derive from BaseException')

    handling = ()

    def st_Try(self, n, env):
        try:
            try:
                self.block(n.body, env)
            except PyExc as e:
                for h in n.handlers:
                    if h.type is None: ok = True
                    else:
                        c = self.ev(h.type, env)
                        ok = issubclass(e.cls, c if isinstance(c, tuple) else (c,))
                    if ok:
                        if h.name: env.vars[h.name] = e.val
                        self.handling = list(self.handling) + [e.val]
                        try: self.block(h.body, env)
                        finally:
                            self.handling = self.handling[:-1]
                            if h.name: env.vars[h.name] = _MISSING
                        break
                else:
                    raise
            else:
                self.block(n.orelse, env)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            self.block(n.finalbody, env)
            raise
        self.block(n.finalbody, env)

    def st_With(self, n, env): raise Unsupported('with statement')

    def st_FunctionDef(self, n, env):
        if n.decorator_list: raise Unsupported('decorated local function')
        env.vars[n.name] = Func(n, env, env.globs, tuple(self.ev(d, env) for d in n.args.defaults),
                                {a.arg: self.ev(d, env) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None},
                                n.name, None, None)

    def st_ClassDef(self, n, env): raise Unsupported('local class')

    def st_Import(self, n, env):
        import importlib
        for a in n.names:
            m = importlib.import_module(a.name)
            if a.asname: env.vars[a.asname] = m
            else: env.vars[a.name.split('.')[0]] = importlib.import_module(a.name.split('.')[0])

    def st_ImportFrom(self, n, env):
        import importlib
        pkg = env.globs.get('__package__') or env.globs.get('__name__')
        name = ('.' * n.level) + (n.module or '')
        m = importlib.import_module(name, pkg)
        for a in n.names:
            if a.name == '*': raise Unsupported('import *')
            try: v = getattr(m, a.name)
            except AttributeError:
                try: v = importlib.import_module(m.__name__ + '.' + a.name)
                except ImportError as e: raise PyExc(e)
            env.vars[a.asname or a.name] = v

    def st_While(self, n, env): return self.loops.while_(self, n, env)
    def st_For(self, n, env): return self.loops.for_(self, n, env)


def walk_scope(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)): continue
        yield n
        stack.extend(ast.iter_child_nodes(n))


MUTATORS = {'append', 'extend', 'pop', 'insert', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'reverse', 'sort', 'popitem'}

import operator as _op
PYOPS = {'+': _op.add, '-': _op.sub, '*': _op.mul, '//': _op.floordiv, '%': _op.mod, '/': _op.truediv, '**': _op.pow,
         '&': _op.and_, '|': _op.or_, '^': _op.xor, '<<': _op.lshift, '>>': _op.rshift, '@': _op.matmul}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.Div: '/', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
OPNAMES = {'+': ('__add__', '__radd__'), '-': ('__sub__', '__rsub__'), '*': ('__mul__', '__rmul__'),
           '//': ('__floordiv__', '__rfloordiv__'), '%': ('__mod__', '__rmod__'), '/': ('__truediv__', '__rtruediv__'),
           '**': ('__pow__', '__rpow__'), '&': ('__and__', '__rand__'), '|': ('__or__', '__ror__'),
           '^': ('__xor__', '__rxor__'), '<<': ('__lshift__', '__rlshift__'), '>>': ('__rshift__', '__rrshift__'),
           '@': ('__matmul__', '__rmatmul__')}
CMP = {'<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge}
CMPNAMES = {'<': ('__lt__', '__gt__'), '<=': ('__le__', '__ge__'), '>': ('__gt__', '__lt__'), '>=': ('__ge__', '__le__')}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
          ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
