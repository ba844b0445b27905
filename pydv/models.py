"""Models of built-in functions, methods of built-in types and the few library functions the code uses."""
import binascii
import builtins
import functools
import hashlib
import hmac
import inspect
import types
import z3

from .core import *
from .interp import _MISSING, Poison, Restart, integral, as_int
from .eqs import rope_eq
from . import core

HASHLEN = {'sha256': 32, 'sha1': 20, 'ripemd160': 20, 'sha512': 64, 'md5': 16, 'sha224': 28, 'sha384': 48}

TABLE = {}


def model(*fs):
    def deco(h):
        for f in fs:
            try: TABLE[f] = h
            except TypeError: pass
        return h
    return deco


def texts():
    from . import texts
    return texts


def handler(f):
    try: return TABLE.get(f)
    except TypeError: return None


def allconc(it, args, kwargs):
    return all(it.conc(a)[0] for a in args) and all(it.conc(v)[0] for v in kwargs.values())


# ---- conversions ------------------------------------------------------------------------------

@model(len)
def m_len(it, args, kw):
    return mk(it.length(args[0]))


@model(isinstance)
def m_isinstance(it, args, kw):
    v, c = args
    if isinstance(c, tuple) and not all(isinstance(x, (type, tuple)) for x in c): raise Unsupported('isinstance')
    return it.isinst(v, c)


@model(issubclass)
def m_issubclass(it, args, kw): return issubclass(*args)


@model(type)
def m_type(it, args, kw):
    if len(args) != 1: raise Unsupported('type()')
    return it.pytype(args[0])


@model(bool)
def m_bool(it, args, kw):
    return it.boolv(it.truthf(args[0])) if args else False


@model(int)
def m_int(it, args, kw):
    if not args: return 0
    if allconc(it, args, kw): return it.native(int, args, kw)
    v = args[0]
    if len(args) == 1:
        if isinstance(v, (SBool, SInt)): return mk(zi(T(v)))
        if isinstance(v, SReal):
            if integral(z3.simplify(v.t)): return mk(as_int(z3.simplify(v.t)))
            return mk(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if isinstance(v, SStr):
            r = it.ctx.norm(v.rope)
            if len(r.p) == 1 and isinstance(r.p[0], Dec): return mk(r.p[0].v)
            r = texts().int_of(it, v)
            if r is not NotImplemented: return r
    if len(args) == 2 and args[1] == 16 or kw.get('base') == 16:
        if isinstance(v, (SStr, SBytes)):
            r = it.ctx.norm(v.rope)
            if len(r.p) == 1 and isinstance(r.p[0], Hex): return mk(it.ctx.val(256, r.p[0].rope, True))
    raise Unsupported('int(%s)' % it.pytype(v).__name__)


@model(float)
def m_float(it, args, kw):
    if allconc(it, args, kw): return it.native(float, args, kw)
    v = args[0]
    if isinstance(v, SReal): return v
    if is_int(v): return it.fround(it.real(v))
    if isinstance(v, SStr):
        from . import uris
        return uris.text_float(it, v)
    raise Unsupported('float()')


@model(round)
def m_round(it, args, kw):
    if allconc(it, args, kw): return it.native(round, args, kw)
    v = args[0]
    if len(args) > 1: raise Unsupported('round to digits')
    if is_int(v): return mk(zi(T(v)))
    t = v.t
    if integral(z3.simplify(t)): return mk(as_int(z3.simplify(t)))
    k = z3.ToInt(t + z3.Q(1, 2))
    r = z3.If(z3.And(z3.ToReal(k) == t + z3.Q(1, 2), k % 2 == 1), k - 1, k)
    return mk(r)


@model(abs)
def m_abs(it, args, kw):
    v = args[0]
    if allconc(it, args, kw): return it.native(abs, args, kw)
    t = T(v)
    return mk(z3.If(t >= 0, t, -t))


@model(ord)
def m_ord(it, args, kw):
    v = args[0]
    if it.conc(v)[0]: return it.native(ord, args, kw)
    if it.is_bytes(v) or it.is_str(v):
        r = it.rope_of(v)
        if not it.ctx.decide(Eq(it.ctx.rlen(r), 1)): it.raise_(TypeError)
        return it.ctx.rat(r, 0)
    it.raise_(TypeError)


@model(chr)
def m_chr(it, args, kw):
    v = args[0]
    if it.conc(v)[0]: return it.native(chr, args, kw)
    if not it.ctx.decide(And(Le(0, T(v)), Le(T(v), 0x10FFFF))): it.raise_(ValueError)
    return it.mkstr(Rope([Elems([v])]))


@model(divmod)
def m_divmod(it, args, kw):
    if is_int(args[0]) and is_int(args[1]): return it.idivmod(*args)
    return it.native(divmod, args, kw)


@model(pow)
def m_pow(it, args, kw):
    if allconc(it, args, kw): return it.native(pow, args, kw)
    if len(args) == 3:
        a, e, m = args
        x, y, p = zi(T(a)), zi(T(e)), zi(T(m))
        if isinstance(T(e), int) and 0 <= T(e) <= 3:
            t = z3.IntVal(1)
            for _ in range(T(e)): t = t * x
            return it.binop('%', mk(t), m)
        return modpow(it, x, y, p)
    return it.binop('**', args[0], args[1])


def modpow(it, x, y, p):
    """x**y mod p as an opaque number, the same for equal arguments."""
    x = z3.simplify(x)
    for (x1, y1, p1, t1) in it.ctx.modpows:
        if y1.eq(y) and p1.eq(p) and (x1.eq(x) or it.ctx.quick(x1 == x)): return mk(t1)
    t = z3.Function('modpow', I, I, I, I)(x, y, p)
    it.ctx.keep(t)
    it.ctx.fact_once(('modpow', t.get_id()), lambda: z3.Implies(p > 1, z3.And(t >= 0, t < p)))
    it.ctx.modpows.append((x, y, p, t))
    return mk(t)


@model(min, max)
def m_minmax(it, args, kw):
    raise Unsupported('min/max')


def minmax(sign):
    def h(it, args, kw):
        if kw: return it.native(min if sign < 0 else max, args, kw)
        vs = args if len(args) > 1 else it.ctx.elems(it.iter_rope(args[0]))
        if not vs: it.raise_(ValueError)
        if all(it.conc(v)[0] for v in vs): return it.native(min if sign < 0 else max, vs, {})
        if not all(is_int(v) for v in vs): raise Unsupported('min/max')
        r = zi(T(vs[0]))
        for v in vs[1:]:
            t = zi(T(v))
            r = z3.If(t < r, t, r) if sign < 0 else z3.If(t > r, t, r)
        return mk(r)
    return h


TABLE[min] = minmax(-1)
TABLE[max] = minmax(1)


@model(sum)
def m_sum(it, args, kw):
    acc = args[1] if len(args) > 1 else kw.get('start', 0)
    for v in it.iter_concrete(args[0]): acc = it.binop('+', acc, v)
    return acc


@model(all)
def m_all(it, args, kw): return quant(it, args[0], True)


@model(any)
def m_any(it, args, kw): return quant(it, args[0], False)


def quant(it, src, isall):
    r = it.loops.sym_quant(it, src, isall)
    if r is not None: return r
    for v in it.iter_concrete(src):
        t = it.truth(v)
        if isall and not t: return False
        if not isall and t: return True
    return isall


@model(range)
def m_range(it, args, kw):
    if allconc(it, args, kw): return it.native(range, args, kw)
    if not all(is_int(a) for a in args): it.raise_(TypeError)
    if len(args) == 1: return SRange(0, args[0], 1)
    if len(args) == 2: return SRange(args[0], args[1], 1)
    if args[2] == 1: return SRange(args[0], args[1], 1)
    raise Unsupported('range with a step')


@model(reversed)
def m_reversed(it, args, kw):
    v = args[0]
    if isinstance(v, (Lazy, SIter, HSet)): it.raise_(TypeError)
    if isinstance(v, SObj) and not issubclass(v.cls, tuple): raise Unsupported('reversed')
    return SIter(it.ctx.rev(it.iter_rope(v)), it.ctx.new_oid())


@model(iter)
def m_iter(it, args, kw):
    v = args[0]
    if isinstance(v, SIter): return v
    if isinstance(v, Lazy): return SIter(EMPTY, it.ctx.new_oid(), it.iter_concrete(v))
    return SIter(it.iter_rope(v), it.ctx.new_oid())


@model(next)
def m_next(it, args, kw):
    v = args[0]
    try: return next_(it, v)
    except PyExc as e:
        if len(args) > 1 and issubclass(e.cls, StopIteration): return args[1]
        raise


def next_(it, v):
    if isinstance(v, SIter):
        if v.lazy is not None:
            for x in v.lazy: return x
            it.raise_(StopIteration)
        n = it.ctx.rlen(v.rope)
        if it.ctx.decide(Le(n, 0)): it.raise_(StopIteration)
        if isinstance(v.rope.p[0], Flat):
            if not it.ctx.flat_grow(v.rope.p[0]): raise Unsupported('element of a concatenation')
            v.rope = Rope(it.ctx.flat_first(v.rope.p[0]).p + v.rope.p[1:])
        a, b = it.ctx.split(v.rope, 1)
        x = it.ctx.rat(a, 0)
        it.mutated(v)
        v.rope = b
        return x
    if isinstance(v, Lazy):
        # the generator keeps its own position
        if v.gen is None: v.gen = it.iter_concrete(Lazy(v.run))
        for x in v.gen: return x
        it.raise_(StopIteration)
    raise Unsupported('next() on %s' % it.pytype(v).__name__)


@model(enumerate)
def m_enumerate(it, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    r = it.iter_rope(args[0])
    return SIter(enum_rope(it, r, start), it.ctx.new_oid())


def enum_rope(it, r, start):
    ctx = it.ctx
    n = ctx.rlen(r)
    if isinstance(n, int):
        vs = ctx.elems(r)
        return Rope([Elems([(it.arith('+', start, k), v) for k, v in enumerate(vs)])]) if vs else EMPTY
    out, at = [], start
    for p in ctx.norm(r).p:
        n = ctx.plen(p)
        if isinstance(n, int): out.append(Elems([(it.arith('+', at, k), ctx.pat(p, k)) for k in range(n)]))
        else:
            ctx.lamcount += 1
            key = 'enum%d' % ctx.lamcount
            b = it.loops.base_of(ctx, p)
            if b is not None: ctx.lambase[key] = b
            out.append(Lam(lambda i, p=p, at=at: (it.arith('+', at, mk(zi(i))), ctx.pat(p, i)), 0, n, key))
        at = it.arith('+', at, mk(zi(n)))
    return Rope(out)


@model(zip)
def m_zip(it, args, kw):
    ropes = [it.iter_rope(a) for a in args]
    ns = [it.ctx.rlen(r) for r in ropes]
    if all(isinstance(n, int) for n in ns):
        vs = list(zip(*[it.ctx.elems(r) for r in ropes]))
        return SIter(Rope([Elems(vs)]) if vs else EMPTY, it.ctx.new_oid())
    raise Unsupported('zip of sequences of unknown length')


@model(map)
def m_map(it, args, kw):
    f = args[0]
    if len(args) == 2:
        r = it.loops.sym_map(it, lambda v: it.call(f, [v], {}), it.iter_rope(args[1]), 'map%d' % id(f))
        return SIter(r, it.ctx.new_oid())
    ropes = [it.ctx.elems(it.iter_rope(a)) for a in args[1:]]
    vs = [it.call(f, list(xs), {}) for xs in zip(*ropes)]
    return SIter(Rope([Elems(vs)]) if vs else EMPTY, it.ctx.new_oid())


@model(filter)
def m_filter(it, args, kw):
    f = args[0]
    if not isinstance(args[1], (Lazy, SIter)) and not isinstance(it.ctx.rlen(it.iter_rope(args[1])), int):
        def gen(r=it.iter_rope(args[1])):
            for v in it.ctx.elems(r):
                if it.truth(it.call(f, [v], {}) if f is not None else v): yield v
        return SIter(EMPTY, it.ctx.new_oid(), gen())
    vs = [v for v in it.ctx.elems(it.iter_rope(args[1])) if it.truth(it.call(f, [v], {}) if f is not None else v)]
    return SIter(Rope([Elems(vs)]) if vs else EMPTY, it.ctx.new_oid())


@model(list)
def m_list(it, args, kw):
    return it.new_list(it.iter_rope(args[0]) if args else EMPTY)


@model(tuple)
def m_tuple(it, args, kw):
    return it.mktuple(it.iter_rope(args[0])) if args else ()


@model(dict)
def m_dict(it, args, kw):
    d = HDict([], it.ctx.new_oid())
    if args:
        a = args[0]
        if isinstance(a, HDict): d.items = [list(x) for x in a.items]
        elif isinstance(a, dict): d.items = [[k, v] for k, v in a.items()]
        else:
            for kv in it.iter_concrete(a):
                k, v = it.ctx.elems(it.iter_rope(kv))
                dict_set(it, d, k, v)
    for k, v in kw.items(): dict_set(it, d, k, v)
    return d


@model(set)
def m_set(it, args, kw):
    s = HSet([], it.ctx.new_oid())
    if args:
        for v in it.iter_concrete(args[0]): set_add(it, s, v)
    return s


TABLE[frozenset] = m_set


def set_add(it, s, v):
    for x in s.items:
        if it.truth(it.eqv(x, v)): return
    it.mutated(s)
    s.items.append(v)


def dict_set(it, d, k, v):
    for e in d.items:
        if it.truth(it.eqv(e[0], k)):
            e[1] = v
            return
    d.items.append([k, v])


@model(sorted)
def m_sorted(it, args, kw):
    xs = it.ctx.elems(it.iter_rope(args[0]))
    if all(it.conc(x)[0] for x in xs) and allconc(it, [], kw):
        return it.native(sorted, [it.list_of(xs)], kw)
    if not kw and all(isinstance(x, (tuple, STuple)) for x in xs):
        # distinct known first components decide the order
        firsts = [it.ctx.elems(it.iter_rope(x))[0] for x in xs]
        if all(isinstance(f, str) for f in firsts) and len(set(firsts)) == len(firsts):
            return it.list_of([x for f, x in sorted(zip(firsts, xs), key=lambda p: p[0])])
    raise Unsupported('sorted')


@model(repr)
def m_repr(it, args, kw):
    if allconc(it, args, kw): return it.native(repr, args, kw)
    v = args[0]
    if isinstance(v, SObj):
        f = it.class_attr(v.cls, '__repr__')
        if isinstance(f, types.FunctionType) and it.unit.full_errors: return it.call(f, [v], {})
    if it.unit.full_errors and (it.is_bytes(v) or isinstance(v, SStr)): return shown(it, v)
    return OText('repr')


@model(str)
def m_str(it, args, kw):
    if not args: return ''
    if len(args) > 1: return method(it, args[0], 'decode', args[1:], kw)
    return tostr(it, args[0])


def shown(it, v):
    """repr() of a text or byte string: some text that depends on nothing else."""
    ctx = it.ctx
    f = z3.Function('repr_' + it.pytype(v).__name__, S, S)
    t = f(ctx.toterm(ctx.norm(it.srope(v) if it.is_str(v) else it.brope(v))))
    ctx.keep(t)
    ctx.fact_once(('repr', t.get_id()), lambda: f_len(t) >= 2)
    return SStr(ctx.term_rope(t, 'char'))


def tostr(it, v):
    if it.conc(v)[0]: return it.native(str, [v], {})
    if isinstance(v, (SStr, OText)): return v
    if is_int(v) and not isinstance(v, SBool):
        d = it.decstr(v)
        if d is None and it.unit.full_errors:
            if it.ctx.branch(zi(T(v)) < 0): return it.mkstr(it.ctx.cat(it.srope('-'), Rope([Dec(z3.simplify(-zi(T(v))))])))
            d = it.decstr(v)
        return it.mkstr(d) if d is not None else OText()
    if isinstance(v, SObj):
        f = it.class_attr(v.cls, '__str__')
        if isinstance(f, types.FunctionType) and it.unit.full_errors: return it.call(f, [v], {})
        f = it.class_attr(v.cls, '__repr__')
        if isinstance(f, types.FunctionType) and it.unit.full_errors: return it.call(f, [v], {})
    if it.unit.full_errors and it.is_bytes(v): return shown(it, v)
    return OText('str')


@model(format)
def m_format(it, args, kw):
    if allconc(it, args, kw): return it.native(format, args, kw)
    return OText('format')


@model(hash)
def m_hash(it, args, kw):
    v = args[0]
    if it.conc(v)[0] and not it.objlike(v): return it.native(hash, args, kw)
    if it.objlike(v):
        f = it.class_attr(it.pytype(v), '__hash__')
        if isinstance(f, types.FunctionType): return it.call(f, [v], {})
    f = z3.Function('pyhash', S, I)
    return mk(f(it.ctx.objterm(v)))


@model(getattr)
def m_getattr(it, args, kw):
    if not isinstance(args[1], str): raise Unsupported('getattr with a symbolic name')
    try: return it.getattr_(args[0], args[1])
    except PyExc as e:
        if len(args) > 2 and issubclass(e.cls, AttributeError): return args[2]
        raise


@model(setattr)
def m_setattr(it, args, kw): it.setattr_(args[0], args[1], args[2])


@model(hasattr)
def m_hasattr(it, args, kw):
    try:
        it.getattr_(args[0], args[1])
        return True
    except PyExc as e:
        if issubclass(e.cls, AttributeError): return False
        raise


@model(callable)
def m_callable(it, args, kw):
    v = args[0]
    return isinstance(v, (Func, Bound, BMeth)) or (not isinstance(v, Sym) and callable(v))


@model(print)
def m_print(it, args, kw): return None


# ---- bytes ------------------------------------------------------------------------------------

def byte_rope(it, v):
    """Bytes from an iterable of integers or a bytes-like object."""
    ctx = it.ctx
    if it.is_bytes(v): return it.brope(v)
    if it.is_str(v): it.raise_(TypeError, 'string argument without an encoding')
    r = it.iter_rope(v)
    out = []
    for p in ctx.norm(r).p:
        if isinstance(p, Elems):
            for e in p.v:
                if not is_int(e): it.raise_(TypeError, 'an integer is required')
                if not ctx.decide(And(Le(0, T(e)), Le(T(e), 255))): it.raise_(ValueError, 'byte must be in range(0, 256)')
            out.append(Elems([T(e) if isinstance(e, (bool, int)) else (e if isinstance(e, SInt) else mk(T(e))) for e in p.v]))
        elif isinstance(p, (Sl, Enc)) and (isinstance(p, Enc) or p.kind == 'byte'): out.append(p)
        elif isinstance(p, Rep) and is_int(p.v):
            if not ctx.decide(And(Le(0, T(p.v)), Le(T(p.v), 255))): it.raise_(ValueError)
            out.append(p)
        elif isinstance(p, (Hex,)): out.append(p)
        else: raise Unsupported('bytes of a symbolic sequence')
    return ctx.norm(Rope(out))


def zeros(it, n):
    t = T(n)
    if it.ctx.decide(Lt(t, 0)): it.raise_(ValueError, 'negative count')
    if isinstance(t, int):
        return Rope([Elems([0] * t)]) if 0 < t <= 512 else (EMPTY if t == 0 else Rope([Rep(0, t)]))
    return Rope([Rep(0, t)])


def bytes_arg(it, args, kw):
    if not args: return EMPTY
    v = args[0]
    if len(args) > 1 or kw:
        if it.is_str(v): return it.brope(method(it, v, 'encode', args[1:], kw))
        raise Unsupported('bytes() with keywords')
    if isinstance(v, (bool, SBool)) or is_int(v): return zeros(it, v)
    if v is None or isinstance(v, (float, SReal)): it.raise_(TypeError)
    if isinstance(v, SObj) and it.class_attr(v.cls, '__bytes__') is not _MISSING:
        return it.brope(it.call_method(v, '__bytes__'))
    return byte_rope(it, v)


@model(bytes)
def m_bytes(it, args, kw): return it.mkbytes(bytes_arg(it, args, kw))


@model(bytearray)
def m_bytearray(it, args, kw): return it.new_bytearray(bytes_arg(it, args, kw))


def make_bytearray(it, cls, args, kw):
    init = it.class_attr(cls, '__init__')
    if isinstance(init, types.FunctionType): raise Unsupported('bytearray subclass with __init__')
    return it.new_bytearray(bytes_arg(it, args, kw), cls)


@model(int.from_bytes)
def m_from_bytes(it, args, kw):
    if allconc(it, args, kw): return it.native(int.from_bytes, args, kw)
    order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
    if kw.get('signed', False) is not False: raise Unsupported('signed from_bytes')
    if not isinstance(order, str): raise Unsupported('byteorder')
    if order not in ('big', 'little'): it.raise_(ValueError)
    r = byte_rope(it, args[0])
    return mk(it.ctx.val(256, r, order == 'big'))


def to_bytes(it, v, args, kw):
    names = ['length', 'byteorder']
    a = dict(zip(names, args))
    a.update(kw)
    n = a.get('length', 1)
    order = a.get('byteorder', 'big')
    if a.get('signed', False) is not False: raise Unsupported('signed to_bytes')
    if order not in ('big', 'little'): it.raise_(ValueError)
    ctx = it.ctx
    t, k = T(v), T(n)
    if ctx.decide(Lt(k, 0)): it.raise_(ValueError)
    if ctx.decide(Lt(t, 0)): it.raise_(OverflowError)
    if not ctx.decide(Lt(t, ctx.P(256, k))): it.raise_(OverflowError)
    return it.mkbytes(enc_rope(it, t, k, order == 'big'))


def enc_rope(it, t, k, be):
    if isinstance(t, int) and isinstance(k, int):
        b = t.to_bytes(k, 'big' if be else 'little')
        return Rope([Elems(b)]) if b else EMPTY
    if isinstance(k, int) and k == 0: return EMPTY
    if isinstance(k, int) and k == 1: return Rope([Elems([mk(zi(t))])])
    return Rope([Enc(256, t, k, be)])


# ---- hashing ----------------------------------------------------------------------------------

class HashObj(object):
    """Stand-in class of hashlib/hmac objects over symbolic data."""


def hash_rope(it, kind, rope, n):
    """Opaque digest with congruence over provably equal arguments."""
    ctx = it.ctx
    rope = ctx.norm(rope)
    f = z3.Function('H_' + kind, S, S)
    known = ctx.hashes.setdefault(kind, [])
    for r, t in known:
        if len(r.p) == len(rope.p) and repr(r) == repr(rope):
            return ctx.term_rope(t, 'byte', n)
    t = f(ctx.toterm(rope))
    for r, u in known:
        if u.eq(t): return ctx.term_rope(t, 'byte', n)
    for r, u in known:
        q = rope_eq(it, r, rope)
        if q is False: continue
        if q is True or ctx.quick(q): return ctx.term_rope(u, 'byte', n)
        ctx.add(z3.Implies(q, u == t))
    known.append((rope, t))
    return ctx.term_rope(t, 'byte', n)


def mk_hash(kind):
    def h(it, args, kw):
        if allconc(it, args, kw): return it.native(getattr(hashlib, kind), args, kw)
        r = EMPTY
        if args:
            if it.is_str(args[0]): it.raise_(TypeError)
            r = it.brope(args[0])
        return SObj(HashObj, {'kind': kind, 'rope': r}, it.ctx.new_oid())
    return h


for _k in ('sha256', 'sha1', 'sha512', 'md5', 'sha224', 'sha384'):
    TABLE[getattr(hashlib, _k)] = mk_hash(_k)


@model(hashlib.new)
def m_hnew(it, args, kw):
    if allconc(it, args, kw): return it.native(hashlib.new, args, kw)
    kind = args[0]
    if kind not in HASHLEN: raise Unsupported('hash %r' % (kind,))
    r = it.brope(args[1]) if len(args) > 1 else EMPTY
    return SObj(HashObj, {'kind': kind, 'rope': r}, it.ctx.new_oid())


@model(hmac.new)
def m_hmac(it, args, kw):
    names = ['key', 'msg', 'digestmod']
    a = dict(zip(names, args))
    a.update(kw)
    if allconc(it, list(a.values()), {}): return it.native(hmac.new, [], a)
    d = a.get('digestmod')
    kind = d if isinstance(d, str) else getattr(d, '__name__', '').replace('openssl_', '')
    if kind not in HASHLEN: raise Unsupported('hmac digest')
    msg = a.get('msg')
    return SObj(HashObj, {'kind': 'hmac_' + kind, 'key': it.brope(a['key']), 'rope': EMPTY if msg is None else it.brope(msg)}, it.ctx.new_oid())


def hash_digest(it, o):
    kind = o.fields['kind']
    if kind.startswith('hmac_'):
        n = HASHLEN[kind[5:]]
        ctx = it.ctx
        # the key is part of the argument: pair it with the message through an injective separator
        rk, rm = ctx.norm(o.fields['key']), ctx.norm(o.fields['rope'])
        known = ctx.hashes.setdefault(kind, [])
        f = z3.Function('H_' + kind, S, S, S)
        for (k, m), t in known:
            if repr(k) == repr(rk) and repr(m) == repr(rm): return it.mkbytes(ctx.term_rope(t, 'byte', n))
        t = f(ctx.toterm(rk), ctx.toterm(rm))
        for (k, m), u in known:
            q = And(rope_eq(it, k, rk), rope_eq(it, m, rm))
            if q is False: continue
            if q is True or ctx.quick(q): return it.mkbytes(ctx.term_rope(u, 'byte', n))
            ctx.add(z3.Implies(q, u == t))
        known.append(((rk, rm), t))
        return it.mkbytes(ctx.term_rope(t, 'byte', n))
    return it.mkbytes(hash_rope(it, kind, o.fields['rope'], HASHLEN[kind]))


def _hdigest(self): pass
def _hhexdigest(self): pass
def _hupdate(self, data): pass


HashObj.digest = _hdigest
HashObj.hexdigest = _hhexdigest
HashObj.update = _hupdate
TABLE[_hdigest] = lambda it, args, kw: hash_digest(it, args[0])
TABLE[_hhexdigest] = lambda it, args, kw: it.mkstr(Rope([Hex(it.brope(hash_digest(it, args[0])))]))


def _upd(it, args, kw):
    o = args[0]
    it.mutated(o, 'rope')
    o.fields['rope'] = it.ctx.cat(o.fields['rope'], it.brope(args[1]))


TABLE[_hupdate] = _upd


# ---- hex --------------------------------------------------------------------------------------

@model(binascii.hexlify, binascii.b2a_hex)
def m_hexlify(it, args, kw):
    v = args[0]
    if it.conc(v)[0]: return it.native(binascii.hexlify, args, kw)
    if not it.is_bytes(v): it.raise_(TypeError)
    return it.mkbytes(Rope([Hex(it.ctx.norm(it.brope(v)))]))


@model(binascii.unhexlify, binascii.a2b_hex)
def m_unhexlify(it, args, kw):
    v = args[0]
    if it.conc(v)[0]: return it.native(binascii.unhexlify, args, kw)
    if it.is_str(v) or it.is_bytes(v): return it.mkbytes(unhex(it, it.rope_of(v), it.is_str(v)))
    it.raise_(TypeError)


f_unhex = z3.Function('unhex', S, S)
f_ishex = z3.Function('ishex', S, B)


def unhex(it, rope, isstr):
    ctx = it.ctx
    rope = ctx.norm(rope)
    out = []
    ps = list(rope.p)
    if all(isinstance(p, Hex) or (isinstance(p, Elems) and all(isinstance(e, int) for e in p.v) and len(p.v) % 2 == 0) for p in ps):
        for p in ps:
            if isinstance(p, Hex): out += list(p.rope.p)
            else:
                try: out.append(Elems(binascii.unhexlify(bytes(p.v))))
                except ValueError as e: raise PyExc(e)
        return ctx.norm(Rope(out))
    t = ctx.toterm(rope)
    n = ctx.rlen(rope)
    if not ctx.branch(f_ishex(t)):
        if isstr and ctx.branch(z3.Not(f_ascii(t))): it.raise_(ValueError)
        it.raise_(binascii.Error)
    u = f_unhex(t)
    ctx.add(z3.And(zi(n) == 2 * f_len(u), f_len(u) >= 0))
    return ctx.term_rope(u, 'byte')


# ---- methods ----------------------------------------------------------------------------------

def method(it, o, name, args, kw):
    ctx = it.ctx
    oc, co = it.conc(o)
    if isinstance(o, SObj) and name in ('__init__', '__init_subclass__'): return None
    if isinstance(o, (HBytes, HList)):
        r = mut_method(it, o, name, args, kw)
        if r is not NotImplemented: return r
    elif isinstance(o, HDict):
        r = dict_method(it, o, name, args, kw)
        if r is not NotImplemented: return r
    elif isinstance(o, HSet):
        if name == 'add': return set_add(it, o, args[0])
    if isinstance(o, SIter):
        if name == '__next__': return next_(it, o)
        if name == '__iter__': return o
    if it.is_bytes(o):
        r = bytes_method(it, o, name, args, kw)
        if r is not NotImplemented: return r
    if it.is_str(o):
        r = str_method(it, o, name, args, kw)
        if r is not NotImplemented: return r
    if is_int(o):
        if name == 'to_bytes' and not (oc and allconc(it, args, kw)): return to_bytes(it, o, args, kw)
        if name == 'bit_length' and not oc:
            t = T(o)
            t = zi(t)
            a = tn(z3.If(t >= 0, t, -t)) if not ctx.prove(t >= 0) else t
            nd2, nd = ctx.ndig(2, a), ctx.ndig(256, a)
            ctx.add(z3.And(z3.Implies(zi(a) > 0, z3.And(8 * nd - 7 <= nd2, nd2 <= 8 * nd)), z3.Implies(zi(a) == 0, z3.And(nd2 == 0, nd == 0))))
            return mk(nd2)
    if isinstance(o, (tuple, list, STuple)) and name in ('index', 'count') or isinstance(o, HList) and name in ('index', 'count'):
        es = ctx.elems(it.iter_rope(o))
        if name == 'index':
            for k, e in enumerate(es):
                if it.truth(it.eqv(e, args[0])): return k
            it.raise_(ValueError)
        return mk(sum([zi(Ite(it.eq(e, args[0]), 1, 0)) for e in es], z3.IntVal(0)))
    if type(o) is dict and name in ('get', 'items', 'keys', 'values', 'copy'):
        if not allconc(it, args, kw) or name in ('items', 'copy'):
            d = HDict([[k, v] for k, v in o.items()], ctx.new_oid())
            if name == 'get' and isinstance(args[0], SInt):
                # total lookup by an integer key: branch per key is too wide
                for k, v in o.items():
                    if is_int(k) and it.truth(it.eqv(args[0], k)): return v
                return args[1] if len(args) > 1 else None
            return dict_method(it, d, name, args, kw)
    if oc and allconc(it, args, kw):
        if isinstance(o, (bytearray, list, dict, set)) and not isinstance(o, Sym) and (name in MUT):
            raise Unsupported('mutation of a shared object')
        return it.native(getattr(co, name), args, kw)
    raise Unsupported('method %s of %s' % (name, it.pytype(o).__name__))


MUT = {'append', 'extend', 'pop', 'insert', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'reverse', 'sort', 'popitem'}


def mut_method(it, o, name, args, kw):
    ctx = it.ctx
    isb = isinstance(o, HBytes)

    def elem(v):
        if isb:
            if not is_int(v): it.raise_(TypeError)
            if not ctx.decide(And(Le(0, T(v)), Le(T(v), 255))): it.raise_(ValueError)
            if not isinstance(v, (int, SInt)) or isinstance(v, bool): v = mk(zi(T(v)))
        return v
    if name == 'append':
        v = elem(args[0])
        it.mutated(o)
        o.rope = ctx.cat(o.rope, Rope([Elems([v])]))
        return None
    if name == 'extend' or name == '__iadd__':
        r = byte_rope(it, args[0]) if isb else it.iter_rope(args[0])
        it.mutated(o)
        o.rope = ctx.cat(o.rope, r)
        return None if name == 'extend' else o
    if name == 'reverse':
        it.mutated(o)
        o.rope = ctx.rev(o.rope)
        return None
    if name == 'clear':
        it.mutated(o)
        o.rope = EMPTY
        return None
    if name == 'copy':
        return it.new_bytearray(o.rope) if isb else it.new_list(o.rope)
    if name == 'pop':
        n = ctx.rlen(o.rope)
        i = T(args[0]) if args else -1
        if ctx.decide(Lt(i, 0)): i = tn(zi(i) + zi(n))
        if not ctx.decide(And(Le(0, i), Lt(i, n))): it.raise_(IndexError)
        a, rest = ctx.split(o.rope, tn(i))
        x, b = ctx.split(rest, 1)
        v = ctx.rat(x, 0)
        it.mutated(o)
        o.rope = ctx.cat(a, b)
        return v
    if name == 'insert':
        v = elem(args[1])
        n = ctx.rlen(o.rope)
        i = T(args[0])
        if ctx.decide(Lt(i, 0)):
            i = tn(zi(i) + zi(n))
            if ctx.decide(Lt(i, 0)): i = 0
        if not ctx.decide(Le(i, n)): i = n
        a, b = ctx.split(o.rope, tn(i))
        it.mutated(o)
        o.rope = ctx.cat(a, Rope([Elems([v])]), b)
        return None
    if name == 'remove':
        es = ctx.elems(o.rope)
        for k, e in enumerate(es):
            if it.truth(it.eqv(e, args[0])):
                it.mutated(o)
                es = es[:k] + es[k + 1:]
                o.rope = Rope([Elems(es)]) if es else EMPTY
                return None
        it.raise_(ValueError)
    if name == 'sort': raise Unsupported('sort')
    return NotImplemented


def dict_method(it, o, name, args, kw):
    if name == 'get':
        for k, v in o.items:
            if it.truth(it.eqv(args[0], k)): return v
        return args[1] if len(args) > 1 else None
    if name == 'items': return it.list_of([(k, v) for k, v in o.items])
    if name == 'keys': return it.list_of([k for k, v in o.items])
    if name == 'values': return it.list_of([v for k, v in o.items])
    if name == 'copy': return HDict([list(x) for x in o.items], it.ctx.new_oid())
    if name == 'update':
        it.mutated(o)
        for a in args:
            items = a.items if isinstance(a, HDict) else list(a.items())
            for k, v in items: dict_set(it, o, k, v)
        for k, v in kw.items(): dict_set(it, o, k, v)
        return None
    if name == 'pop':
        for j, (k, v) in enumerate(o.items):
            if it.truth(it.eqv(args[0], k)):
                it.mutated(o)
                del o.items[j]
                return v
        if len(args) > 1: return args[1]
        it.raise_(KeyError)
    if name == 'setdefault':
        for k, v in o.items:
            if it.truth(it.eqv(args[0], k)): return v
        it.mutated(o)
        o.items.append([args[0], args[1] if len(args) > 1 else None])
        return o.items[-1][1]
    return NotImplemented


def is_ascii(it, rope):
    """Formula: all bytes below 128."""
    ctx = it.ctx
    cs = []
    for p in ctx.norm(rope).p:
        if isinstance(p, Elems): cs += [Lt(T(e), 128) for e in p.v]
        elif isinstance(p, (Hex, Dec)): pass
        elif isinstance(p, Enc) and p.alpha == 58: pass
        elif isinstance(p, Rep): cs.append(Or(Le(p.n, 0), Lt(T(p.v), 128)))
        else:
            t = ctx.toterm(Rope([p]))
            a = z3.Function('ascii', S, B)(t)
            if isinstance(p, Sl) and p.kind == 'byte':
                vs = [z3.And(f_valid[58](p.term, zi(lo), zi(n)), zi(lo) <= zi(p.lo), zi(p.lo) + zi(p.n) <= zi(lo) + zi(n))
                      for (k, tm, lo, n) in ctx.vals if k == 'valid58' and tm.eq(p.term)]
                if vs: ctx.add(z3.Implies(z3.Or(*vs), a))
            cs.append(a)
    return And(*cs)


f_utf8 = z3.Function('utf8', S, S)
f_ascii = z3.Function('asciitext', S, B)
f_encodable = z3.Function('encodable', S, B)


def bytes_method(it, o, name, args, kw):
    ctx = it.ctx
    if it.conc(o)[0] and allconc(it, args, kw) and name not in MUT:
        return it.native(getattr(it.conc(o)[1], name), args, kw)
    if name == 'decode':
        f = is_ascii(it, it.brope(o))
        if f is True or ctx.prove(f): return it.mkstr(it.brope(o))
        raise Unsupported('decode of arbitrary bytes')
    if name == 'hex' and not args: return it.mkstr(Rope([Hex(ctx.norm(it.brope(o)))]))
    if name in ('startswith', 'endswith') and len(args) == 1:
        alts = args[0] if isinstance(args[0], tuple) else (args[0],)
        fs = []
        for x in alts:
            if not it.is_bytes(x): it.raise_(TypeError)
            n, m = it.length(o), it.length(x)
            if not ctx.decide(Le(m, n)):
                fs.append(False)
                continue
            sl = it.getslice(o, slice(None, mk(zi(m)))) if name == 'startswith' else it.getslice(o, slice(mk(zi(n) - zi(m)), None))
            fs.append(it.eq(sl, x))
        return it.boolv(Or(*fs))
    if name in ('lstrip', 'rstrip') and args and isinstance(args[0], bytes) and len(args[0]) == 1:
        r = ctx.norm(it.brope(o))
        c = args[0][0]
        return strip_byte(it, o, r, c, name == 'lstrip')
    if name == 'rjust' or name == 'ljust':
        n, w = it.length(o), T(args[0])
        c = args[1] if len(args) > 1 else b' '
        if ctx.decide(Le(w, n)): return it.like(o, it.brope(o))
        pad = it.brope(it.repeat(c, mk(zi(w) - zi(n))))
        return it.like(o, ctx.cat(pad, it.brope(o)) if name == 'rjust' else ctx.cat(it.brope(o), pad))
    if name == 'join':
        r = it.loops.join_loop(it, o, args[0])
        if r is not None: return r
        parts = ctx.elems(it.iter_rope(args[0]))
        out = EMPTY
        for k, p in enumerate(parts):
            if not it.is_bytes(p): it.raise_(TypeError)
            if k: out = ctx.cat(out, it.brope(o))
            out = ctx.cat(out, it.brope(p))
        return it.like(o, out)
    return NotImplemented


def strip_byte(it, o, r, c, left):
    ctx = it.ctx
    n = ctx.rlen(r)
    if left and len(r.p) == 1 and c == 0:
        k = ctx.rlz(256, r)
        _, b = ctx.split(r, k)
        return it.like(o, b)
    raise Unsupported('strip')


def format_text(it, o, args, kw):
    """str.format of a known template; values without a format specification are shown by str()."""
    import string
    ok, template = it.conc(o)
    if not ok: return OText('format')
    try: parts = list(string.Formatter().parse(template))
    except ValueError as e: raise PyExc(e)
    out, auto, lost = EMPTY, 0, False
    for lit, field, spec, conv in parts:
        out = it.ctx.cat(out, it.srope(lit))
        if field is None: continue
        first, rest = string._string.formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args): it.raise_(IndexError)
            v = args[first]
        else:
            if first not in kw: it.raise_(KeyError, first)
            v = kw[first]
        for attr, name in rest:
            if not attr: raise Unsupported('item in a format field')
            v = it.getattr_(v, name)
        if spec or conv not in (None, 's'):
            ok, c = it.conc(v)
            if not ok or '{' in spec:
                lost = True
                continue
            t = it.native(format, [{'r': repr, 'a': ascii, 's': str, None: lambda x: x}[conv](c), spec], {})
        else: t = tostr(it, v)
        if isinstance(t, OText): lost = True
        else: out = it.ctx.cat(out, it.srope(t))
    return OText('format', it.rleast(out)) if lost else it.mkstr(out)


def str_method(it, o, name, args, kw):
    ctx = it.ctx
    if name == 'format':
        if it.conc(o)[0] and allconc(it, args, kw): return it.native(it.conc(o)[1].format, args, kw)
        return format_text(it, o, args, kw)
    if it.conc(o)[0] and allconc(it, args, kw): return it.native(getattr(it.conc(o)[1], name), args, kw)
    if isinstance(o, OText): 
        if name in ('strip', 'lower', 'upper', 'join', 'replace'): return OText()
        raise Unsupported('%s of untracked text' % name)
    if name == 'join':
        r = it.loops.join_loop(it, o, args[0])
        if r is not None: return r
        parts = ctx.elems(it.iter_rope(args[0]))
        if any(isinstance(p, OText) for p in parts): return OText()
        out = EMPTY
        for k, p in enumerate(parts):
            if not it.is_str(p): it.raise_(TypeError)
            if k: out = ctx.cat(out, it.srope(o))
            out = ctx.cat(out, it.srope(p))
        return it.mkstr(out)
    if name == 'rstrip' and len(args) == 1:
        from . import uris
        r = uris.rstrip_fixed(it, o, args[0])
        if r is not None: return r
    if name == 'split' and len(args) == 1 and not kw and isinstance(o, SStr):
        r = texts().split(it, o, args[0])
        if r is NotImplemented: r = texts().split_any(it, o, args[0])
        if r is not NotImplemented: return r
    if name == 'encode':
        return encode_text(it, o, args, kw)
    if name in ('startswith', 'endswith') and len(args) == 1 and it.is_str(args[0]):
        x = args[0]
        if name == 'startswith':
            r, (c, t) = ctx.norm(it.srope(o)), it.conc(x)
            if r.p and isinstance(r.p[0], Dec) and c and t and not '0' <= t[0] <= '9': return False
        n, m = it.length(o), it.length(x)
        if not ctx.decide(Le(m, n)): return False
        sl = it.getslice(o, slice(None, mk(zi(m)))) if name == 'startswith' else it.getslice(o, slice(mk(zi(n) - zi(m)), None))
        return it.eqv(sl, x)
    if name == 'isdigit':
        r = ctx.norm(it.srope(o))
        if len(r.p) == 1 and isinstance(r.p[0], Dec): return True
        if r.p and isinstance(r.p[0], Elems) and all(isinstance(e, int) for e in r.p[0].v) and not ''.join(map(chr, r.p[0].v)).isdigit(): return False
        return texts().isdigit(it, o)
    return NotImplemented


def encode_text(it, o, args, kw):
    """str.encode: ASCII text keeps its codes; other text is opaque bytes with a byte above 127."""
    ctx = it.ctx
    enc = args[0] if args else kw.get('encoding', 'utf-8')
    if not isinstance(enc, str): raise Unsupported('encode')
    e = enc.lower().replace('-', '').replace('_', '')
    if e not in ('utf8', 'ascii', 'latin1'): raise Unsupported('encode %s' % enc)
    r = ctx.norm(it.srope(o))
    out = []
    for p in r.p:
        if isinstance(p, Sl) and p.kind == 'char':
            t = ctx.toterm(Rope([p]))
            n = ctx.plen(p)
            if not ctx.branch(f_ascii(t)):
                if e == 'ascii': it.raise_(UnicodeEncodeError)
                if e == 'latin1': raise Unsupported('latin-1')
                if not ctx.branch(f_encodable(t)): it.raise_(UnicodeEncodeError)
                if len(r.p) > 1: raise Unsupported('encode of mixed text')
                u = f_utf8(t)
                ctx.keep(u)
                w = ctx.fresh_int('na')
                ctx.add(z3.And(f_len(u) >= 2, w >= 0, w < f_len(u)))
                ctx.add(f_len(u) > zi(n))
                ctx.add(ctx.aterm(u, w) >= 128)
                return it.mkbytes(ctx.term_rope(u, 'byte'))
            # same codes, now bytes
            ctx.asciiterms.add(t.get_id())
            ctx.keep(t)
            for idx in ctx.atc.get(t.get_id(), []): ctx.add(f_at(t, zi(idx)) < 128)
            out.append(Sl(p.term, p.lo, p.n, 'byte', p.rev))
        else:
            f = is_ascii(it, Rope([p]))
            if f is not True and not ctx.prove(f):
                if e == 'utf8' or not ctx.branch(f): raise Unsupported('encode of non-ASCII text')
            out.append(p)
    return it.mkbytes(Rope(out))


@model(super)
def m_super(it, args, kw):
    if len(args) == 2: return Super(args[0], args[1])
    raise Unsupported('super')


@model(bytes.fromhex)
def m_fromhex(it, args, kw):
    if allconc(it, args, kw): return it.native(bytes.fromhex, args, kw)
    r = it.ctx.norm(it.srope(args[0]))
    if all(isinstance(p, Hex) for p in r.p): return it.mkbytes(unhex(it, r, True))
    raise Unsupported('fromhex')


@model(object.__init__)
def m_objinit(it, args, kw): return None


@model(object.__new__)
def m_objnew(it, args, kw): return SObj(args[0], {}, it.ctx.new_oid())
