"""Symbolic meaning of specs.prims."""
from .core import *
from . import models
from .eqs import rope_eq
from specs import prims


@models.model(prims.ndigits)
def _ndigits(it, args, kw):
    v, b = args
    if it.conc(v)[0]: return it.native(prims.ndigits, args, kw)
    return mk(zi(it.ctx.ndig(b, T(v))))


@models.model(prims.enc58)
def _enc58(it, args, kw):
    v, n = T(args[0]), T(args[1])
    if isinstance(v, int) and isinstance(n, int): return prims.enc58(v, n)
    if isinstance(n, int) and n == 0: return b''
    if not it.ctx.prove(And(Le(0, v), Lt(v, it.ctx.P(58, n)))): raise Unsupported('enc58 out of range')
    return it.mkbytes(Rope([Enc(58, v, n, True)]))


@models.model(prims.valid58)
def _valid58(it, args, kw):
    return it.boolv(it.ctx.allvalid(58, it.ctx.norm(it.brope(args[0]))))


@models.model(prims.val58)
def _val58(it, args, kw):
    return mk(zi(it.ctx.val(58, it.ctx.norm(it.brope(args[0])), True)))


@models.model(prims.leading)
def _leading(it, args, kw):
    return mk(zi(it.ctx.rlz(args[1], it.ctx.norm(it.brope(args[0])))))


def _find(it, reg, rope):
    """A registered rope provably equal to this one."""
    ctx = it.ctx
    for r in reg:
        if r is rope: return r
    n = ctx.rlen(rope)
    for r in reg:
        f = Eq(ctx.rlen(r), n)
        if f is False or not ctx.quick(f): continue
        try: f = rope_eq(it, r, rope)
        except Unsupported: continue
        if f is True or (f is not False and ctx.quick(f)): return r
    return None


@models.model(prims.canon)
def _canon(it, args, kw):
    v = args[0]
    if not isinstance(v, (SBytes, HBytes, SStr)): return v
    r = _find(it, it.ctx.canons, it.ctx.norm(v.rope))
    if r is None:
        it.ctx.canons.append(it.ctx.norm(v.rope))
        return v
    if isinstance(v, SStr): return SStr(r)
    return it.mkbytes(r)


def _unique(it, alpha, k, v):
    """The digit string with k leading zeros and value v: a known one if there is one, else a new opaque one."""
    ctx = it.ctx
    kind = ctx.canons
    for r in ctx.canons:
        f = ctx.allvalid(alpha, r)
        if f is False or (f is not True and not ctx.quick(f)): continue
        if len(r.p) != 1 and alpha == 58: pass
        f = Eq(ctx.val(alpha, r, True), v)
        if f is False or (f is not True and not ctx.quick(f)): continue
        f = Eq(ctx.rlz(alpha, r), k)
        if f is False or (f is not True and not ctx.quick(f)): continue
        return r
    nd = ctx.ndig(alpha, v)
    if it.unit.opts.get('explicit_digits'):
        return ctx.norm(Rope([Rep(elem_of(alpha, 0), k), Enc(alpha, v, nd, True)]))
    n = tn(zi(k) + zi(nd))
    r = ctx.new_seq('byte', 'u%d' % alpha, n=n)
    if not r.p: return r
    t = r.p[0].term
    if alpha == 58: ctx.add(ctx.valid(t, 0, n))
    ctx.add(ctx.slval(alpha, True, t, 0, n) == zi(v))
    ctx.add(zi(ctx.lz(alpha, t, 0, n)) == zi(k))
    ctx.canons.append(r)
    return r


@models.model(prims.digits)
def _digits(it, args, kw):
    base, k, v = args
    if allc(it, args): return it.native(prims.digits, args, kw)
    if not it.ctx.prove(And(Le(0, T(k)), Le(0, T(v)))): raise Unsupported('digits of a negative number')
    r = _unique(it, base, T(k), T(v))
    if base == 58 and len(r.p) == 1 and isinstance(r.p[0], Sl): it.ctx.asciiterms.add(r.p[0].term.get_id())
    return it.mkbytes(r)


def allc(it, args): return all(it.conc(a)[0] for a in args)


@models.model(prims.hexvalid)
def _hexvalid(it, args, kw):
    if allc(it, args): return it.native(prims.hexvalid, args, kw)
    return it.boolv(models.f_ishex(it.ctx.toterm(it.rope_of(args[0]))))


@models.model(prims.unhex)
def _unhex(it, args, kw):
    if allc(it, args): return it.native(prims.unhex, args, kw)
    return it.mkbytes(models.unhex(it, it.rope_of(args[0]), True))


@models.model(prims.lemma_lift)
def _lemma_lift(it, args, kw):
    ctx = it.ctx
    x, y = zi(T(args[0])), zi(T(args[1]))
    p = prims.SECP_P
    if not ctx.prove(z3.And(x >= 0, x < p, y >= 0, y < p, (y * y - (x * x * x + 7)) % p == 0)): raise Unsupported('lemma_lift')
    a = (x * x * x + 7) % p
    e, r = [zi(T(models.modpow(it, a, z3.IntVal(k), z3.IntVal(p)))) for k in ((p - 1) // 2, (p + 1) // 4)]
    ctx.add(a != 0)
    ctx.add(e == 1)
    ctx.add(z3.And(y > 0, z3.Or(r == y, r == p - y)))
    ctx.add((r * r - (x * x * x + 7)) % p == 0)
    ctx.add(((p - r) * (p - r) - (x * x * x + 7)) % p == 0)
    it.unit.res.assumed.add('lemma_lift: ' + ' '.join(prims.lemma_lift.__doc__.split()))
    return None


@models.model(prims.pubpair)
def _pubpair(it, args, kw):
    ctx = it.ctx
    s = zi(T(args[0]))
    p = prims.SECP_P
    x, y = z3.Function('pubx', I, I)(s), z3.Function('puby', I, I)(s)
    ctx.keep(x)
    ctx.keep(y)
    ctx.fact_once(('pubpair', s.get_id()), lambda: z3.And(x >= 0, x < p, y >= 0, y < p, (y * y - (x * x * x + 7)) % p == 0))
    return (mk(x), mk(y))


@models.model(prims.pubpoint)
def _pubpoint(it, args, kw):
    s = zi(T(args[0]))
    return (mk(z3.Function('pubx', I, I)(s)), mk(z3.Function('puby', I, I)(s)))


def curve_fact(ctx, x, y):
    p = prims.SECP_P
    ctx.keep(x)
    ctx.keep(y)
    ctx.fact_once(('oncurve', x.get_id(), y.get_id()), lambda: z3.And(x >= 0, x < p, y >= 0, y < p, (y * y - (x * x * x + 7)) % p == 0))


@models.model(prims.multiple)
def _multiple(it, args, kw):
    from specs import ec
    if (args[0], args[1]) == ec.G: return it.call(prims.pubpair, [args[2]], {})
    x, y, k = [zi(T(a)) for a in args]
    u, v = [z3.Function('mul' + c, I, I, I, I)(x, y, k) for c in 'xy']
    curve_fact(it.ctx, u, v)
    return (mk(u), mk(v))


def sum_terms(it, u, v):
    a = [zi(T(w)) for q in (u, v) for w in it.iter_concrete(q)]
    return a, [z3.Function('sum' + c, I, I, I, I, I)(*a) for c in 'xy']


def index(it, u):
    """(x, y, k) when u is visibly the k-th multiple of (x, y)."""
    a, b = [zi(T(w)) for w in it.iter_concrete(u)]
    if z3.is_app(a) and a.decl().name() == 'mulx' and z3.is_app(b) and b.decl().name() == 'muly' and all(m.eq(n) for m, n in zip(a.children(), b.children())):
        return a.arg(0), a.arg(1), a.arg(2)
    return a, b, z3.IntVal(1)


def same_base(it, u, v):
    """The points as multiples of one point."""
    (x1, y1, j), (x2, y2, k) = index(it, u), index(it, v)
    if not x1.eq(x2): return None
    if y1.eq(y2): return x1, y1, j, k
    minus = lambda y: z3.simplify(zi(T(it.arith('%', mk(-y), prims.SECP_P))))
    if minus(y1).eq(z3.simplify(y2)): return x1, y1, j, -k
    if minus(y2).eq(z3.simplify(y1)): return x1, y2, -j, k
    return None


def multiple_or_none(it, x, y, k):
    k = z3.simplify(k)
    it.unit.res.assumed.add('the points of secp256k1 are a group of prime order n: the sum of the j-th and the k-th multiple of a point is its multiple by j + k, infinity if and only if n divides j + k')
    if it.ctx.branch(k % prims.SECP_N == 0): return None
    if z3.is_int_value(k) and k.as_long() == 1: return (mk(x), mk(y))
    return it.call(prims.multiple, [mk(x), mk(y), mk(k)], {})


@models.model(prims.lemma_period)
def _lemma_period(it, args, kw):
    (x, y), k = [zi(T(w)) for w in it.iter_concrete(args[0])], zi(T(args[1]))
    n = prims.SECP_N
    for c in 'xy':
        f = z3.Function('mul' + c, I, I, I, I)
        it.ctx.add(f(x, y, k) == f(x, y, k % n))
        it.ctx.add(f(x, y, z3.IntVal(1)) == (x if c == 'x' else y))
    return None


# -- powers of two and shifts, for loops over the bits of a number

def shifted(it, x, i):
    """floor(x / i) for i >= 1."""
    x, i = zi(x), z3.simplify(zi(i))
    s = z3.Function('shifted', I, I, I)(x, i)
    it.ctx.keep(s)
    it.ctx.fact_once(('shifted', s.get_id()), lambda: z3.Implies(i >= 1, z3.And(
        z3.Implies(i == 1, s == x), z3.Implies(z3.And(x >= 0, x < i), s == 0), z3.Implies(z3.And(x >= i, x < 2 * i), s == 1))))
    return s


def halves(it, x, i):
    """floor(x / 2i) is half of floor(x / i)."""
    it.ctx.add(z3.Implies(zi(i) >= 1, shifted(it, x, i) / 2 == shifted(it, x, 2 * zi(i))))


def power2(it, i):
    i = zi(i)
    f = z3.Function('power2', I, z3.BoolSort())
    it.ctx.keep(i)
    it.ctx.fact_once(('power2', i.get_id()), lambda: z3.And(z3.Implies(f(i), z3.And(i >= 1, f(z3.simplify(2 * i)))), z3.Implies(i == 1, f(i))))
    return f(i)


def half(it, x):
    """x // 2"""
    ctx = it.ctx
    x = z3.simplify(zi(x))
    key = ('half', x.get_id())
    if key not in ctx.quotients:
        ctx.keep(x)
        h = ctx.fresh_int('half')
        ctx.add(z3.And(x - 2 * h >= 0, x - 2 * h <= 1))
        ctx.add(z3.Implies(z3.And(power2(it, x), x > 1), z3.And(x == 2 * h, power2(it, h))))
        ctx.quotients[key] = h
    return ctx.quotients[key]


def bit(it, x, i):
    """x & i for a power of two."""
    if not it.ctx.prove(power2(it, i)): return None
    return mk(z3.If(shifted(it, x, i) % 2 == 1, zi(i), 0))


@models.model(prims.point_sum)
def _point_sum(it, args, kw):
    if it.unit.opts.get('group'):
        b = same_base(it, *args)
        if b is None: raise Unsupported('sum of points that are not visibly multiples of one point')
        return multiple_or_none(it, b[0], b[1], b[2] + b[3])
    (x1, y1, x2, y2), (x, y) = sum_terms(it, *args)
    if it.ctx.branch(z3.And(x1 == x2, (y1 + y2) % prims.SECP_P == 0)): return None
    curve_fact(it.ctx, x, y)
    return (mk(x), mk(y))


@models.model(prims.lemma_homomorphism)
def _lemma_homomorphism(it, args, kw):
    ctx = it.ctx
    a, b = zi(T(args[0])), zi(T(args[1]))
    n, p = prims.SECP_N, prims.SECP_P
    if not ctx.prove(z3.And(a > 0, a < n, b > 0, b < n)): raise Unsupported('lemma_homomorphism')
    pair = lambda k: it.call(prims.pubpair, [mk(k)], {})
    (x1, y1, x2, y2), (x, y) = sum_terms(it, pair(a), pair(b))
    c = zi(T(it.arith('%', mk(a + b), n)))
    u, v = [zi(T(w)) for w in pair(c)]
    ctx.add((c == 0) == z3.And(x1 == x2, (y1 + y2) % p == 0))
    ctx.add(z3.Implies(c != 0, z3.And(x == u, y == v)))
    it.unit.res.assumed.add('lemma_homomorphism: ' + ' '.join(prims.lemma_homomorphism.__doc__.split()))
    return None


def _truth(it, v):
    ctx = it.ctx
    r = ctx.norm(it.brope(v))
    n = zi(ctx.rlen(r))
    t = z3.Function('truth', S, B)(ctx.toterm(r))
    if ctx.fact_once_new(('truth', t.get_id())):
        ctx.keep(t)
        if ctx.quick(n == 0): ctx.add(z3.Not(t))
        else:
            e = zi(T(ctx.rat(r, 0)))
            ctx.add(z3.And(z3.Implies(n == 0, z3.Not(t)),
                           z3.Implies(n == 1, t == z3.And(e != 0, e != 0x80)),
                           z3.Implies(z3.And(n > 1, e != 0), t)))
    return t, r, n


@models.model(prims.truth)
def _m_truth(it, args, kw):
    if allc(it, args): return it.native(prims.truth, args, kw)
    return it.boolv(_truth(it, args[0])[0])


@models.model(prims.pinned)
def _m_pinned(it, args, kw):
    if allc(it, args): return it.native(prims.pinned, args, kw)
    t, r, n = _truth(it, args[0])
    if it.ctx.quick(n <= 1): return False
    return it.boolv(z3.And(n > 1, zi(T(it.ctx.rat(r, 0))) == 0, t))


@models.model(prims.copies)
def _m_copies(it, args, kw):
    l = args[0]
    if isinstance(l, list): return it.list_of([it.lift(x) for x in l])
    return HList(l.rope, it.ctx.new_oid())


@models.model(prims.require)
def _require(it, args, kw):
    f = it.truthf(args[0])
    if f is True or (f is not False and it.ctx.prove(f)): return None
    raise Unsupported('precondition of a contract not established')


@models.model(prims.some_list)
def _some_list(it, args, kw):
    from . import unit
    return HList(it.ctx.new_seq(unit.KINDS[args[0]], 'any'), it.ctx.new_oid())


@models.model(prims.some_int)
def _some_int(it, args, kw): return SInt(it.ctx.fresh_int('any'))


@models.model(prims.some_bool)
def _some_bool(it, args, kw): return SBool(it.ctx.fresh_bool('any'))


@models.model(prims.some_text)
def _some_text(it, args, kw):
    return SStr(it.ctx.new_seq('char', 'any', lo=args[0] if args else 0))


@models.model(prims.some_bytes)
def _some_bytes(it, args, kw): return SBytes(it.ctx.new_seq('byte', 'any', lo=args[0], hi=args[1]))


@models.model(prims.verifies)
def _verifies(it, args, kw):
    ctx = it.ctx
    x, y = [zi(T(v)) for v in it.iter_concrete(args[0])]
    return SBool(z3.Function('verifies', I, I, S, S, B)(x, y, ctx.toterm(ctx.norm(it.brope(args[1]))), ctx.toterm(ctx.norm(it.brope(args[2])))))


@models.model(prims.is_signature)
def _is_signature(it, args, kw):
    ctx = it.ctx
    x, y = [zi(T(v)) for v in it.iter_concrete(args[0])]
    return SBool(z3.Function('signature', I, I, S, S, B)(x, y, ctx.toterm(ctx.norm(it.brope(args[1]))), ctx.toterm(ctx.norm(it.brope(args[2])))))


@models.model(prims.evaluation)
def _evaluation(it, args, kw):
    """A function of the instructions, the stack and the flags: equal arguments give the same result."""
    from . import unit
    ctx = it.ctx
    code, stack, flags = args
    code, stack = it.lrope(code), it.lrope(stack)
    for (c, s, fl, ok, out) in ctx.evals:
        f = And(rope_eq(it, c, code), rope_eq(it, s, stack), Eq(T(fl), T(flags)))
        if f is True or (f is not False and ctx.prove(f)): return (ok, HList(out, ctx.new_oid()))
    ok = SBool(ctx.fresh_bool('ev'))
    out = ctx.new_seq(unit.KINDS['bytes'], 'ev')
    ctx.evals.append((code, stack, flags, ok, out))
    # a script that starts with OP_HASH160 fails on the empty stack (theorem C20.hash_needs_item)
    c = ctx.norm(code)
    first = None
    if c.p and isinstance(c.p[0], Elems): first = it.getattr_(it.getattr_(c.p[0].v[0], 'opcode'), 'number')
    elif len(c.p) == 1 and isinstance(c.p[0], Sl) and c.p[0].kind is unit.KINDS['instr']: first = f_at(c.p[0].term, zi(c.p[0].lo))
    if first is not None:
        ctx.add(z3.Implies(z3.And(zi(ctx.rlen(stack)) == 0, zi(ctx.rlen(code)) > 0, zi(T(first)) == 169), z3.Not(ok.t)))
    return (ok, HList(out, ctx.new_oid()))


def wire(it, v):
    """Binary form of one instruction."""
    ctx = it.ctx
    n, data = it.getattr_(it.getattr_(v, 'opcode'), 'number'), it.getattr_(v, 'data')
    if data is None: return Rope([Elems([n])])
    d = it.brope(data)
    out = Rope([Elems([n])])
    for k, w in ((76, 1), (77, 2), (78, 4)):
        if ctx.decide(Eq(T(n), k)):
            L = ctx.rlen(d)
            out = ctx.cat(out, Rope([Elems([mk(zi(L))]) if w == 1 else Enc(256, L, w, False)]))
            break
    return ctx.cat(out, d)


FLATS['ser'] = (wire, 1, False)


def varint(it, n):
    """CompactSize of a number known to be in 0..2^64-1."""
    ctx = it.ctx
    n = T(n)
    if ctx.decide(Lt(n, 253)): return Rope([Elems([mk(zi(n))])])
    for k, w in ((253, 2), (254, 4)):
        if ctx.decide(Lt(n, 256 ** w)): return Rope([Elems([k]), Enc(256, n, w, False)])
    return Rope([Elems([255]), Enc(256, n, 8, False)])


def counted(it, script):
    from . import unit, loops
    ctx = it.ctx
    r = loops.flat_of(ctx, it.lrope(it.getattr_(script, 'instructions')), 'ser', unit.KINDS['instr'], it)
    return ctx.cat(varint(it, ctx.rlen(r)), r)


def wire_txin(it, v):
    """Binary form of one transaction input."""
    ctx = it.ctx
    h = ctx.norm(it.srope(it.getattr_(v, 'tx_id')))
    if len(h.p) != 1 or not isinstance(h.p[0], Hex): raise Unsupported('text of an id')
    num = lambda a: Rope([Enc(256, T(it.getattr_(v, a)), 4, False)])
    return ctx.cat(ctx.cat(ctx.rev(h.p[0].rope), num('txo_index')), ctx.cat(counted(it, it.getattr_(v, 'script')), num('seq_number')))


def wire_txout(it, v):
    """Binary form of one transaction output."""
    return it.ctx.cat(Rope([Enc(256, T(it.getattr_(v, 'amount')), 8, False)]), counted(it, it.getattr_(v, 'script')))


FLATS['txin'] = (wire_txin, 41, False)
FLATS['txout'] = (wire_txout, 9, False)


@models.model(prims.inputs_bytes)
def _inputs_bytes(it, args, kw):
    from . import unit, loops
    return it.mkbytes(loops.flat_of(it.ctx, it.lrope(args[0]), 'txin', unit.KINDS['txin'], it))


@models.model(prims.outputs_bytes)
def _outputs_bytes(it, args, kw):
    from . import unit, loops
    return it.mkbytes(loops.flat_of(it.ctx, it.lrope(args[0]), 'txout', unit.KINDS['txout'], it))


@models.model(prims.transaction_bytes)
def _transaction_bytes(it, args, kw):
    """An opaque byte string that stands for these parts (it is never looked into)."""
    if allc(it, args): return it.native(prims.transaction_bytes, args, kw)
    ctx = it.ctx
    ver, ins, outs, lock = args
    ri, ro = ctx.norm(it.lrope(ins)), ctx.norm(it.lrope(outs))
    for (v0, i0, o0, l0, t) in ctx.txs:
        was, it.strict = it.strict, True
        try: f = And(Eq(T(v0), T(ver)), Eq(T(l0), T(lock)), rope_eq(it, i0, ri), rope_eq(it, o0, ro))
        finally: it.strict = was
        if f is True or (f is not False and ctx.prove(f)): return it.mkbytes(ctx.term_rope(t, 'byte'))
    r = ctx.new_seq('byte', 'tx', lo=10, hi=None)
    ctx.txs.append((ver, ri, ro, lock, r.p[0].term))
    return it.mkbytes(r)


@models.model(prims.transaction_parts)
def _transaction_parts(it, args, kw):
    ctx = it.ctx
    r = ctx.norm(it.brope(args[0]))
    for (v, i, o, l, t) in ctx.txs:
        if ctx.prove(rope_eq(it, r, ctx.term_rope(t, 'byte'))):
            return (v, HList(i, ctx.new_oid()), HList(o, ctx.new_oid()), l)
    raise Unsupported('bytes of an unknown transaction')


@models.model(prims.varint)
def _varint(it, args, kw): return it.mkbytes(varint(it, args[0]))


@models.model(prims.script_bytes)
def _script_bytes(it, args, kw):
    from . import unit, loops
    return it.mkbytes(loops.flat_of(it.ctx, it.lrope(args[0]), 'ser', unit.KINDS['instr'], it))


@models.model(prims.assume)
def _assume(it, args, kw):
    f = it.truthf(args[0])
    if f is False: raise PathEnd('assumption')
    if f is not True: it.ctx.add(f)
    return None


@models.model(prims.parsed)
def _parsed(it, args, kw):
    from . import unit
    ctx = it.ctx
    r = ctx.norm(it.brope(args[0]))
    if not r.p: return (True, HList(Rope([]), ctx.new_oid()))
    if len(r.p) == 1 and isinstance(r.p[0], Flat) and r.p[0].f == 'ser':
        # the binary form of known instructions (theorem C11.parse_serialized)
        return (True, HList(Rope([Sl(r.p[0].term, r.p[0].lo, r.p[0].n, r.p[0].kind)]), ctx.new_oid()))
    t = ctx.toterm(r)
    ok = z3.Function('parses', S, B)(t)
    u = z3.Function('parsed', S, S)(t)
    return (SBool(ok), HList(ctx.term_rope(u, unit.KINDS['instr']), ctx.new_oid()))


@models.model(prims.forget_pinned)
def _forget(it, args, kw): return None


@models.model(prims.saw_pinned)
def _saw(it, args, kw): return False


@models.model(prims.same_parts)
def _same_parts(it, args, kw):
    if allc(it, args): return it.native(prims.same_parts, args, kw)
    was, it.strict = it.strict, True
    try: return it.boolv(rope_eq(it, it.lrope(args[0]), it.lrope(args[1])))
    finally: it.strict = was


@models.model(prims.strictly)
def _strictly(it, args, kw):
    if allc(it, args): return it.native(prims.strictly, args, kw)
    was, it.strict = it.strict, True
    try: return it.boolv(it.same(args[0], args[1]))
    finally: it.strict = was


@models.model(prims.matches)
def _matches(it, args, kw):
    """The same sequence fits the same templates."""
    ctx = it.ctx
    r = ctx.norm(it.lrope(args[1]))
    if all(isinstance(p, Elems) for p in r.p): return it.call(prims.pattern, [args[0], args[1]], {})
    return SBool(z3.Function('matches', I, S, B)(zi(T(args[0])), ctx.toterm(r)))


@models.model(prims.sec)
def _sec(it, args, kw):
    if allc(it, args): return it.native(prims.sec, args, kw)
    ctx = it.ctx
    x, y = [zi(T(v)) for v in it.iter_concrete(args[0])]
    c = args[1]
    c = z3.BoolVal(c) if isinstance(c, bool) else c.t
    t = z3.Function('sec', I, I, B, S)(x, y, c)
    if ctx.fact_once_new(('sec', t.get_id())):
        ctx.keep(t)
        ctx.add(f_len(t) == z3.If(c, 33, 65))
        ctx.secs.append((t, x, y, args[1]))
    return SBytes(ctx.term_rope(t, 'byte'))


@models.model(prims.unsec)
def _unsec(it, args, kw):
    if allc(it, args): return it.native(prims.unsec, args, kw)
    ctx = it.ctx
    r = ctx.norm(it.brope(args[0]))
    for (t, x, y, c) in ctx.secs:
        if len(r.p) == 1 and isinstance(r.p[0], Sl) and r.p[0].term.eq(t) and ctx.prove(rope_eq(it, r, ctx.term_rope(t, 'byte'))):
            return ((mk(x), mk(y)), c)
    raise Unsupported('not known to be the encoding of a key')


@models.model(prims.pubkey)
def _pubkey(it, args, kw):
    from bitforge.pubkey import PublicKey
    if allc(it, args): return it.native(prims.pubkey, args, kw)
    if getattr(PublicKey, '_fields', None) != ('pair', 'network', 'compressed'): raise Unsupported('representation of keys')
    return SObj(PublicKey, dict(zip(PublicKey._fields, args)), it.ctx.new_oid())


# -- modular inverses and signatures --------------------------------------------------------------

@models.model(prims.inverse)
def _inverse(it, args, kw):
    if allc(it, args): return it.native(prims.inverse, args, kw)
    ctx = it.ctx
    a, m = zi(T(args[0])), args[1]
    if m not in (prims.SECP_N, prims.SECP_P): raise Unsupported('inverse for a modulus that may not be prime')
    if not ctx.prove(z3.And(a > 0, a < m)): raise Unsupported('inverse of a number that may not be reduced')
    t = z3.Function('inverse', I, I, I)(z3.simplify(a), z3.IntVal(m))
    ctx.keep(t)
    ctx.fact_once(('inverse', t.get_id()), lambda: z3.And(t > 0, t < m))
    if ctx.field is not None and ctx.field.p == m: ctx.field.relate(t * a - 1)
    return mk(t)


@models.model(prims.lemma_multiple)
def _lemma_multiple(it, args, kw):
    ctx = it.ctx
    x, k = zi(T(args[0])), zi(T(args[1]))
    n = prims.SECP_N
    if not ctx.prove(z3.And(x > 0, x < n, k > 0, k < n)): raise Unsupported('lemma_multiple')
    u = list(it.iter_concrete(it.call(prims.pubpair, [mk(x)], {})))
    u = it.call(prims.multiple, u + [mk(k)], {})
    c = zi(T(it.arith('%', mk(k * x), n)))
    v = it.call(prims.pubpair, [mk(c)], {})
    ctx.add(c != 0)
    for p, q in zip(it.iter_concrete(u), it.iter_concrete(v)): ctx.add(zi(T(p)) == zi(T(q)))
    it.unit.res.assumed.add('lemma_multiple: ' + ' '.join(prims.lemma_multiple.__doc__.split()))
    return None


def certificate():
    """k - w*e as a combination of the three numbers that are 0 modulo n: k*i - 1, s - i*e and s*w - 1."""
    k, i, e, s, w = z3.Ints('k i e s w')
    a, b, c = k * i - 1, s - i * e, s * w - 1
    return z3.simplify((k - w * e) - (-k * c + w * k * b + a * w * e), som=True)


@models.model(prims.lemma_inverses)
def _lemma_inverses(it, args, kw):
    """Proved: k*i = s*w = 1 and s = i*e modulo n give w*e = k modulo n, by the polynomial identity of certificate()."""
    ctx = it.ctx
    k, e, s = [zi(T(v)) for v in args]
    n = prims.SECP_N
    c = certificate()
    if not (z3.is_int_value(c) and c.as_long() == 0): raise Unsupported('certificate')
    i, w = [zi(T(it.call(prims.inverse, [mk(v), n], {}))) for v in (k, s)]
    if not ctx.prove(s == zi(T(it.arith('%', mk(i * e), n)))): raise Unsupported('lemma_inverses')
    ctx.add(zi(T(it.arith('%', mk(w * e), n))) == k)
    return None



def gcd_term(it, a, b): return z3.Function('gcd', I, I, I)(zi(a), zi(b))


def unfold_gcd(it, a, b):
    """gcd(0, b) = b and gcd(a, b) = gcd(b mod a, a), for a >= 0 and b > 0."""
    a, b = zi(a), zi(b)
    q, r = it.ctx.quotient(b, a)
    it.ctx.add(z3.Implies(z3.And(a >= 0, b > 0), gcd_term(it, a, b) == z3.If(a == 0, b, gcd_term(it, r, a))))


@models.model(prims.gcd)
def _gcd(it, args, kw): return SInt(gcd_term(it, T(args[0]), T(args[1])))


@models.model(prims.lemma_coprime)
def _lemma_coprime(it, args, kw):
    a, m = zi(T(args[0])), args[1]
    if m not in (prims.SECP_N, prims.SECP_P): raise Unsupported('lemma_coprime')
    if not it.ctx.prove(z3.And(a > 0, a < m)): raise Unsupported('lemma_coprime')
    it.ctx.add(gcd_term(it, a, m) == 1)
    it.unit.res.assumed.add('lemma_coprime: ' + ' '.join(prims.lemma_coprime.__doc__.split()))
    return None


@models.model(prims.lemma_prime)
def _lemma_prime(it, args, kw):
    ctx = it.ctx
    a, b = zi(T(args[0])), zi(T(args[1]))
    n = prims.SECP_N
    if not ctx.prove(z3.And(a > 0, a < n, b > 0, b < n)): raise Unsupported('lemma_prime')
    ctx.add(zi(T(it.arith('%', mk(a * b), n))) != 0)
    it.unit.res.assumed.add('lemma_prime: ' + ' '.join(prims.lemma_prime.__doc__.split()))
    return None


def unmod(t, n):
    """t without inner reductions modulo n (the same modulo n)."""
    if z3.is_app_of(t, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == n: return unmod(t.arg(0), n)
    if any(z3.is_app_of(t, o) for o in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS)):
        cs = [unmod(c, n) for c in t.children()]
        if z3.is_app_of(t, z3.Z3_OP_UMINUS): return -cs[0]
        r = cs[0]
        for c in cs[1:]: r = r + c if z3.is_app_of(t, z3.Z3_OP_ADD) else r * c if z3.is_app_of(t, z3.Z3_OP_MUL) else r - c
        return r
    return t


@models.model(prims.lemma_mod)
def _lemma_mod(it, args, kw):
    a, b = zi(T(args[0])), zi(T(args[1]))
    n = prims.SECP_N
    d = z3.simplify(unmod(a, n) - unmod(b, n), som=True)
    if not (z3.is_int_value(d) and d.as_long() % n == 0): raise Unsupported('lemma_mod %s' % d)
    it.ctx.add(zi(T(it.arith('%', mk(a), n))) == zi(T(it.arith('%', mk(b), n))))
    return None


@models.model(prims.name)
def _name(it, args, kw):
    if allc(it, args): return args[0]
    t = it.ctx.fresh_int('named')
    it.ctx.add(t == zi(T(args[0])))
    return mk(t)


@models.model(prims.nonce)
def _nonce(it, args, kw):
    if allc(it, args): return it.native(prims.nonce, args, kw)
    t = z3.Function('nonce', I, I, I)(zi(T(args[0])), zi(T(args[1])))
    it.ctx.keep(t)
    it.ctx.fact_once(('nonce', t.get_id()), lambda: z3.And(t > 0, t < prims.SECP_N))
    return mk(t)


def bytes_of(state, slot):
    """The byte string in a slot of a loop state."""
    v = state.d[slot][1]
    return SBytes(v if isinstance(v, Rope) else v.rope if isinstance(v, SBytes) else Rope([Elems(v)]))


def nonce_term(it, k, v):
    ctx = it.ctx
    k, v = [ctx.toterm(ctx.norm(it.brope(a))) for a in (k, v)]
    t = z3.Function('nonce_from', S, S, I)(k, v)
    ctx.exact = False
    ctx.keep(t)
    return t


@models.model(prims.nonce_from)
def _nonce_from(it, args, kw):
    if allc(it, args): return it.native(prims.nonce_from, args, kw)
    return mk(nonce_term(it, *args))


def unfold_nonce(it, k, v):
    """The definition of nonce_from (specs/c08.py), one round."""
    from specs import c08
    a = nonce_term(it, k, v)
    v = it.call(c08.mac, [k, v], {})
    n = zi(it.ctx.val(256, it.brope(v), True))
    k = it.call(c08.mac, [k, it.binop('+', v, b'\x00')], {})
    v = it.call(c08.mac, [k, v], {})
    it.ctx.add(a == z3.If(z3.And(n >= 1, n < prims.SECP_N), n, nonce_term(it, k, v)))
