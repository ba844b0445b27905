"""Equality of ropes and values as formulas."""
import z3
from .core import *


def elem_eq(it, a, b):
    if it.strict and (isinstance(a, SObj) or isinstance(b, SObj)): return it.same(a, b)
    return it.eq_formula(a, b)


def flat_last(it, f):
    """Expand the last element of a Flat piece: (Flat without it, rope of the element)."""
    ctx = it.ctx
    idx = tn(zi(f.lo) + zi(f.n) - 1)
    r = FLATS[f.f][0](it, ctx.at(f.term, idx, f.kind))
    rest = Flat(f.f, f.term, f.lo, tn(zi(f.n) - 1), f.kind)
    ctx.add(f_len(ctx.pterm(f)) == zi(ctx.rlen(r)) + f_len(ctx.pterm(rest)))
    return rest, r


def flat_first(it, f):
    r = it.ctx.flat_first(f)
    return Rope(r.p[:-1]), r.p[-1]


def unalias(ctx, r):
    """Concatenations known (by a loop invariant) to be some slice are replaced by it."""
    if not ctx.flatalias or not any(isinstance(p, Flat) for p in r.p): return r
    out = ()
    for p in r.p:
        for (f, s) in ctx.flatalias:
            if isinstance(p, Flat) and f.f == p.f and f.term.eq(p.term) and teq(f.lo, p.lo) and teq(f.n, p.n):
                out += s.p
                break
        else: out += (p,)
    return ctx.norm(Rope(out))


def piece_eq(it, a, b):
    """Formula for equality of two pieces of the same length."""
    ctx = it.ctx
    if isinstance(b, Enc) and not isinstance(a, Enc): a, b = b, a
    if isinstance(a, Enc):
        return chunk_eq_enc(it, a, Rope([b]))
    if isinstance(a, Hex) and isinstance(b, Hex):
        return rope_eq(it, a.rope, b.rope)
    if isinstance(a, Sl) and isinstance(b, Sl) and a.rev == b.rev and a.term.eq(b.term):
        if teq(a.lo, b.lo): return True
        if ctx.quick(zi(a.lo) == zi(b.lo)): return True
    if isinstance(a, Sl) and isinstance(b, Sl) and a.rev and b.rev:
        return piece_eq(it, Sl(a.term, a.lo, a.n, a.kind), Sl(b.term, b.lo, b.n, b.kind))
    if isinstance(a, Rep) and isinstance(b, Rep):
        return Or(elem_eq(it, a.v, b.v), Le(a.n, 0))
    if isinstance(a, Flat) and isinstance(b, Flat) and a.f == b.f and a.term.eq(b.term) and teq(a.lo, b.lo):
        return Eq(a.n, b.n)
    if isinstance(a, Lam) and isinstance(b, Lam) and a.key == b.key and teq(a.lo, b.lo): return True
    if isinstance(a, Lam) or isinstance(b, Lam):
        k = ctx.fresh_int('k')
        ctx.add(z3.And(k >= 0))
        return ('forall', k, a, b)
    n = ctx.plen(a)
    if not isinstance(n, int): n = ctx.plen(b)
    if isinstance(n, int) and n <= 80:
        return And(*[elem_eq(it, ctx.pat(a, k), ctx.pat(b, k)) for k in range(n)])
    if isinstance(a, Elems) or isinstance(b, Elems):
        n = len(a.v) if isinstance(a, Elems) else len(b.v)
        return And(*[elem_eq(it, ctx.pat(a, k), ctx.pat(b, k)) for k in range(n)])
    ctx.exact = False
    return ctx.toterm(Rope([a])) == ctx.toterm(Rope([b]))


def chunk_eq_enc(it, e, chunk):
    """chunk (same length as e) equals Enc e: all digits valid and same number (unique representation)."""
    ctx = it.ctx
    if len(chunk.p) == 1 and isinstance(chunk.p[0], Enc):
        o = chunk.p[0]
        if o.alpha == e.alpha and o.be == e.be: return Eq(o.v, e.v)
    r = chunk
    return And(ctx.allvalid(e.alpha, r), Eq(ctx.val(e.alpha, r, e.be), e.v))


def literal_value(ctx, r, lit):
    """A slice whose number is known equals a literal exactly when number and length do (unique representation)."""
    if len(r.p) != 1 or not isinstance(r.p[0], Sl) or len(lit.p) != 1 or not isinstance(lit.p[0], Elems): return
    p, vs = r.p[0], lit.p[0].v
    if p.rev or not isinstance(p.kind, str) or not all(isinstance(e, int) for e in vs) or len(vs) > 200: return
    if isinstance(p.n, int) and 2 <= p.n <= 8:
        for key in {k for (k, tm, lo, n) in ctx.vals if isinstance(k, tuple) and tm.eq(p.term)}:
            for j in range(2, p.n + 1): ctx.slval(key[1], key[2], p.term, p.lo, j)
    for (k, tm, lo, n) in list(ctx.vals):
        if not isinstance(k, tuple) or not tm.eq(p.term) or not teq(lo, p.lo) or not teq(n, p.n): continue
        _, alpha, be = k
        if alpha == 58 and not all(isval58(e) for e in vs): continue
        if alpha == 256 and not all(e < 256 for e in vs): continue
        c = 0
        for e in (vs if be else vs[::-1]): c = c * alpha + digit_of(alpha, e)
        m = len(vs)
        if not ctx.fact_once_new(('lit', p.term.get_id(), str(lo), str(n), vs, alpha, be)): continue
        ctx.pow_hint(alpha, [m, m - 1] if m else [m])
        z = 0
        while z < m and digit_of(alpha, vs[z]) == 0: z += 1
        if m - z > 0: ctx.pow_hint(alpha, [m - z, m - z - 1])
        if not vs: continue
        g = And(ctx.valid(p.term, lo, n) if alpha == 58 else True, Eq(ctx.slval(alpha, be, p.term, lo, n), c))
        es = z3.And(*[zi(T(ctx.at(p.term, tn(zi(lo) + j), p.kind))) == e for j, e in enumerate(vs)])
        ctx.add(z3.Implies(zi(n) == m, g == es))


def rope_eq(it, r1, r2):
    ctx = it.ctx
    r1, r2 = unalias(ctx, ctx.norm(r1)), unalias(ctx, ctx.norm(r2))
    n1, n2 = ctx.rlen(r1), ctx.rlen(r2)
    conj = []
    if not teq(n1, n2):
        c = Eq(n1, n2)
        if c is False: return False
        conj.append(c)
        # under the hypothesis of equal lengths we may align; the conjunction keeps it exact
    literal_value(ctx, r1, r2)
    literal_value(ctx, r2, r1)
    A, Bp = list(r1.p), list(r2.p)
    hyp = conj[0] if conj else None

    def pr(f):
        if isinstance(f, bool): return f
        return ctx.quick(z3.Implies(hyp, f) if hyp is not None else f)

    def same(a, b):
        if type(a) is not type(b): return False
        if isinstance(a, Sl): return a.term.eq(b.term) and teq(a.lo, b.lo) and teq(a.n, b.n) and a.rev == b.rev
        if isinstance(a, Enc): return a.alpha == b.alpha and teq(a.v, b.v) and teq(a.n, b.n) and a.be == b.be
        if isinstance(a, Flat): return a.f == b.f and a.term.eq(b.term) and teq(a.lo, b.lo) and teq(a.n, b.n)
        if isinstance(a, Lam): return a.key == b.key and teq(a.lo, b.lo) and teq(a.n, b.n)
        if isinstance(a, Rep): return a.v is b.v and teq(a.n, b.n)
        return False

    def strip_right():
        while A and Bp and same(A[-1], Bp[-1]):
            A.pop()
            Bp.pop()
        while A and Bp and isinstance(A[-1], Elems) and isinstance(Bp[-1], Elems):
            a, b = A[-1].v, Bp[-1].v
            k = min(len(a), len(b))
            conj.extend(elem_eq(it, x, y) for x, y in zip(a[len(a) - k:], b[len(b) - k:]))
            A.pop()
            Bp.pop()
            if len(a) > k: A.append(Elems(a[:len(a) - k]))
            if len(b) > k: Bp.append(Elems(b[:len(b) - k]))
            while A and Bp and same(A[-1], Bp[-1]):
                A.pop()
                Bp.pop()

    steps = 0
    while True:
        steps += 1
        if steps > 400: raise Unsupported('rope alignment')
        if any(c is False for c in conj): return False
        if not A and not Bp: break
        if not A or not Bp:
            for p in (A or Bp): conj.append(Eq(ctx.plen(p), 0))
            break
        a, b = A[0], Bp[0]
        if same(a, b):
            A.pop(0)
            Bp.pop(0)
            continue
        if isinstance(a, Elems) and isinstance(b, Elems):
            k = min(len(a.v), len(b.v))
            conj.extend(elem_eq(it, x, y) for x, y in zip(a.v[:k], b.v[:k]))
            A.pop(0)
            Bp.pop(0)
            if len(a.v) > k: A.insert(0, Elems(a.v[k:]))
            if len(b.v) > k: Bp.insert(0, Elems(b.v[k:]))
            continue
        la, lb = ctx.plen(a), ctx.plen(b)
        # Flat versus something else: expand elements
        if isinstance(a, Flat) != isinstance(b, Flat) or (isinstance(a, Flat) and isinstance(b, Flat) and not (a.f == b.f and a.term.eq(b.term) and teq(a.lo, b.lo))):
            strip_right()
            if not A or not Bp: continue
            if (A and Bp) and (isinstance(A[-1], Flat) or isinstance(Bp[-1], Flat)) and not (A[0] is a and Bp[0] is b and len(A) == 1 and len(Bp) == 1 and False):
                X = A if isinstance(A[-1], Flat) else Bp
                f = X[-1]
                if pr(Eq(f.n, 0)):
                    X.pop()
                    continue
                if pr(Lt(0, f.n)) and it.flat_budget > 0:
                    it.flat_budget -= 1
                    rest, r = flat_last(it, f)
                    X[-1:] = [rest] + list(r.p)
                    continue
            X = A if isinstance(A[0], Flat) else Bp
            f = X[0]
            if isinstance(f, Flat):
                if pr(Eq(f.n, 0)):
                    X.pop(0)
                    continue
                if pr(Lt(0, f.n)) and it.flat_budget > 0:
                    it.flat_budget -= 1
                    r, rest = flat_first(it, f)
                    X[0:1] = list(r.p) + [rest]
                    continue
            conj.append(ctx.toterm(Rope(A)) == ctx.toterm(Rope(Bp)))
            break
        if isinstance(a, Flat) and isinstance(b, Flat):
            # same function, list and start
            if pr(Eq(a.n, b.n)):
                A.pop(0)
                Bp.pop(0)
                continue
            d = tn(zi(a.n) - zi(b.n))
            if isinstance(d, int) and abs(d) <= 2 and it.flat_budget > 0:
                it.flat_budget -= 1
                X = A if d > 0 else Bp
                rest, r = flat_last(it, X[0])
                X[0:1] = [rest] + list(r.p)
                continue
            strip_right()
            if not A or not Bp: continue
            if A[0] is a and Bp[0] is b and len(A) == 1 and len(Bp) == 1:
                conj.append(Or(Eq(a.n, b.n), ctx.toterm(Rope(A)) == ctx.toterm(Rope(Bp))))
                break
            conj.append(ctx.toterm(Rope(A)) == ctx.toterm(Rope(Bp)))
            break
        if teq(la, lb) or pr(Eq(la, lb)):
            f = piece_eq(it, a, b)
            if isinstance(f, tuple):
                f = it.lam_eq(f, la)
            conj.append(f)
            A.pop(0)
            Bp.pop(0)
            continue
        if isinstance(a, Sl) and isinstance(b, Sl) and a.term.eq(b.term) and not a.rev and not b.rev and teq(a.lo, b.lo):
            # two prefixes of the same sequence
            if pr(Le(la, lb)):
                A.pop(0)
                Bp[0] = ctx.psplit(b, la)[1]
                continue
            if pr(Le(lb, la)):
                Bp.pop(0)
                A[0] = ctx.psplit(a, lb)[1]
                continue
        # Enc on one side: gather a chunk of the same length on the other
        done = False
        for (X, Y, e, le) in ((A, Bp, a, la), (Bp, A, b, lb)):
            if not isinstance(e, Enc): continue
            acc, k = 0, 0
            for k, p in enumerate(Y):
                n = ctx.plen(p)
                acc2 = tn(zi(acc) + zi(n))
                if teq(acc2, le) or pr(Eq(acc2, le)):
                    conj.append(chunk_eq_enc(it, e, Rope(Y[:k + 1])))
                    del Y[:k + 1]
                    X.pop(0)
                    done = True
                    break
                if pr(Lt(le, acc2)):
                    break
                acc = acc2
            if done: break
        if done: continue
        # split the longer one
        if pr(And(Lt(lb, la), Lt(0, lb))) and not isinstance(a, Flat):
            x, y = ctx.psplit(a, lb if not isinstance(a, Elems) else ctx.known_len(lb))
            A[0:1] = [x, y]
            continue
        if pr(And(Lt(la, lb), Lt(0, la))) and not isinstance(b, Flat):
            x, y = ctx.psplit(b, la if not isinstance(b, Elems) else ctx.known_len(la))
            Bp[0:1] = [x, y]
            continue
        if pr(Eq(la, 0)):
            A.pop(0)
            continue
        if pr(Eq(lb, 0)):
            Bp.pop(0)
            continue
        # one side a single opaque piece / Enc spanning everything?
        strip_right()
        if not A or not Bp: continue
        if A[0] is not a or Bp[0] is not b or False:
            pass
        if len(A) == 1 and isinstance(A[0], Enc):
            conj.append(chunk_eq_enc(it, A[0], Rope(Bp)))
            break
        if len(Bp) == 1 and isinstance(Bp[0], Enc):
            conj.append(chunk_eq_enc(it, Bp[0], Rope(A)))
            break
        # zero digits followed by a big-endian number vs. anything: treat as one longer number
        mA, mB = merge_enc(ctx, A), merge_enc(ctx, Bp)
        if mA is not None:
            conj.append(chunk_eq_enc(it, mA, Rope(Bp)))
            break
        if mB is not None:
            conj.append(chunk_eq_enc(it, mB, Rope(A)))
            break
        ctx.exact = False
        conj.append(ctx.toterm(Rope(A)) == ctx.toterm(Rope(Bp)))
        break
    return And(*conj)


def merge_enc(ctx, ps):
    """Rep(zero digit) ++ Enc(be)  ->  one Enc."""
    if len(ps) == 2 and isinstance(ps[0], Rep) and isinstance(ps[1], Enc) and ps[1].be and isinstance(ps[0].v, int) \
            and digit_of(ps[1].alpha, ps[0].v) == 0 and (ps[1].alpha == 256 or isval58(ps[0].v)):
        return Enc(ps[1].alpha, ps[1].v, tn(zi(ps[0].n) + zi(ps[1].n)), True)
    if len(ps) == 2 and isinstance(ps[1], Rep) and isinstance(ps[0], Enc) and not ps[0].be and isinstance(ps[1].v, int) \
            and digit_of(ps[0].alpha, ps[1].v) == 0 and (ps[0].alpha == 256 or isval58(ps[1].v)):
        return Enc(ps[0].alpha, ps[0].v, tn(zi(ps[1].n) + zi(ps[0].n)), False)
    return None
