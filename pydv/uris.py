"""Models of the parts of urllib.parse and of number texts that payment URIs use.  These stand for the documented behaviour of the
standard library and are assumptions: encoded parameters parse back to the parameters whose value is not empty, the path of a bitcoin: URI whose
address is alphanumeric is that address, and any other text is taken apart by unknown functions of the text (or refused with ValueError)."""
import re
import string
import urllib.parse as up
import z3

from .core import *
from . import models, lang
from .models import model, allconc
from .interp import integral, as_int
from specs import prims

DEBUG = False
ALNUM = frozenset(ord(c) for c in string.ascii_letters + string.digits)
f_query = z3.Function('urlencoded', I, S)
f_fixed = z3.Function('fixed', I, I, S)
f_strip = z3.Function('fixed_stripped', I, I, S)
f_plain = z3.Function('fixed_plain', I, I, S)
NAMES = ('amount', 'message', 'label', 'r', 'address')


def single(it, v):
    """The term of a text that is one opaque term."""
    if not isinstance(v, SStr): return None
    r = it.ctx.norm(v.rope)
    if len(r.p) == 1 and isinstance(r.p[0], Sl) and not r.p[0].rev and teq(r.p[0].lo, 0) and teq(r.p[0].n, f_len(r.p[0].term)): return r.p[0].term
    return None


# ---- numbers as text

def fixed_text(it, v, digits):
    """'%.Nf' of a non-negative float: the nearest multiple of 10**-N (ties to even), in plain decimal."""
    ctx = it.ctx
    t = it.real(v)
    if not ctx.quick(t >= 0): return None
    x = z3.simplify(t * 10 ** digits)
    k = z3.ToInt(x + z3.Q(1, 2))
    k = z3.simplify(z3.If(z3.And(z3.ToReal(k) == x + z3.Q(1, 2), k % 2 == 1), k - 1, k))
    if z3.is_app(t) and t.decl().eq(f_round):
        y = z3.simplify(t.arg(0) * 10 ** digits)
        if integral(y) and ctx.prove(k == as_int(y)): k = z3.simplify(as_int(y))
    return text_term(it, f_fixed(k, digits), k)


def text_term(it, t, k):
    ctx = it.ctx
    ctx.keep(t)
    ctx.keep(k)
    ctx.fact_once(('fixed', t.get_id()), lambda: z3.And(f_len(t) >= 1, k >= 0))
    return Rope([Sl(t, 0, f_len(t), 'char')])


def rstrip_fixed(it, o, chars):
    t = single(it, o)
    if t is None or not isinstance(chars, str): return None
    k, d = (t.arg(0), t.arg(1)) if t.num_args() == 2 else (None, None)
    if k is None or d.as_long() < 1: return None
    if t.decl().eq(f_fixed) and chars == '0': return SStr(text_term(it, f_strip(k, d), k))
    if t.decl().eq(f_strip) and chars == '.': return SStr(text_term(it, f_plain(k, d), k))
    return None


@model(prims.decimal8)
def _decimal8(it, args, kw):
    if allconc(it, args, kw): return it.native(prims.decimal8, args, kw)
    k = z3.simplify(zi(T(args[0])))
    return SStr(text_term(it, f_plain(k, z3.IntVal(8)), k))


def text_float(it, v):
    """float() of a text."""
    ctx = it.ctx
    t = single(it, v)
    if t is not None and t.decl().name() in ('fixed', 'fixed_stripped', 'fixed_plain'):
        return it.fround(z3.ToReal(t.arg(0)) / 10 ** t.arg(1).as_long())
    t = ctx.toterm(ctx.norm(v.rope))
    kind = z3.Function('numkind', S, I)(t)
    ctx.keep(kind)
    for k, x in ((1, float('nan')), (2, float('inf')), (3, float('-inf'))):
        if ctx.branch(kind == k): return x
    if not ctx.branch(kind == 0): it.raise_(ValueError, 'could not convert string to float')
    r = z3.Function('num', S, z3.RealSort())(t)
    ctx.keep(r)
    ctx.fact_once(('num', r.get_id()), lambda: z3.And(r < 2 ** 900, r > -2 ** 900, z3.Or(r == 0, r > z3.Q(1, 2 ** 900), r < -z3.Q(1, 2 ** 900))))
    return SReal(r)


@model(lang.make)
def _make(it, args, kw):
    cls, d = args
    items = d.items if isinstance(d, HDict) else [[k, v] for k, v in d.items()]
    return SObj(cls, {k: v for k, v in items}, it.ctx.new_oid())


# ---- urllib.parse

@model(up.urlencode)
def _urlencode(it, args, kw):
    if allconc(it, args, kw): return it.native(up.urlencode, args, kw)
    if len(args) != 1 or kw: raise Unsupported('urlencode options')
    pairs = []
    src = args[0]
    if isinstance(src, HDict): pairs = [tuple(e) for e in src.items]
    else:
        for kv in it.iter_concrete(src):
            k, v = it.ctx.elems(it.iter_rope(kv))
            pairs.append((k, v))
    if not pairs: return ''
    for k, v in pairs:
        if not it.is_str(k) or not it.is_str(v): raise Unsupported('urlencode of other values than texts')
    ctx = it.ctx
    reg = ctx.opts.setdefault('_queries', {})
    if reg.get('ctx') is not ctx:
        reg.clear()
        reg['ctx'], reg['all'] = ctx, []
    for j, old in enumerate(reg['all']):
        if len(old) == len(pairs) and all(_same(it, a, b) for p, q in zip(old, pairs) for a, b in zip(p, q)): break
    else:
        j = len(reg['all'])
        reg['all'].append(pairs)
    t = f_query(j)
    ctx.keep(t)
    ctx.fact_once(('query', t.get_id()), lambda: f_len(t) >= 1)
    return SStr(Rope([Sl(t, 0, f_len(t), 'char')]))


def _same(it, a, b):
    f = it.eq(a, b)
    return f is True or (f is not False and it.ctx.quick(f))


def pairs_of(it, q):
    t = single(it, q)
    if t is None or not t.decl().eq(f_query): return None
    return it.ctx.opts['_queries']['all'][t.arg(0).as_long()]


def result(it, scheme, netloc, path, query):
    return SObj(up.ParseResult, {'scheme': scheme, 'netloc': netloc, 'path': path, 'params': '', 'query': query, 'fragment': ''}, it.ctx.new_oid())


def plain(it, p):
    if isinstance(p, Elems): return all(isinstance(e, int) and e in ALNUM for e in p.v)
    if isinstance(p, Enc): return p.alpha == 58
    if isinstance(p, Sl): return p.term.decl().name().startswith('u58!')      # base58 digits (pydv.prims)
    if isinstance(p, Rep): return isinstance(T(p.v), int) and T(p.v) in ALNUM
    return False


@model(up.urlparse)
def _urlparse(it, args, kw):
    if allconc(it, args, kw): return it.native(up.urlparse, args, kw)
    if len(args) != 1 or kw or not isinstance(args[0], SStr): raise Unsupported('urlparse')
    ctx = it.ctx
    r = ctx.norm(args[0].rope)
    head = tuple(b'bitcoin:')
    if r.p and isinstance(r.p[0], Elems) and r.p[0].v[:8] == head:
        ps = ([Elems(r.p[0].v[8:])] if r.p[0].v[8:] else []) + list(r.p[1:])
        path = []
        while ps and plain(it, ps[0]): path.append(ps.pop(0))
        rest = None
        if not ps: rest = ''
        elif len(ps) == 2 and isinstance(ps[0], Elems) and ps[0].v[-1] == 63 and all(isinstance(e, int) and e in ALNUM for e in ps[0].v[:-1]):
            if ps[0].v[:-1]: path.append(Elems(ps[0].v[:-1]))
            q = SStr(Rope([ps[1]]))
            if pairs_of(it, q) is not None: rest = q
        if rest is not None and path: return result(it, 'bitcoin', '', it.mkstr(Rope(path)), rest)
    t = ctx.toterm(r)
    if DEBUG: print('URL', r.p)
    bad = z3.Function('badurl', S, B)(t)
    ctx.keep(bad)
    if ctx.branch(bad): it.raise_(ValueError, 'not a URL')
    part = lambda name: SStr(ctx.term_rope(z3.Function('url_' + name, S, S)(t), 'char'))
    return result(it, part('scheme'), part('netloc'), part('path'), part('query'))


@model(up.parse_qsl)
def _parse_qsl(it, args, kw):
    if allconc(it, args, kw): return it.native(up.parse_qsl, args, kw)
    if len(args) != 1 or kw: raise Unsupported('parse_qsl options')
    ctx = it.ctx
    pairs = pairs_of(it, args[0])
    if pairs is not None:
        return it.list_of([(k, v) for k, v in pairs if it.truth(it.eqv(v, '')) is False])
    t = ctx.toterm(ctx.norm(it.srope(args[0])))
    out = []
    for name in NAMES + ('',):
        has = z3.Function('q_has_' + name, S, B)(t)
        ctx.keep(has)
        if not ctx.branch(has): continue
        v = z3.Function('q_' + name, S, S)(t)
        key = name
        if not name:
            # one other parameter stands for all of them
            k = z3.Function('q_key', S, S)(t)
            key = SStr(ctx.term_rope(k, 'char'))
            for n in NAMES: ctx.assume(z3.Not(zb(it.eq(key, n))))
        val = SStr(ctx.term_rope(v, 'char'))
        ctx.fact_once(('qval', v.get_id()), lambda: f_len(v) >= 1)
        out.append((key, val))
    return it.list_of(out)


def zb(f): return z3.BoolVal(f) if isinstance(f, bool) else f
