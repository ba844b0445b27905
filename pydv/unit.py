"""Verification units: exhaustive symbolic exploration of a theorem or of a contract, with replay on the real code."""
import ast
import copy
import inspect
import os
import signal
import time
import traceback
import types
import z3

from .core import *
from . import core, lang, models, loops, interp, prims, uris
from .interp import Poison, Interp, Restart, ReturnEx, _MISSING
from .lang import (Int, Bool, Bytes, BArr, Text, OneOf, Alt, Tup, ListOf, Stack, Obj, Via, Native, Dom, make, Skip)

Interp.models = models
Interp.loops = loops


# ----------------------------------------------------------------------------------------------
# symbolic side of the domains

def sym(it, d, name):
    ctx = it.ctx
    if isinstance(d, Int):
        if d.lo is not None and d.lo == d.hi: return d.lo
        t = ctx.fresh_int(name)
        if d.lo is not None: ctx.add(t >= d.lo)
        if d.hi is not None: ctx.add(t <= d.hi)
        return SInt(t)
    if isinstance(d, Bool): return SBool(ctx.fresh_bool(name))
    if isinstance(d, BArr): return HBytes(_seq(ctx, d, 'byte', name), d.cls, ctx.new_oid())
    if isinstance(d, Bytes): return SBytes(_seq(ctx, d, 'byte', name)) if d.n != 0 else b''
    if isinstance(d, Text): return SStr(_seq(ctx, d, 'char', name))
    if isinstance(d, OneOf):
        v = d.vals[ctx.choose(len(d.vals), name)]
        return it.lift(copy.copy(v) if isinstance(v, (list, dict, set, bytearray)) else v)
    if isinstance(d, Alt): return sym(it, d.doms[ctx.choose(len(d.doms), name)], name)
    if isinstance(d, Tup): return tuple(sym(it, x, '%s%d' % (name, k)) for k, x in enumerate(d.doms))
    if isinstance(d, ListOf):
        n = d.lo + ctx.choose(d.hi - d.lo + 1, name)
        vs = [sym(it, d.elem, '%s_%d' % (name, k)) for k in range(n)]
        return tuple(vs) if d.as_tuple else it.list_of(vs)
    if isinstance(d, Stack):
        n = ctx.choose(d.k + (1 if d.base else 0) + (0 if d.base else 1), name)
        vs = [sym(it, d.elem, '%s_%d' % (name, k)) for k in range(n)]
        l = it.list_of(vs)
        if d.base and n == d.k:
            r = ctx.new_seq(KINDS[d.of], name + '_base')
            l.rope = ctx.norm(Rope(list(r.p) + list(l.rope.p)))
        return l
    if isinstance(d, lang.Seq):
        r = ctx.new_seq(KINDS[d.of], name)
        return HList(r, ctx.new_oid())
    if isinstance(d, Obj):
        return SObj(d.cls, {k: sym(it, x, '%s_%s' % (name, k)) for k, x in d.fields.items()}, ctx.new_oid())
    if isinstance(d, Via):
        args = [sym(it, x, '%s%d' % (name, k)) for k, x in enumerate(d.doms)]
        try: return it.call(d.fn, args, {})
        except PyExc: raise PathEnd('not constructible')
    if hasattr(d, 'sym'): return d.sym(it, name)
    raise Unsupported('domain %s has no symbolic form' % type(d).__name__)


class BytesKind(object):
    """Elements of an opaque list that are byte strings."""
    name = 'bytes'
    flats = ()
    f = z3.Function('item', S, I, S)

    def make(self, ctx, term, idx):
        t = self.f(term, zi(idx))
        return SBytes(ctx.term_rope(t, 'byte'))


class BoolKind(object):
    def make(self, ctx, term, idx):
        e = f_at(term, zi(idx))
        k = ('boolat', e.get_id())
        if k not in ctx.seen:
            ctx.seen.add(k)
            ctx.keep(e)
            ctx.add(z3.And(e >= 0, e <= 1))
            ctx.atc.setdefault(term.get_id(), []).append(tn(idx))
            for (p, x, m) in ctx.members:
                if p.term.eq(term) and p.kind is self: ctx.member_at(p, x, m, idx)
        return SBool(e == 1)


class InstrKind(object):
    """Elements of an opaque sequence that are script instructions: any opcode with data that fits it."""
    name = 'instr'
    flats = ('ser',)
    f = z3.Function('pushed', S, I, S)

    def member(self, it, v):
        """Formula: v is one of the instructions this kind stands for."""
        from bitforge.script.opcode import Opcode
        from bitforge.script.instruction import Instruction
        if it.pytype(v) is not Instruction: return False
        op, data = it.getattr_(v, 'opcode'), it.getattr_(v, 'data')
        if it.pytype(op) is not Opcode: return False
        n = it.getattr_(op, 'number')
        if not is_int(n): return False
        n = zi(T(n))
        push = z3.And(n >= 1, n <= 78)
        if data is None: return z3.And(n >= 0, n <= 255, z3.Not(push))
        if not isinstance(data, (bytes, SBytes)): return False
        L = zi(it.length(data))
        return z3.And(push, z3.Implies(n <= 75, L == n), z3.Implies(n == 76, L <= 0xff), z3.Implies(n == 77, L <= 0xffff), L <= 0xffffffff)

    def make(self, ctx, term, idx):
        from bitforge.script.opcode import Opcode
        from bitforge.script.instruction import Instruction
        it = ctx.it
        n = f_at(term, zi(idx))
        ctx.fact_once(('instr', n.get_id()), lambda: z3.And(n >= 0, n <= 255))
        ctx.keep(n)
        op = it.call(Opcode, [mk(n)], {})
        data = None
        if ctx.branch(z3.And(n >= 1, n <= 78)):
            t = self.f(term, zi(idx))
            ctx.keep(t)
            L = f_len(t)
            ctx.fact_once(('pushed', t.get_id()), lambda: z3.And(
                L >= 0, z3.Implies(n <= 75, L == n), z3.Implies(n == 76, L <= 0xff), z3.Implies(n == 77, L <= 0xffff),
                z3.Implies(n == 78, L <= 0xffffffff)))
            data = SBytes(ctx.term_rope(t, 'byte'))
        if getattr(Instruction, '_fields', None) == ('opcode', 'data'):
            # what the constructor makes of these (theorems C13.instruction, C13.instruction_without_data); the domain is stated, not computed by it
            return SObj(Instruction, {'opcode': op, 'data': data}, ctx.new_oid())
        try: return it.call(Instruction, [op, data], {})
        except PyExc: raise PathEnd('not an instruction')


class PubkeyKind(object):
    """Elements of an opaque sequence that are valid public keys."""
    name = 'pubkey'
    flats = ()
    fx, fy = z3.Function('keyx', S, I, I), z3.Function('keyy', S, I, I)

    def make(self, ctx, term, idx):
        from bitforge.pubkey import PublicKey
        from bitforge import networks
        from specs import prims
        if getattr(PublicKey, '_fields', None) != ('pair', 'network', 'compressed'): raise Unsupported('representation of keys')
        i = zi(idx)
        x, y, c = self.fx(term, i), self.fy(term, i), f_at(term, i)
        p = prims.SECP_P
        ctx.keep(x); ctx.keep(y)
        ctx.fact_once(('key', x.get_id()), lambda: z3.And(x >= 0, x < p, y >= 0, y < p, c >= 0, c <= 1))
        return SObj(PublicKey, {'pair': (mk(x), mk(y)), 'network': Poison('network of some key'), 'compressed': SBool(c == 1)}, ctx.new_oid())


def a_script(ctx, t):
    """A generic script with the instructions of an opaque sequence, below 4 GiB in binary form."""
    from bitforge.script.script import Script
    if getattr(Script, '_fields', None) != ('instructions',): raise Unsupported('representation of scripts')
    ctx.keep(t)
    code = ctx.term_rope(t, KINDS['instr'])
    n = ctx.rlen(Rope([Flat('ser', t, 0, f_len(t), KINDS['instr'])]))
    ctx.fact_once(('script', t.get_id()), lambda: zi(n) < 2 ** 32)
    return ctx.it.call(Script, [HList(code, ctx.new_oid())], {})


class TxinKind(object):
    """Elements of an opaque sequence that are transaction inputs of the plain class: id of 32 bytes, numbers of 32 bits."""
    name = 'txin'
    flats = ('txin',)
    cls = 'bitforge.transaction.input', 'Input'
    fields = ('tx_id', 'txo_index', 'script', 'seq_number')
    fid, fix, fseq, fcode = z3.Function('txid', S, I, S), z3.Function('txix', S, I, I), z3.Function('txseq', S, I, I), z3.Function('txcode', S, I, S)

    def make(self, ctx, term, idx):
        import importlib
        cls = getattr(importlib.import_module(self.cls[0]), self.cls[1])
        if getattr(cls, '_fields', None) != self.fields: raise Unsupported('representation of inputs')
        i = zi(idx)
        d, ix, sq, c = self.fid(term, i), self.fix(term, i), self.fseq(term, i), self.fcode(term, i)
        for t in (d, ix, sq): ctx.keep(t)
        ctx.fact_once(('txin', d.get_id()), lambda: z3.And(f_len(d) == 32, ix >= 0, ix < 2 ** 32, sq >= 0, sq < 2 ** 32))
        text = SStr(Rope([Hex(Rope([Sl(d, 0, 32, 'byte')]))]))
        return SObj(cls, {'tx_id': text, 'txo_index': mk(ix), 'script': a_script(ctx, c), 'seq_number': mk(sq)}, ctx.new_oid())


class TxoutKind(object):
    """Elements of an opaque sequence that are transaction outputs of the plain class: amounts of 64 bits."""
    name = 'txout'
    flats = ('txout',)
    cls = 'bitforge.transaction.output', 'Output'
    fields = ('amount', 'script')
    fam, fcode = z3.Function('txam', S, I, I), z3.Function('txocode', S, I, S)

    def make(self, ctx, term, idx):
        import importlib
        cls = getattr(importlib.import_module(self.cls[0]), self.cls[1])
        if getattr(cls, '_fields', None) != self.fields: raise Unsupported('representation of outputs')
        i = zi(idx)
        a, c = self.fam(term, i), self.fcode(term, i)
        ctx.keep(a)
        ctx.fact_once(('txout', a.get_id()), lambda: z3.And(a >= 0, a < 2 ** 64))
        return SObj(cls, {'amount': mk(a), 'script': a_script(ctx, c)}, ctx.new_oid())


KINDS = {'txin': TxinKind(), 'txout': TxoutKind(), 'pubkey': PubkeyKind(), 'instr': InstrKind(), 'bytes': BytesKind(), 'bool': BoolKind()}


def _seq(ctx, d, kind, name):
    n = getattr(d, 'n', None)
    if n is not None:
        if n == 0: return EMPTY
        return ctx.new_seq(kind, name, n=n)
    return ctx.new_seq(kind, name, lo=d.lo, hi=d.hi)


def has(it, d, v):
    """Formula: v belongs to the domain (False if it cannot be told)."""
    if isinstance(d, Int):
        if not is_int(v) or isinstance(v, (bool, SBool)): return False
        return And(True if d.lo is None else Le(d.lo, T(v)), True if d.hi is None else Le(T(v), d.hi))
    if isinstance(d, Bool): return isinstance(v, (bool, SBool))
    if isinstance(d, Bytes):
        if isinstance(d, BArr):
            if not isinstance(v, HBytes) or v.cls is not d.cls: return False
        elif not isinstance(v, (bytes, SBytes)): return False
        n = it.length(v)
        return And(Le(d.lo, n), True if d.hi is None else Le(n, d.hi))
    if isinstance(d, Text):
        if not isinstance(v, (str, SStr)): return False
        n = it.length(v)
        return And(Le(d.lo, n), True if d.hi is None else Le(n, d.hi))
    if isinstance(d, OneOf):
        ok, c = it.conc(v)
        if ok: return any(type(c) is type(x) and (c is x or c == x) for x in d.vals)
        try: return Or(*[it.same(v, x) for x in d.vals])
        except Unsupported: return False
    if isinstance(d, Alt):
        return Or(*[has(it, x, v) for x in d.doms])
    if isinstance(d, Tup):
        if not isinstance(v, tuple) or len(v) != len(d.doms): return False
        return And(*[has(it, x, e) for x, e in zip(d.doms, v)])
    if isinstance(d, Obj):
        if isinstance(v, SObj):
            if v.cls is not d.cls or set(v.fields) != set(d.fields): return False
            return And(*[has(it, x, v.fields[k]) for k, x in d.fields.items()])
        if isinstance(v, Sym) or type(v) is not d.cls: return False
        f = it.objfields(v)
        return set(f) == set(d.fields) and And(*[has(it, x, it.lift(f[k])) for k, x in d.fields.items()])
    if hasattr(d, 'has'): return d.has(it, v)
    return False


def clone(v, memo=None):
    """Copy of a value with fresh mutable objects."""
    memo = {} if memo is None else memo
    if id(v) in memo: return memo[id(v)]
    if isinstance(v, HBytes): r = HBytes(v.rope, v.cls, v.oid)
    elif isinstance(v, HList):
        r = HList(Rope([Elems([clone(e, memo) for e in p.v]) if isinstance(p, Elems) else p for p in v.rope.p]), v.oid)
    elif isinstance(v, HDict): r = HDict([[k, clone(x, memo)] for k, x in v.items], v.oid)
    elif isinstance(v, HSet): r = HSet(list(v.items), v.oid)
    elif isinstance(v, SObj):
        if issubclass(v.cls, tuple) and not any(_mutable(x) for x in v.fields.values()): return v
        r = SObj(v.cls, {}, v.oid, v.tag)
        memo[id(v)] = r
        r.fields = {k: clone(x, memo) for k, x in v.fields.items()}
    elif type(v) is tuple: r = tuple(clone(e, memo) for e in v)
    else: return v
    memo[id(v)] = r
    return r


def _mutable(v):
    if isinstance(v, (HBytes, HList, HDict, HSet)): return True
    if isinstance(v, SObj): return not issubclass(v.cls, tuple) or any(_mutable(x) for x in v.fields.values())
    if type(v) is tuple: return any(_mutable(x) for x in v)
    return False


# ----------------------------------------------------------------------------------------------
# models -> concrete inputs

class NoModel(Exception): pass


def concretize(ctx, m, v, order=0):
    ev = lambda t: t if isinstance(t, int) else m.eval(t, model_completion=True).as_long()
    if isinstance(v, SInt): return ev(v.t)
    if isinstance(v, SBool): return bool(z3.is_true(m.eval(v.t, model_completion=True)))
    if isinstance(v, SReal):
        q = m.eval(v.t, model_completion=True)
        if not z3.is_rational_value(q): raise NoModel('irrational')
        return float(q.numerator_as_long()) / float(q.denominator_as_long())
    if isinstance(v, SBytes): return bytes(crope(ctx, m, v.rope, order))
    if isinstance(v, HBytes): return v.cls(bytes(crope(ctx, m, v.rope, order)))
    if isinstance(v, SStr): return ''.join(map(chr, crope(ctx, m, v.rope, order)))
    if isinstance(v, HList): return [concretize(ctx, m, e, order) for e in celems(ctx, m, v.rope)]
    if isinstance(v, STuple): return tuple(concretize(ctx, m, e, order) for e in celems(ctx, m, v.rope))
    if isinstance(v, HDict): return {concretize(ctx, m, k, order): concretize(ctx, m, x, order) for k, x in v.items}
    if isinstance(v, HSet): return {concretize(ctx, m, k, order) for k in v.items}
    if isinstance(v, SObj): return make(v.cls, {k: concretize(ctx, m, x, order) for k, x in v.fields.items()})
    if type(v) is tuple: return tuple(concretize(ctx, m, e, order) for e in v)
    if isinstance(v, Sym): raise NoModel(type(v).__name__)
    return v


def celems(ctx, m, rope):
    out = []
    for p in rope.p:
        if isinstance(p, Elems): out += list(p.v)
        elif isinstance(p, Sl) and not isinstance(p.kind, str):
            lo = p.lo if isinstance(p.lo, int) else m.eval(p.lo, model_completion=True).as_long()
            n = p.n if isinstance(p.n, int) else m.eval(p.n, model_completion=True).as_long()
            if n > 2000: raise NoModel('length')
            xs = [p.kind.make(ctx, p.term, k) for k in range(lo, lo + n)]
            out += xs[::-1] if p.rev else xs
        else: raise NoModel('sequence')
    return out


def crope(ctx, m, rope, order):
    ev = lambda t: t if isinstance(t, int) else m.eval(t, model_completion=True).as_long()
    out = []
    for p in rope.p:
        if isinstance(p, Elems): out += [ev(T(e)) for e in p.v]
        elif isinstance(p, Sl):
            lo, n = ev(p.lo), ev(p.n)
            if n > 200000: raise NoModel('length %d' % n)
            xs = cterm(ctx, m, p.term, lo + n, order, p.kind)[lo:lo + n]
            out += xs[::-1] if p.rev else xs
        elif isinstance(p, Rep): out += [ev(T(p.v))] * ev(p.n)
        elif isinstance(p, Enc):
            v, n = ev(p.v), ev(p.n)
            ds = [elem_of(p.alpha, (v // p.alpha ** k) % p.alpha) for k in range(n)]
            out += ds[::-1] if p.be else ds
        elif isinstance(p, Hex): out += list(bytes(crope(ctx, m, p.rope, order)).hex().encode())
        elif isinstance(p, Dec): out += list(str(ev(p.v)).encode())
        else: raise NoModel('piece')
    return out


def cterm(ctx, m, term, n, order, kind):
    ev = lambda t: t if isinstance(t, int) else m.eval(t, model_completion=True).as_long()
    hi = 255 if kind == 'byte' else 0x10FFFF
    xs = [None] * n

    def by_at():
        for idx in ctx.atc.get(term.get_id(), []):
            k = ev(idx)
            if 0 <= k < n and (xs[k] is None or order == 0):
                xs[k] = max(0, min(hi, ev(f_at(term, zi(idx)))))

    def by_val():
        for (k, tm, lo, cnt) in ctx.vals:
            if not isinstance(k, tuple) or not tm.eq(term): continue
            _, alpha, be = k
            a, c = ev(lo), ev(cnt)
            if c <= 0 or a < 0 or a + c > n: continue
            v = ev(f_val(alpha, be)(term, zi(lo), zi(cnt)))
            ds = [(v // alpha ** j) % alpha for j in range(c)] if 0 <= c < 3000 else []
            if be: ds.reverse()
            for j, x in enumerate(ds): xs[a + j] = elem_of(alpha, x)
    by_val()
    by_at()
    if kind != 'byte' and term.get_id() in ctx.asciiterms: hi = 127
    fill = 0 if kind == 'byte' else 49
    return [fill if x is None else x for x in xs]


# ----------------------------------------------------------------------------------------------

class Failure(object):
    def __init__(self, label, status, detail='', exact=False):
        self.label, self.status, self.detail, self.exact = label, status, detail, exact
        self.inputs = []            # concrete candidate inputs

    def brief(self): return '%s: %s %s' % (self.status, self.label, self.detail[:300])


class NativeTimeout(BaseException): pass


def native_call(fn, args, cpu=60):
    """Run a function on concrete inputs with a CPU limit."""
    def onalarm(*a): raise NativeTimeout()
    old = signal.signal(signal.SIGVTALRM, onalarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try: return fn(*args)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


class Result(object):
    def __init__(self, uid):
        self.uid = uid
        self.obligations = self.discharged = self.paths = self.queries = 0
        self.solver_time = self.wall = 0.0
        self.failures = []
        self.used = set()           # contracts relied upon
        self.functions = set()      # real functions executed symbolically
        self.loops = {}
        self.nonvacuous = False
        self.violations = []        # (label, repr of inputs, message)
        self.native_runs = 0
        self.native_skips = 0
        self.assumed = set()
        self.trusted = False
        self.skipped = False
        self.bounded = None
        self.cvc5 = [0, 0]
        self.labels = {}
        self.unreached = []
        self.distinct = set()

    def ok(self):
        if self.trusted: return not self.failures
        return not self.failures and self.obligations > 0 and self.obligations == self.discharged and self.nonvacuous


class Unit(object):
    full_errors = False
    unroll_bound = None
    inv_ms = 3000
    MAXFAIL = 4

    def __init__(self, uid, banned=(), deadline=None, recheck=False, opts=None):
        self.uid = uid
        self.banned = set(banned)
        self.loops_info = {}
        self.loops_cut = {}
        self.dirty = False
        self.deadline = deadline
        self.recheck = recheck
        self.opts = opts or {}
        self.opaque = self.opts.get('opaque') or {}
        self.full_errors = self.opts.get('full_errors', False)
        self.plugin = self.opts.get('plugin')
        self.kinds = KINDS
        self.impure, self.desugared = set(), {}
        self.res = Result(uid)
        self.reached = set()
        self.self_fn = None
        self.contracts = {}
        nouse = set(self.opts.get('inline', ()))
        for target, cs in lang.CONTRACTS.items():
            for c in cs:
                if c.id in self.banned or target in nouse: continue
                if c.opts.get('by') and target not in self.opts.get('use', ()): continue      # never used where it is shown
                f = c.resolve()
                if isinstance(f, types.FunctionType): self.contracts.setdefault(f, []).append(c)

    # -- hooks used by the interpreter
    def loop(self, key):
        if key not in self.loops_info: self.loops_info[key] = loops.Info(key)
        return self.loops_info[key]

    def elem_type(self, it, v): return self.plugin.elem_type(it, v) if hasattr(self.plugin, 'elem_type') else None
    def extra_variant(self, it, head, nxt): return self.plugin.variant(it, head, nxt) if hasattr(self.plugin, 'variant') else None
    def extra_candidates(self, it, n, entry, head, rope, info):
        return self.plugin.candidates(it, n, entry, head, rope, info) if hasattr(self.plugin, 'candidates') else ()

    def contract_for(self, it, f):
        self.res.functions.add('%s.%s' % (f.__module__, f.__qualname__))
        op = self.opaque.get(f)
        if op is not None: return Opaque(f, op)
        cs = self.contracts.get(f)
        if not cs: return None
        return Applier(self, cs, f)

    def obligation(self, it, f, node, env):
        label = '%s line %d: %s' % (self.uid, getattr(node, 'lineno', 0), ast.unparse(node.test)[:200] if isinstance(node, ast.Assert) else str(node))
        self.prove(it, f, label)

    def prove(self, it, f, label):
        ctx = it.ctx
        r = self.stats
        r.obligations += 1
        self.res.labels[label] = self.res.labels.get(label, 0) + 1
        if label not in self.reached:
            # vacuity: some path must reach the obligation with a satisfiable path condition
            c = self.satisfiable(ctx)
            if c == z3.sat: self.reached.add(label)
            elif c == z3.unsat:
                r.obligations -= 1
                raise PathEnd('infeasible')
        if f is True:
            r.discharged += 1
            return
        g = z3.BoolVal(False) if f is False else z3.simplify(f)
        if z3.is_true(g):
            r.discharged += 1
            return
        neg = z3.Not(g)
        if ctx._check([neg], ctx.PROVE_MS if not ctx.linear.nonlinear else 1000) == z3.unsat:
            r.discharged += 1
            if self.recheck: self.cvc5(ctx, neg)
            ctx.add(g)
            return
        ctx.want_model = True
        st = ctx._check([neg], ctx.PROVE_MS)
        m = ctx.model_
        ctx.want_model = False
        if st == z3.unsat:
            r.discharged += 1
            if self.recheck: self.cvc5(ctx, neg)
            ctx.add(g)
            return
        if st == z3.unknown and f is not False and not self.dirty:          # (a dirty pass is done again)
            # a second attempt: a fresh solver without incremental state, then cvc5
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*ctx.pc)
            s.add(neg)
            t0 = time.time()
            st = s.check()
            r.solver_time += time.time() - t0
            if st == z3.sat: m = s.model()
            if st == z3.unsat:
                r.discharged += 1
                ctx.add(g)
                return
        if st == z3.unknown and not self.dirty and self.cvc5(ctx, neg) == 'unsat':
            r.discharged += 1
            ctx.add(g)
            return
        fl = Failure(label, str(st), 'goal %s' % str(g)[:400], ctx.exact and st == z3.sat)
        if st == z3.sat: self.candidates_from(it, neg, m, fl)
        self.res.failures.append(fl)
        raise PathEnd('failed obligation')

    def satisfiable(self, ctx):
        c = ctx._check([], 2000 if ctx.linear.nonlinear else 5000)
        if c == z3.unknown and ctx.linear.nonlinear:
            # too hard with products: at least the linear view must be satisfiable
            ctx.lsolver.set('timeout', 5000)
            c = ctx.lsolver.check()
        return c

    def cvc5(self, ctx, neg, ms=20000):
        try: import cvc5
        except ImportError: return 'none'
        s = z3.Solver()
        s.add(*ctx.pc)
        s.add(neg)
        txt = s.to_smt2()
        t0 = time.time()
        try:
            slv = cvc5.Solver()
            slv.setOption('tlimit-per', str(ms))
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt, 'q')
            sm = p.getSymbolManager()
            out = ''
            while True:
                cmd = p.nextCommand()
                if cmd.isNull(): break
                o = cmd.invoke(slv, sm)
                if 'sat' in o or 'unknown' in o: out = o.strip()
        except Exception as e:
            out = 'error %s' % e
        self.res.cvc5[0] += 1
        if out == 'unsat': self.res.cvc5[1] += 1
        self.stats.solver_time += time.time() - t0
        return out

    def candidates_from(self, it, neg, m, fl):
        ctx = it.ctx
        args = getattr(self, 'args0', None)
        if args is None: return
        lens = []

        def walk(v):
            if isinstance(v, (SBytes, HBytes, SStr, STuple, HList)):
                for p in v.rope.p:
                    if isinstance(p, Sl) and not isinstance(p.n, int): lens.append(p.n)
                    if isinstance(p, Elems):
                        for e in p.v: walk(e)
            elif isinstance(v, SObj):
                for x in v.fields.values(): walk(x)
            elif isinstance(v, tuple):
                for x in v: walk(x)
            elif isinstance(v, HDict):
                for k, x in v.items: walk(x)
        for a in args: walk(a)
        ms = [m] if m is not None else []
        if lens:
            for cap in (8, 80, 700):
                ctx.want_model = True
                if ctx._check([neg] + [n <= cap for n in lens], 4000) == z3.sat:
                    ms.insert(0, ctx.model_)
                    ctx.want_model = False
                    break
                ctx.want_model = False
        for mm in ms:
            for order in (0, 1):
                try:
                    c = [concretize(ctx, mm, a, order) for a in args]
                    if repr(c) not in [repr(x) for x in fl.inputs]: fl.inputs.append(c)
                except (NoModel, Unsupported, PyExc, ValueError, OverflowError, TypeError, AttributeError, KeyError):
                    pass

    # -- exploration
    def explore(self):
        t0 = time.time()
        res = self.res
        for rnd in range(60):
            self.dirty = False
            self.stats = Stats()
            res.failures = []
            res.labels = {}
            for info in self.loops_info.values(): info.variants = None
            self.loops_cut = {}
            again = False
            work = [[]]
            nuns = 0
            while work:
                prefix = work.pop()
                ctx = Ctx(prefix, self.stats, self.deadline, {k: self.opts[k] for k in ('two', 'pow_consts', 'linear', 'field') if k in self.opts})
                it = Interp(ctx, self)
                self.stats.paths += 1
                try:
                    self.run_path(it)
                except PathEnd: pass
                except Restart:
                    again = True
                    break
                except Unsupported as u:
                    res.failures.append(Failure(self.uid, 'unsupported', '%s [%s]' % (u, ' > '.join(str(c[0]) for c in it.callstack_at(u)))))
                    nuns += 1
                    if 'time budget' in str(u): work = []
                except RecursionError:
                    res.failures.append(Failure(self.uid, 'unsupported', 'recursion'))
                except z3.Z3Exception as e:
                    res.failures.append(Failure(self.uid, 'unsupported', 'solver: %s' % str(e)[:200]))
                work += ctx.pending
                if self.dirty: continue
                if len([f for f in res.failures if f.status == 'sat']) >= self.MAXFAIL: break
                if nuns > 40 or len(res.failures) > 60: break
            if again or self.dirty: continue
            break
        else:
            res.failures.append(Failure(self.uid, 'unsupported', 'invariant inference did not converge'))
        s = self.stats
        res.nonvacuous = bool(self.reached)
        res.unreached = [l for l in res.labels if l not in self.reached]
        for key, info in self.loops_info.items():
            if key in self.loops_cut:
                if info.variants is not None and not info.variants and self.opts.get('partial'):
                    res.assumed.add('%s: termination of a loop without a measure: %s' % (self.uid, self.opts['partial']))
                elif info.variants is not None:
                    s.obligations += 1
                    if info.variants: s.discharged += 1
                    else: res.failures.append(Failure('%s loop at line %s terminates' % (self.uid, key[1]), 'unknown', 'no decreasing measure found'))
                res.loops['%s:%s' % (key[0][-1][0] if key[0] else '?', key[1])] = [str(k) for k in self.loops_cut[key]]
        res.obligations, res.discharged, res.paths = s.obligations, s.discharged, s.paths
        res.queries, res.solver_time, res.wall = s.queries, s.solver_time, time.time() - t0
        return res


def _callstack_at(self, u): return list(self.callstack)[-6:]


Interp.callstack_at = _callstack_at


class Opaque(object):
    """A specification function this unit need not look into: an uninterpreted function of its arguments."""
    def __init__(self, f, result): self.f, self.result = f, result

    def apply(self, it, args, kwargs):
        if kwargs: return NotImplemented
        if all(it.conc(a)[0] for a in args): return NotImplemented
        ts = []
        args = [self.small(it, a) for a in args]
        if all(it.conc(a)[0] for a in args): return (it.call_real(self.f, args, {}),)
        for a in args:
            if isinstance(a, (bool, SBool)): ts.append(zi(T(a)))
            elif is_int(a): ts.append(zi(T(a)))
            elif isinstance(a, (bytes, SBytes, HBytes)): ts.append(it.ctx.toterm(it.ctx.norm(it.rope_of(a))))
            else: return NotImplemented
        it.ctx.exact = False
        rs = {'int': I, 'bool': B, 'bytes': S}[self.result]
        t = z3.Function('op_' + self.f.__name__, *([x.sort() for x in ts] + [rs]))(*ts)
        it.ctx.keep(t)
        if self.result == 'int': return (mk(t),)
        if self.result == 'bool': return (SBool(t),)
        return (SBytes(it.ctx.term_rope(t, 'byte')),)


    def small(self, it, a):
        if not isinstance(a, SInt): return a
        t = a.t
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, x, y = t.children()
            t = x if it.ctx.branch(c) else y
        for k in (0, 1):
            f = z3.simplify(t == k)
            if z3.is_true(f) or (not z3.is_false(f) and it.ctx.quick(f)): return k
        return mk(t)


class Applier(object):
    """Use of proved contracts at a call."""
    def __init__(self, unit, cs, f): self.unit, self.cs, self.f = unit, cs, f

    def apply(self, it, args, kwargs):
        u = self.unit
        try:
            sig = inspect.signature(self.f)
            ba = sig.bind(*args, **kwargs)
            ba.apply_defaults()
        except TypeError: return NotImplemented
        if any(p.kind not in (p.POSITIONAL_OR_KEYWORD, p.POSITIONAL_ONLY) for p in sig.parameters.values()): return NotImplemented
        every = [it.lift(v) for v in ba.arguments.values()]
        # parameters that a contract leaves out have their default values
        given, params = [len(args)] + [list(sig.parameters).index(k) + 1 for k in kwargs], list(sig.parameters.values())
        for c in self.cs:
            if c.id == u.uid and not it.callstack: continue
            if c.id == u.uid and u.opts.get('recursive') is not True: continue
            if len(every) < len(c.doms) or max(given) > len(c.doms): continue
            if any(p.default is p.empty for p in params[len(c.doms):]): continue
            vals = every[:len(c.doms)]
            ok = And(*[has(it, d, v) for d, v in zip(c.doms, vals)])
            if ok is False: continue
            if ok is not True and not it.ctx.prove(ok): continue
            u.res.used.add(c.id)
            if c.kind == 'ensures':
                r = sym(it, c.opts['result'], 'res')
                post = it.call(c.spec, [r] + vals, {})
                f = it.truthf(post)
                if f is False: raise PathEnd('contract')
                if f is not True: it.ctx.add(f)
                return (r,)
            return (it.call(c.spec, vals, {}),)
        return NotImplemented


class TheoremUnit(Unit):
    def __init__(self, t, **kw):
        Unit.__init__(self, t.id, opts=t.opts, **kw)
        self.t = t

    def run_path(self, it):
        args = [sym(it, d, 'a%d' % k) for k, d in enumerate(self.t.doms)]
        self.args0 = [clone(a) for a in args]
        try:
            it.call_real(self.t.fn, args, {})
        except PyExc as e:
            where = '%s: uncaught %s' % (self.uid, e.cls.__name__)
            self.prove(it, False, where)


class ContractUnit(Unit):
    def __init__(self, c, **kw):
        Unit.__init__(self, c.id, opts=c.opts, **kw)
        self.c = c
        self.fn = c.resolve()

    def run_path(self, it):
        c = self.c
        args = [sym(it, d, 'a%d' % k) for k, d in enumerate(c.doms)]
        self.args0 = [clone(a) for a in args]
        a1, memo = [clone(a) for a in args], None
        if c.kind == 'ensures':
            r = it.call_real(self.fn, a1, {})
            p = it.call(c.spec, [r] + args, {})
            self.prove(it, has(it, c.opts['result'], r), '%s result type' % self.uid)
            self.prove(it, it.truthf(p), '%s postcondition' % self.uid)
            return
        try: o2 = ('ret', it.call_real(c.spec, args, {}))
        except PyExc as e: o2 = ('exc', e)
        try: o1 = ('ret', it.call_real(self.fn, a1, {}))
        except PyExc as e: o1 = ('exc', e)
        if o1[0] != o2[0]:
            self.prove(it, False, '%s: code %s, contract %s' % (self.uid, desc(it, o1), desc(it, o2)))
            return
        it.proving = True
        if o1[0] == 'exc':
            self.prove(it, issubclass(o1[1].cls, o2[1].cls), '%s: raises %s, contract %s' % (self.uid, o1[1].cls.__name__, o2[1].cls.__name__))
        else:
            f = it.eq(o1[1], o2[1]) if c.opts.get('lenient') else it.same(o1[1], o2[1])
            self.prove(it, f, '%s: result' % self.uid)
        for k, (x, y) in enumerate(zip(a1, args)):
            if _mutable(x): self.prove(it, it.same(x, y), '%s: argument %d afterwards' % (self.uid, k))


def desc(it, o):
    if o[0] == 'exc': return 'raises %s' % o[1].cls.__name__
    return 'returns'


# ----------------------------------------------------------------------------------------------
# native side

def run_native(t, args, cpu=60):
    """None if the theorem holds on the inputs, else a message.  Slowness on a large input is not taken for a failure."""
    big = False
    try: big = len(repr(args)) > 20000
    except Exception: pass
    try:
        native_call(t.fn, args, cpu)
        return None
    except Skip: raise
    except NativeTimeout:
        if big: raise Skip('large and slow')
        return 'did not terminate within the CPU limit'
    except AssertionError as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if '/specs/' in f.filename] or tb
        return 'assertion failed: %s (line %d) %s' % (last[-1].line, last[-1].lineno, e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return 'uncaught %s: %s at %s:%d' % (type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno)


def search(t, seed, seconds, ints, blobs, texts, res, maxruns=100000):
    end = time.time() + seconds
    g = lang.Gen('%s/%s' % (seed, t.id), ints, blobs, texts)
    lim = t.opts.get('runs', maxruns)
    n = 0
    first = t.opts['corners'](g) if 'corners' in t.opts and seconds >= 5 else []
    while n < lim and (time.time() < end or n < 5 or first):
        n += 1
        cpu = 10 if first else 60
        try: args = first.pop(0) if first else [d.gen(g) for d in t.doms]
        except Skip:
            res.native_skips += 1
            continue
        keep = copy.deepcopy(args)
        try: msg = run_native(t, args, cpu)
        except Skip:
            res.native_skips += 1
            continue
        res.native_runs += 1
        if len(res.distinct) < 400000:
            try: res.distinct.add(hash(repr(keep)))
            except Exception: res.distinct.add(n)
        if msg is not None:
            res.violations.append((t.id, keep, msg))
            return


def replay_failures(t, res):
    for f in res.failures:
        for args in f.inputs:
            try: keep = copy.deepcopy(args)
            except Exception: continue          # not an input that can exist
            try: msg = run_native(t, args)
            except Skip: continue
            res.native_runs += 1
            if msg is not None:
                res.violations.append((t.id, keep, 'counterexample of obligation [%s]: %s' % (f.label, msg)))
                return


def check_assumed(c, fn, cfg, res, seconds=6.0):
    """A contract taken as an assumption: compared with the real function on generated inputs (bounded), else not used."""
    res.trusted = True
    res.assumed.add('contract of %s assumed, compared natively on generated inputs only: %s' % (c.target, c.opts['assume']))
    end = time.time() + seconds
    g = lang.Gen('%s/%s' % (cfg['seed'], c.id), cfg['ints'], cfg['blobs'], cfg['texts'])
    t = lang.Theorem('assumed', c.id, None, c.doms)

    def same(*args):
        a1, a2 = copy.deepcopy(args), copy.deepcopy(args)
        if c.kind == 'ensures':
            assert c.spec(fn(*a1), *a2)
            return
        try: x = ('ret', c.spec(*a2))
        except Exception as e: x = ('exc', type(e))
        try: y = ('ret', fn(*a1))
        except Exception as e: y = ('exc', type(e))
        assert x[0] == y[0] and (x[1] == y[1] if x[0] == 'ret' else issubclass(y[1], x[1])), (x, y)
    t.fn = same
    while time.time() < end:
        try: args = [d.gen(g) for d in c.doms]
        except Skip: continue
        keep = repr(args)[:300]
        try: msg = run_native(t, args)
        except Skip: continue
        res.native_runs += 1
        if msg is not None:
            res.failures.append(Failure(c.id, 'unknown', 'native comparison fails on %s: %s' % (keep, msg[:200])))
            return


from . import texts    # registers its kinds and models
