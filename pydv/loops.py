"""Loops: unrolled when the number of iterations is known on the path, otherwise cut by inferred invariants.

Invariants are generated by type from the loop state (never from variable names) and kept only if they hold on
entry and are preserved by every path through the body (Houdini: failing candidates are dropped and the whole unit
is explored again, so what remains is inductive).
"""
import ast
import copy
import z3

from .core import *
from .interp import (Env, BreakEx, ContinueEx, ReturnEx, Restart, Poison, _MISSING, assigned_names, CellNS)
from .eqs import rope_eq
from . import core

UNROLL_SYM = 70


class Info(object):
    """What is known about a loop, kept across re-explorations of the unit."""
    def __init__(self, key):
        self.key = key
        self.cut = False
        self.heap = []          # slots of mutated containers / fields
        self.killed = set()
        self.poison = set()
        self.variants = None
        self.kinds = {}
        self.checked = 0


def loopkey(it, n):
    return (tuple(it.callstack), n.lineno, n.col_offset)


def while_(it, n, env):
    info = it.unit.loop(loopkey(it, n))
    if isinstance(n.test, ast.Constant) and n.test.value and it.unit.opts.get('endless'): info.cut = True      # no unrolling
    if info.cut: return cut(it, n, env, info, None)
    k = 0
    while True:
        v = it.ev(n.test, env)
        f = it.truthf(v)
        if not isinstance(f, bool):
            f = z3.simplify(f)
            if z3.is_true(f): f = True
            elif z3.is_false(f): f = False
        if not isinstance(f, bool):
            if it.ctx.prove(f): t = True
            elif it.ctx.prove(z3.Not(f)): t = False
            else:
                if it.unit.unroll_bound is not None and k < it.unit.unroll_bound: t = it.ctx.branch(f)
                elif it.unit.unroll_bound is not None: raise PathEnd('unrolling bound')
                else:
                    info.cut = True
                    raise Restart('cut loop')
        else:
            t = f
        if not t: break
        k += 1
        if k > it.UNROLL:
            info.cut = True
            raise Restart('cut loop')
        before = len(it.ctx.taken)
        try: it.block(n.body, env)
        except BreakEx: return
        except ContinueEx: pass
        if it.ctx.branches() > UNROLL_SYM and it.unit.unroll_bound is None:
            info.cut = True
            raise Restart('cut loop')
    it.block(n.orelse, env)


def for_(it, n, env):
    src = it.ev(n.iter, env)
    ctx = it.ctx
    info = it.unit.loop(loopkey(it, n))
    sym = None
    if isinstance(src, (Lazy,)):
        pass
    elif isinstance(src, (HList, HBytes, SBytes, STuple, SRange, SIter)) and not (isinstance(src, SIter) and src.lazy is not None):
        if isinstance(src, SRange):
            r = None
            nlen = it.length(src)
        elif isinstance(src, SIter):
            r = src.rope
            nlen = ctx.rlen(r)
        else:
            r = it.iter_rope(src)
            nlen = ctx.rlen(r)
        if not isinstance(nlen, int):
            c = None
            if not info.cut: c = ctx.known_len(nlen)
            if c is None:
                if it.unit.unroll_bound is not None:
                    for c in range(it.unit.unroll_bound + 1):
                        if ctx.branch(Eq(nlen, c)): break
                    else: raise PathEnd('unrolling bound')
                else:
                    info.cut = True
                    if isinstance(src, SIter):
                        from . import texts
                        if texts.shares(it, n, env, src): return texts.as_while(it, n, env, src)
                        r = src.rope
                        src.rope = EMPTY
                    if r is not None: return pieces(it, n, env, info, r)
                    return cut(it, n, env, info, it.iter_rope(src))
    if info.cut and not isinstance(src, Lazy): info.cut = False
    for v in it.iter_concrete(src):
        it.assign(n.target, v, env)
        try: it.block(n.body, env)
        except BreakEx: return
        except ContinueEx: continue
    it.block(n.orelse, env)


def pieces(it, n, env, info, r):
    """A loop over a sequence made of parts: the known elements one by one, each part of unknown length on its own."""
    r = it.ctx.norm(r)
    if len(r.p) == 1 or not all(isinstance(p, Elems) or isinstance(p, Lam) or (isinstance(p, Sl) and not isinstance(p.kind, str)) for p in r.p):
        return cut(it, n, env, info, r)
    bare = copy.copy(n)
    bare.orelse = []
    for k, p in enumerate(r.p):
        try:
            if isinstance(p, Elems):
                for v in p.v:
                    it.assign(n.target, v, env)
                    try: it.block(n.body, env)
                    except ContinueEx: pass
            else: cut(it, bare, env, it.unit.loop(loopkey(it, n) + (k,)), Rope([p]), True)
        except BreakEx: return
    it.block(n.orelse, env)


# ----------------------------------------------------------------------------------------------

def body_names(n):
    out = set()
    for s in n.body:
        fake = ast.FunctionDef(name='x', args=None, body=[s], decorator_list=[])
        out |= assigned_names(fake)
    if isinstance(n, ast.While):
        for g in ast.walk(n.test):
            if isinstance(g, ast.NamedExpr): out.add(g.target.id)
    else:
        for g in ast.walk(n.target):
            if isinstance(g, ast.Name): out.add(g.id)
    return out


def get_slot(it, env, slot):
    if slot[0] == 'v': return env.vars.get(slot[1], _MISSING)
    o = it.lookup(slot[1], env)
    if slot[0] == 'h': return o
    if slot[0] == 'f': return o.fields.get(slot[2], _MISSING)
    if slot[0] == 'fh': return o.fields[slot[2]]


def content(it, v):
    """Comparable content of a slot value: integers stay, containers become ropes."""
    if isinstance(v, (HBytes, HList, SIter)): return v.rope
    return v


def kind_of(it, v):
    if isinstance(v, (bool, SBool)): return 'bool'
    if is_int(v): return 'int'
    if isinstance(v, (HBytes,)): return 'hbytes'
    if isinstance(v, (bytes, SBytes)): return 'bytes'
    if isinstance(v, HList): return 'hlist'
    if isinstance(v, SIter): return 'iter'
    if isinstance(v, (str, SStr)): return 'str'
    if v is None: return 'none'
    if isinstance(v, (float, SReal)): return 'real'
    return 'other'


class State(object):
    """Snapshot of the loop state: slot -> integer term or rope, and the iteration index."""
    def __init__(self): self.d, self.i, self.head = {}, None, False


def snapshot(it, env, slots, i):
    s = State()
    for sl in slots:
        v = get_slot(it, env, sl)
        if v is _MISSING or isinstance(v, Poison): continue
        s.d[sl] = (kind_of(it, v), content(it, v))
    s.i = i
    return s


def peel(it, n, env, rope):
    """The first iteration on its own; True when the loop is over."""
    if rope is not None: more = it.ctx.branch(Lt(0, it.ctx.rlen(rope)))
    else: more = it.truth(it.ev(n.test, env))
    if not more:
        it.block(n.orelse, env)
        return True
    if rope is not None: it.assign(n.target, it.ctx.rat(rope, 0), env)
    try: it.block(n.body, env)
    except BreakEx: return True
    except ContinueEx: pass
    return False


def cut(it, n, env, info, rope, part=False):
    ctx = it.ctx
    if it.unit.opts.get('peel') and not part:
        if peel(it, n, env, rope): return
        if rope is not None: rope = ctx.split(rope, 1)[1]
    ctx.exact = False
    unit = it.unit
    names = body_names(n)
    slots = [('v', x) for x in sorted(names)] + list(info.heap)
    entry = snapshot(it, env, slots, 0)
    total = ctx.rlen(rope) if rope is not None else None
    # containers the iteration runs over must not change
    limit = ctx.oid
    # --- havoc
    for sl in slots:
        v = get_slot(it, env, sl)
        if v is _MISSING: continue
        havoc(it, env, sl, v, info)
    i = None
    if rope is not None:
        i = ctx.fresh_int('it')
        ctx.add(z3.And(i >= 0, i <= zi(total)))
    head = snapshot(it, env, slots, i)
    head.env = env
    cands = list(candidates(it, n, entry, head, rope, info))
    live = [c for c in cands if c.key not in info.killed]
    # definitions first: they fix the value of a slot
    for c in live:
        if c.define is not None: set_slot(it, env, c.slot, c.define(head), head)
    head = snapshot(it, env, slots, i)
    head.head = True
    # --- initiation
    for c in live:
        unit.stats.obligations += 1
        ok = holds(it, c, entry)
        if ok: unit.stats.discharged += 1
        else:
            unit.stats.obligations -= 1
            info.killed.add(c.key)
            unit.dirty = True
    live = [c for c in live if c.key not in info.killed]
    for c in live:
        if c.define is None:
            f = c.formula(head)
            if f is not True: ctx.add(f if not isinstance(f, bool) else z3.BoolVal(f))
    unit.loops_cut[info.key] = [c.key for c in live]
    # --- one arbitrary iteration, or exit
    if rope is not None:
        more = ctx.branch(i < zi(total))
    else:
        more = None
    log = []
    it.mutlog.append((limit, log))
    try:
        if rope is None:
            more = it.truth(it.ev(n.test, env))
            gap = measure(it, n, env) if more else None
        if more:
            if rope is not None: it.assign(n.target, ctx.rat(rope, i), env)
            try: it.block(n.body, env)
            except ContinueEx: pass
            except BreakEx:
                broke = True
            else:
                broke = False
            if 'broke' not in locals(): broke = False
        else:
            broke = None
    except (ReturnEx, PyExc):
        learn(it, env, info, log, limit)
        raise
    finally:
        it.mutlog.pop()
    learn(it, env, info, log, limit)
    for (_, outer) in it.mutlog: outer.extend((o, f) for o, f in log)
    if broke is True:
        if part: raise BreakEx()
        return
    if broke is None:
        if rope is not None:
            ctx.add(i == zi(total))
        for t in target_names(n):
            if rope is not None and t in env.vars:
                env.vars[t] = Poison('loop target %s' % t) if t not in env.vars else env.vars[t]
        it.block(n.orelse, env)
        return
    # --- back edge
    nxt = snapshot(it, env, slots, None if i is None else tn(i + 1))
    for sl in slots:
        a, b = head.d.get(sl), nxt.d.get(sl)
        if a is not None and b is not None and a[0] != b[0] and sl not in info.poison:
            if {a[0], b[0]} == {'bool', 'int'}: info.kinds[sl] = 'int'
            elif {a[0], b[0]} == {'bytes', 'hbytes'}: info.poison.add(sl)
            else: info.poison.add(sl)
            unit.dirty = True
    for c in live:
        unit.stats.obligations += 1
        try: good = holds(it, c, nxt)
        except PathEnd:
            unit.stats.discharged += 1      # no such case: what follows from nothing
            raise
        if good: unit.stats.discharged += 1
        else:
            unit.stats.obligations -= 1
            info.killed.add(c.key)
            unit.dirty = True
    if rope is None:
        closer = False
        if gap is not None:
            g2 = measure(it, n, env)
            closer = g2 is not None and ctx.quick(And(Lt(0, gap), Lt(g2, gap)))
        variants(it, info, head, nxt, closer)
    raise PathEnd('back edge')


def target_names(n):
    if isinstance(n, ast.For): return [g.id for g in ast.walk(n.target) if isinstance(g, ast.Name)]
    return []


def holds(it, c, state):
    was = it.proving, it.strict
    it.proving = it.strict = True
    try:
        f = c.check(state) if c.define is not None else c.formula(state)
        if f is True: return True
        if f is not False: f = it.ctx.prove(f, it.unit.inv_ms)
        if f is False and not it.ctx.feasible(z3.BoolVal(True)): raise PathEnd('no such case')
        return f
    except Unsupported:
        return False
    finally:
        it.proving, it.strict = was


def learn(it, env, info, log, limit):
    """Containers mutated by the body must be part of the loop state."""
    known = set()
    for sl in info.heap:
        try:
            o = it.lookup(sl[1], env)
        except PyExc:
            continue
        if sl[0] == 'h': known.add((id(o), None))
        elif sl[0] == 'f': known.add((id(o), sl[2]))
        else: known.add((id(o.fields[sl[2]]), None))
    new = False
    for o, field in log:
        if o.oid is not None and o.oid > limit: continue
        if (id(o), field) in known: continue
        slot = find_slot(it, env, o, field)
        if slot is None: raise Unsupported('loop changes an object that is not visible at the loop')
        if slot not in info.heap:
            info.heap.append(slot)
            new = True
    if new: raise Restart('loop state')


def find_slot(it, env, o, field):
    e = env
    while e is not None and not isinstance(e, CellNS):
        for nme, v in e.vars.items():
            if v is o: return ('h', nme) if field is None else ('f', nme, field)
        e = e.parent
    e = env
    while e is not None and not isinstance(e, CellNS):
        for nme, v in e.vars.items():
            if isinstance(v, SObj):
                for fn, fv in v.fields.items():
                    if fv is o and field is None: return ('fh', nme, fn)
        e = e.parent
    return None


def havoc(it, env, sl, v, info):
    ctx = it.ctx
    if sl in info.poison:
        nv = Poison('loop variable %s' % (sl,))
        if sl[0] in ('h', 'fh'): raise Unsupported('loop state of changing type')
    else:
        k = info.kinds.get(sl) or kind_of(it, v)
        if k == 'bool': nv = SBool(ctx.fresh_bool('lb'))
        elif k == 'int': nv = SInt(ctx.fresh_int('lv'))
        elif k == 'bytes': nv = SBytes(ctx.new_seq('byte', 'ls'))
        elif k == 'str': nv = SStr(ctx.new_seq('char', 'ls'))
        elif k == 'hbytes':
            r = ctx.new_seq('byte', 'la')
            if sl[0] in ('h', 'fh'):
                v.rope = r
                return
            nv = HBytes(r, v.cls, ctx.new_oid())
        elif k in ('hlist', 'iter'):
            et = it.unit.elem_type(it, v)
            if et is None and k == 'hlist': et = elem_kind(it, sl, info)
            if et is None:
                r = Rope([Sl(ctx.fresh_term('ll'), 0, nonneg(ctx), OPAQUE)])
            else: r = ctx.new_seq(et, 'll')
            if sl[0] in ('h', 'fh') or k == 'iter':
                v.rope = r
                return
            nv = HList(r, ctx.new_oid())
        else:
            nv = Poison('loop variable %s' % (sl,))
    if sl[0] == 'v': env.vars[sl[1]] = nv
    elif sl[0] == 'f': it.lookup(sl[1], env).fields[sl[2]] = nv
    else: raise Unsupported('loop state')


def elem_kind(it, sl, info):
    """First kind of elements that has not been refuted for this list."""
    for name in it.unit.opts.get('elems', ()):
        if ('elems', sl, name) not in info.killed: return it.unit.kinds[name]
    return None


def nonneg(ctx):
    n = ctx.fresh_int('n')
    ctx.add(n >= 0)
    return n


class _Opaque(ElemType):
    def __init__(self): ElemType.__init__(self, 'opaque', self.mk)
    def mk(self, ctx, term, idx): raise Unsupported('element of a list not tracked through a loop')


OPAQUE = _Opaque()


def set_slot(it, env, sl, val, head):
    if sl[0] == 'v':
        old = env.vars[sl[1]]
        if isinstance(val, Whole): env.vars[sl[1]] = val.v
        elif isinstance(old, (HBytes, HList)): old.rope = val
        elif isinstance(old, SBytes): env.vars[sl[1]] = it.mkbytes(val)
        elif isinstance(old, SStr): env.vars[sl[1]] = it.mkstr(val)
        else: env.vars[sl[1]] = mk(zi(val)) if not isinstance(val, Sym) else val
    elif sl[0] == 'f':
        it.lookup(sl[1], env).fields[sl[2]] = mk(zi(val)) if not isinstance(val, Sym) else val
    else:
        get_slot(it, env, sl).rope = val


class Whole(object):
    """An object as the value of a slot."""
    def __init__(self, v): self.v = v


class Cand(object):
    def __init__(self, key, formula=None, slot=None, define=None, check=None):
        self.key, self.formula, self.slot, self.define, self.check = key, formula, slot, define, check


def measure(it, n, env):
    """Distance of a loop test a < b (or a > b) from failing."""
    t = n.test
    if not isinstance(t, ast.Compare) or len(t.ops) != 1: return None
    try: a, b = it.ev(t.left, env), it.ev(t.comparators[0], env)
    except PyExc: return None
    if not is_int(a) or not is_int(b): return None
    if isinstance(t.ops[0], (ast.Gt, ast.GtE)): a, b = b, a
    elif not isinstance(t.ops[0], (ast.Lt, ast.LtE)): return None
    return tn(zi(T(b)) - zi(T(a)) + (1 if isinstance(t.ops[0], (ast.LtE, ast.GtE)) else 0))


def variants(it, info, head, nxt, closer=False):
    """Termination measures that decrease on this path."""
    ctx = it.ctx
    good = {'gap'} if closer else set()
    for sl, (k, v) in head.d.items():
        if sl not in nxt.d: continue
        w = nxt.d[sl][1]
        if k == 'int' and nxt.d[sl][0] in ('int', 'bool'):
            for name, f in (('down', lambda: And(Le(0, T(w)), Lt(T(w), T(v)))),):
                if ctx.quick(f()): good.add((sl, name))
        elif k in ('hbytes', 'bytes', 'hlist', 'iter') and nxt.d[sl][0] == k:
            a, b = ctx.rlen(v if isinstance(v, Rope) else it.rope_of(v)), ctx.rlen(w if isinstance(w, Rope) else it.rope_of(w))
            f = Lt(b, a)
            if f is True or (f is not False and ctx.quick(f)): good.add((sl, 'shorter'))
    f = it.unit.extra_variant(it, head, nxt)
    if f: good.add(('extra', f))
    info.variants = good if info.variants is None else (info.variants & good)


def ropeof(it, kv):
    k, v = kv
    if isinstance(v, Rope): return v
    if k in ('bytes', 'str'): return it.rope_of(v)
    return None


def candidates(it, n, entry, head, rope, info):
    ctx = it.ctx
    ints = [sl for sl in head.d if head.d[sl][0] == 'int']
    bools = [sl for sl in head.d if head.d[sl][0] == 'bool']
    seqs = [sl for sl in head.d if head.d[sl][0] in ('hbytes', 'bytes')]
    E = lambda sl: T(entry.d[sl][1])
    V = lambda s, sl: T(s.d[sl][1])
    byteseq = rope is not None and is_byterope(rope)
    for x in ints:
        e = E(x)
        yield Cand(('ge0', x), lambda s, x=x: Le(0, V(s, x)))
        yield Cand(('geE', x), lambda s, x=x, e=e: Le(e, V(s, x)))
        yield Cand(('leE', x), lambda s, x=x, e=e: Le(V(s, x), e))
        if rope is not None:
            yield Cand(('idx', x), lambda s, x=x, e=e: Eq(V(s, x), tn(zi(e) + zi(s.i))))
        if byteseq:
            for a in (256, 58):
                if a == 58 and ('valid', 58) in info.killed: continue
                yield Cand(('val', a, x), lambda s, x=x, a=a: Eq(V(s, x), ctx.val(a, ctx.split_nb(rope, s.i), True)))
                yield Cand(('vle', a, x), lambda s, x=x, a=a: Eq(V(s, x), ctx.val(a, ctx.split_nb(rope, s.i), False)))
                yield Cand(('lz', a, x), lambda s, x=x, a=a: Eq(V(s, x), ctx.rlz_nb(a, ctx.split_nb(rope, s.i))))
            yield Cand(('pw', 256, x), lambda s, x=x: Eq(V(s, x), ctx.P(256, s.i)))
    if byteseq:
        yield Cand(('valid', 58), lambda s: ctx.allvalid(58, ctx.split_nb(rope, s.i)))
    for d in seqs:
        d0 = ropeof(it, entry.d[d])
        if d0 is None: continue
        n0 = ctx.rlen(d0)
        R_ = lambda s, d=d: ropeof(it, s.d[d])
        yield Cand(('len>=', d), lambda s, d=d: Le(n0, ctx.rlen(R_(s, d))))
        if rope is not None:
            yield Cand(('len=i', d), lambda s, d=d: Eq(ctx.rlen(R_(s, d)), tn(zi(n0) + zi(s.i))))
        if isinstance(n0, int) and n0 == 0:
            for x in ints:
                e = E(x)
                for a in (256, 58):
                    if a == 58: yield Cand(('valid58', d), lambda s, d=d: ctx.allvalid(58, R_(s, d)))
                    if a == 58 and ('valid58', d) in info.killed: continue
                    yield Cand(('split', a, x, d), lambda s, x=x, d=d, a=a, e=e: Eq(
                        zi(ctx.val(a, R_(s, d), False)) + zi(ctx.P(a, ctx.rlen(R_(s, d)))) * zi(V(s, x)), e))
                    yield Cand(('nd', a, x, d), lambda s, x=x, d=d, a=a, e=e: Implies(Le(0, e), Eq(
                        zi(ctx.rlen(R_(s, d))) + zi(ctx.ndig(a, V(s, x))), ctx.ndig(a, e))))
    for c in concats(it, entry, head, rope, info): yield c
    for c in it.unit.extra_candidates(it, n, entry, head, rope, info): yield c


def concats(it, entry, head, rope, info):
    """Lists of objects and the text they are written to or read from."""
    ctx = it.ctx
    lists = [sl for sl in head.d if head.d[sl][0] == 'hlist' and isinstance(head.d[sl][1], Rope)]
    seqs = [sl for sl in head.d if head.d[sl][0] in ('hbytes', 'bytes', 'str', 'iter') and ropeof(it, entry.d[sl]) is not None]
    L = lambda s, x: ctx.rlen(s.d[x][1])
    if rope is not None:
        r = ctx.norm(rope)
        if len(r.p) == 1 and isinstance(r.p[0], Sl) and not r.p[0].rev and hasattr(r.p[0].kind, 'flats'):
            q = r.p[0]
            for f in q.kind.flats:
                for d in seqs:
                    if (head.d[d][0] == 'str') != FLATS[f][2]: continue
                    d0 = ropeof(it, entry.d[d])
                    val = lambda s, d0=d0, f=f, q=q: ctx.cat(d0, Rope([Flat(f, q.term, q.lo, s.i, q.kind)]))
                    yield Cand(('written', f, d), None, d, val, lambda s, d=d, val=val: rope_eq(it, ropeof(it, s.d[d]), val(s)))
    for d in seqs:
        d0 = ctx.norm(ropeof(it, entry.d[d]))
        if d0.p:
            for c in reads(it, entry, head, rope, info, lists, d, d0): yield c
    for x in lists:
        k = elem_kind(it, x, info)
        if k is not None: yield Cand(('elems', x, k.name), lambda s, x=x, k=k: members(it, s.d[x][1], k))


def reads(it, entry, head, rope, info, lists, d, d0):
    """A text that is read from the front, and the lists its parts are put in."""
    ctx = it.ctx
    L = lambda s, x: ctx.rlen(s.d[x][1])
    p = d0.p[0]
    if isinstance(p, Flat):
        tail = Rope(d0.p[1:])
        for x in lists:
            x0 = entry.d[x][1]
            n0 = ctx.rlen(x0)
            done = lambda s, x=x, n0=n0: tn(zi(L(s, x)) - zi(n0))
            val = lambda s, x=x, x0=x0, done=done: ctx.cat(x0, Rope([Sl(p.term, p.lo, done(s), p.kind)]))
            yield Cand(('bound', x, d), lambda s, done=done: And(Le(0, done(s)), Le(done(s), p.n)))
            if rope is not None: yield Cand(('count', x), lambda s, done=done: Eq(done(s), s.i))
            yield Cand(('prefix', x, d), None, x, val, lambda s, x=x, val=val: rope_eq(it, s.d[x][1], val(s)))
            rest = lambda s, done=done: ctx.cat(Rope([Flat(p.f, p.term, tn(zi(p.lo) + zi(done(s))), tn(zi(p.n) - zi(done(s))), p.kind)]), tail)
            yield Cand(('rest', d, x), None, d, rest, lambda s, d=d, rest=rest: rope_eq(it, ropeof(it, s.d[d]), rest(s)))
    elif len(d0.p) == 1 and isinstance(p, Sl) and not p.rev and p.kind in ('byte', 'char'):
        left = lambda s, d=d: ctx.rlen(ropeof(it, s.d[d]))
        yield Cand(('left', d), lambda s, left=left: And(Le(0, left(s)), Le(left(s), p.n)))
        used = lambda s, left=left: tn(zi(p.n) - zi(left(s)))
        val = lambda s, left=left, used=used: Rope([Sl(p.term, tn(zi(p.lo) + zi(used(s))), left(s), p.kind)])
        yield Cand(('suffix', d), None, d, val, lambda s, d=d, val=val: rope_eq(it, ropeof(it, s.d[d]), val(s)))
        if ('suffix', d) in info.killed: return
        for x in lists:
            k = elem_kind(it, x, info)
            if k is None or ctx.rlen(entry.d[x][1]) != 0: continue
            for f in k.flats:
                if (p.kind == 'char') != FLATS[f][2]: continue
                yield Cand(('consumed', f, x, d), lambda s, x=x, f=f, k=k, used=used: consumed(
                    it, s.d[x][1], f, k, Rope([Sl(p.term, p.lo, used(s), p.kind)]), s.head))


def flat_of(ctx, rope, f, kind, it):
    """The concatenation of f over a list of objects."""
    out = ()
    for p in ctx.norm(rope).p:
        if isinstance(p, Elems):
            for v in p.v: out += tuple(FLATS[f][0](it, v).p)
        elif isinstance(p, Sl) and not p.rev and p.kind is kind: out += (Flat(f, p.term, p.lo, p.n, p.kind),)
        else: raise Unsupported('concatenation over %r' % (p,))
    return ctx.norm(Rope(out))


def consumed(it, rope, f, kind, text, head):
    ctx = it.ctx
    r = flat_of(ctx, rope, f, kind, it)
    if head:
        for p in r.p: ctx.flatalias.append((p, text))
        return Eq(ctx.rlen(r), ctx.rlen(text))
    return rope_eq(it, r, text)


def members(it, rope, kind):
    out = []
    for p in it.ctx.norm(rope).p:
        if isinstance(p, Sl) and (p.kind is kind or getattr(p.kind, 'within', None) == kind.name): continue
        if not isinstance(p, Elems): return False
        for v in p.v: out.append(kind.member(it, v))
    return And(*out)


def is_byterope(rope):
    for p in rope.p:
        if isinstance(p, Sl) and p.kind == 'byte': continue
        if isinstance(p, (Enc, Hex)): continue
        if isinstance(p, Rep) and is_int(p.v): continue
        if isinstance(p, Elems) and all(is_int(e) for e in p.v): continue
        return False
    return True


# ----------------------------------------------------------------------------------------------
# comprehensions over sequences of symbolic length

def sym_len(it, src):
    """Rope of src if it has a symbolic length, else None."""
    ctx = it.ctx
    if isinstance(src, SIter):
        if src.lazy is not None: return None
        r = src.rope
    elif isinstance(src, (HList, STuple, SBytes, HBytes, SRange)): r = it.iter_rope(src)
    else: return None
    n = ctx.rlen(r)
    if isinstance(n, int): return None
    if ctx.known_len(n) is not None: return None
    return r


def sym_comp(it, n, env, first):
    g = n.generators[0]
    src = first if first is not _MISSING else it.ev(g.iter, env)
    r = sym_len(it, src)
    if r is None: return None if first is not _MISSING else _rerun(it, n, env, src)
    if len(n.generators) != 1: raise Unsupported('comprehension over a sequence of unknown length')
    key = loopkey(it, n)
    if g.ifs or key in it.unit.impure: return comp_loop(it, n, env, src)
    if isinstance(g.target, ast.Name) and isinstance(n.elt, ast.Name) and n.elt.id == g.target.id: return r

    def f(v):
        e2 = Env(env.globs, env, env.fname, env.cls)
        e2.selfv = env.selfv
        it.assign(g.target, v, e2)
        return it.ev(n.elt, e2)
    return map_rope(it, f, r, key)


def comp_loop(it, n, env, src):
    """A comprehension that filters, or whose expression has effects, is run as the loop it stands for."""
    g = n.generators[0]
    node = it.unit.desugared.get(id(n))
    if node is None:
        L = lambda x: ast.copy_location(x, n)
        name = lambda x: L(ast.Name(id=x, ctx=ast.Load()))
        body = L(ast.Expr(value=L(ast.Call(func=L(ast.Attribute(value=name('$made'), attr='append', ctx=ast.Load())), args=[n.elt], keywords=[]))))
        for c in reversed(g.ifs): body = L(ast.If(test=c, body=[body], orelse=[]))
        node = L(ast.For(target=g.target, iter=name('$over'), body=[body], orelse=[]))
        it.unit.desugared[id(n)] = node
    e2 = Env(env.globs, env, env.fname, env.cls)
    e2.selfv = env.selfv
    e2.vars['$made'] = it.new_list(EMPTY)
    e2.vars['$over'] = src
    for_(it, node, e2)
    return e2.vars['$made'].rope


_JOINS = {}


def join_loop(it, o, arg):
    """Joining a sequence of unknown length with nothing in between, as the loop it stands for; None when it is not that."""
    ctx = it.ctx
    if isinstance(arg, Lazy):
        if arg.gen is not None: return None
        n, env, src = arg.run
        if len(n.generators) != 1 or sym_len(it, src) is None: return None
        g = n.generators[0]
        target, elt, ifs, at, where = g.target, n.elt, g.ifs, n, env
    else:
        if sym_len(it, arg) is None: return None
        src, at, ifs, where = arg, None, [], None
    c, sep = it.conc(o)
    if not c or (len(sep) and not isinstance(sep, str)): raise Unsupported('elements of a sequence of unknown length')
    node = _JOINS.get((at, sep))
    if node is None:
        if at is None: target, elt, at0 = ast.Name(id='$x', ctx=ast.Store()), ast.Name(id='$x', ctx=ast.Load()), ast.parse('0').body[0]
        else: at0 = at
        L = lambda x: ast.copy_location(x, at0)
        body = L(ast.AugAssign(target=L(ast.Name(id='$joined', ctx=ast.Store())), op=ast.Add(), value=L(ast.BinOp(left=L(ast.Constant(value=sep)), op=ast.Add(), right=L(elt) if at is None else elt)) if sep else L(elt) if at is None else elt))
        for t in reversed(ifs): body = L(ast.If(test=t, body=[body], orelse=[]))
        node = _JOINS[at, sep] = L(ast.For(target=L(target) if at is None else target, iter=L(ast.Name(id='$over', ctx=ast.Load())), body=[body], orelse=[]))
    e2 = Env(where.globs, where, where.fname, where.cls) if where is not None else Env({}, None, 'join', None)
    if where is not None: e2.selfv = where.selfv
    e2.vars['$joined'] = sep[:0]
    e2.vars['$over'] = src
    for_(it, node, e2)
    out = e2.vars['$joined']
    if not sep: return out
    r = ctx.norm(it.srope(out))
    if len(r.p) == 1 and isinstance(r.p[0], Flat):
        from . import texts
        return texts.without_first(it, r.p[0], sep)
    if ctx.decide(Le(ctx.rlen(r), 0)): return ''
    return it.mkstr(ctx.split(r, len(sep))[1])


def pure(it, f, key):
    """f with a check that it changes no object that existed before the call."""
    def run(v):
        limit, log = it.ctx.oid, []
        it.mutlog.append((limit, log))
        try: return f(v)
        finally:
            it.mutlog.pop()
            if any(o.oid is None or o.oid <= limit for o, field in log):
                if key is None: raise Unsupported('effects in a function mapped over a sequence of unknown length')
                it.unit.impure.add(key)
                raise Restart('effects in a comprehension')
    return run


def _rerun(it, n, env, src):
    return it.comp_rope(n, env, src)


def sym_map(it, f, rope, key):
    ctx = it.ctx
    n = ctx.rlen(rope)
    if isinstance(n, int) or ctx.known_len(n) is not None:
        vs = [f(v) for v in ctx.elems(rope)]
        return Rope([Elems(vs)]) if vs else EMPTY
    return map_rope(it, f, rope)


def base_of(ctx, p):
    """(underlying opaque sequence, index of the first element there) of a piece, or None."""
    if isinstance(p, Sl) and not p.rev: return p.term, p.lo
    if isinstance(p, Lam) and p.key in ctx.lambase:
        t, lo = ctx.lambase[p.key]
        return t, tn(zi(lo) + zi(p.lo))
    return None


def map_rope(it, f, rope, nodekey=None):
    """The mapped sequence: element by element on demand.  A path of its own looks for an element on which f raises."""
    ctx = it.ctx
    out = []
    for p in rope.p:
        n = ctx.plen(p)
        if isinstance(p, Elems) or isinstance(n, int):
            vs = [f(ctx.pat(p, k)) for k in range(n)]
            if vs: out.append(Elems(vs))
            continue
        f = pure(it, f, nodekey)
        if ctx.choose(2, 'map') == 1:
            k = ctx.fresh_int('k')
            ctx.add(z3.And(k >= 0, k < zi(n)))
            witness(it, p, k)
            f(ctx.pat(p, k))
            raise PathEnd('no element raises')
        ctx.lamcount += 1
        key = 'map%d' % ctx.lamcount
        b = base_of(ctx, p)
        if b is not None: ctx.lambase[key] = b
        out.append(Lam(lambda i, p=p: f(ctx.pat(p, i)), 0, n, key))
    return Rope(out)


def witness(it, p, k):
    """A new element index of a piece: what is known of all elements holds for it."""
    ctx = it.ctx
    b = base_of(ctx, p)
    if b is None: return
    t, lo = b
    k = tn(zi(lo) + zi(k))
    ctx.witnesses.append((t, k))
    for fa in list(ctx.foralls): instantiate(it, fa, t, k)


def instantiate(it, fa, t, k):
    ctx = it.ctx
    term, lo, n, off, fn, val = fa
    if not term.eq(t): return
    if not ctx.branch(z3.And(zi(k) >= zi(lo), zi(k) < zi(lo) + zi(n))): return
    try: v = it.truth(fn(tn(zi(k) - zi(lo))))
    except PyExc: raise PathEnd('quantified')
    if v != val: raise PathEnd('quantified')


def sym_quant(it, src, isall):
    ctx = it.ctx
    pred = lambda v: v
    if isinstance(src, Lazy):
        node, env, first = src.run
        if len(node.generators) != 1: return None
        g = node.generators[0]

        def pred(v):
            e2 = Env(env.globs, env, env.fname, env.cls)
            e2.selfv = env.selfv
            it.assign(g.target, v, e2)
            for c in g.ifs:
                if not it.truth(it.ev(c, e2)): return isall
            return it.ev(node.elt, e2)
        src = first
    rope = sym_len(it, src)
    if rope is None: return None
    for p in rope.p:
        n = ctx.plen(p)
        if isinstance(p, Elems) or isinstance(n, int):
            for k in range(n):
                if it.truth(pred(ctx.pat(p, k))) != isall: return not isall
            continue
        fn = lambda i, p=p: pure(it, pred, None)(ctx.pat(p, i))
        if ctx.choose(2, 'quant') == 0:
            k = ctx.fresh_int('k')
            ctx.add(z3.And(k >= 0, k < zi(n)))
            witness(it, p, k)
            if it.truth(fn(k)) == isall: raise PathEnd('witness')
            return not isall
        b = base_of(ctx, p)
        if b is not None:
            fa = (b[0], b[1], n, 0, fn, isall)
            ctx.foralls.append(fa)
            for (t, k) in list(ctx.witnesses): instantiate(it, fa, t, k)
        else: ctx.exact = False
    return isall
