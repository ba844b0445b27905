"""The textual form of scripts: sequences of instructions with named opcodes, their words, and texts made of words."""
import ast
import z3

from .core import *
from . import models, loops, unit, interp
from .models import model
from .eqs import rope_eq
from specs import prims, table


class NamedKind(unit.InstrKind):
    """Instructions whose opcode has a name, or pushes data."""
    name = 'named'
    flats = ('txt', 'tok')
    within = 'instr'
    PLAIN = sorted(n for n in table.NUMBERS if not 1 <= n <= 78)

    def member(self, it, v):
        f = unit.InstrKind.member(self, it, v)
        if f is False: return False
        n = zi(T(it.getattr_(it.getattr_(v, 'opcode'), 'number')))
        return And(f, Or(*[n == k for k in self.PLAIN + [76, 77, 78]] + [z3.And(n >= 1, n <= 75)]))

    def make(self, ctx, term, idx):
        """The number of an opcode without data is decided at once: its name is then a constant."""
        n = f_at(term, zi(idx))
        vals = self.PLAIN
        ctx.fact_once(('named', n.get_id()), lambda: z3.Or(z3.And(n >= 1, n <= 78), *[n == k for k in vals]))
        v = unit.InstrKind.make(self, ctx, term, idx)
        if v.fields['data'] is None:
            lo, hi = 0, len(vals)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if ctx.branch(n < vals[mid]): hi = mid
                else: lo = mid
            from bitforge.script.opcode import Opcode
            v.fields['opcode'] = ctx.it.call(Opcode, [vals[lo]], {})
        return v


unit.KINDS['named'] = NamedKind()


def words(it, v):
    """The words of one instruction, as ropes."""
    ctx = it.ctx
    n, data = it.getattr_(it.getattr_(v, 'opcode'), 'number'), it.getattr_(v, 'data')
    if data is None:
        if not isinstance(T(n), int): raise Unsupported('name of an opcode')
        return [ctx_text(table.NUMBERS[T(n)])]
    d = it.brope(data)
    h = Rope([Elems([48, 120]), Hex(d)])
    for k in (76, 77, 78):
        if ctx.decide(Eq(T(n), k)): return [ctx_text(table.NUMBERS[k]), Rope([Dec(ctx.rlen(d))]), h]
    return [Rope([Dec(T(n))]), h]


def ctx_text(s): return Rope([Elems([ord(c) for c in s])])


def spaced(it, v):
    out = EMPTY
    for w in words(it, v): out = it.ctx.cat(it.ctx.cat(out, Rope([Elems([32])])), w)
    return out


FLATS['txt'] = (spaced, 5, True)
FLATS['tok'] = (lambda it, v: Rope([Elems([it.mkstr(w) for w in words(it, v)])]), 1, 'list')


def without_first(it, f, sep):
    """A text that starts with a separator, without it.  What it was made of is remembered for split()."""
    ctx = it.ctx
    if not ctx.decide(Lt(0, f.n)): return ''
    t = ctx.pterm(f)
    s = SStr(Rope([Sl(t, len(sep), tn(f_len(t) - len(sep)), 'char')]))
    ctx.joined.append((s.rope, sep, f))
    return s


@model(prims.script_text)
def _script_text(it, args, kw):
    ctx = it.ctx
    r = ctx.norm(it.lrope(args[0]))
    if len(r.p) == 1 and isinstance(r.p[0], Sl) and r.p[0].kind is unit.KINDS['named']:
        p = r.p[0]
        return without_first(it, Flat('txt', p.term, p.lo, p.n, p.kind), ' ')
    raise Unsupported('script_text')


def split(it, o, sep):
    """str.split of a text whose words are known."""
    ctx = it.ctx
    for (r, s, f) in ctx.joined:
        if r is o.rope and s == sep == ' ' and f.f == 'txt':
            return HList(Rope([Flat('tok', f.term, f.lo, f.n, f.kind)]), ctx.new_oid())
    return NotImplemented


# ---- loops that take further elements from the iterator they run over

def _left(i): raise NotImplementedError
def _take(i): raise NotImplementedError


@model(_left)
def m_left(it, args, kw): return mk(zi(it.ctx.rlen(args[0].rope)))


@model(_take)
def m_take(it, args, kw): return models.next_(it, args[0])


def shares(it, n, env, src):
    """The loop body uses the iterator itself."""
    for s in n.body:
        for g in ast.walk(s):
            if isinstance(g, ast.Name):
                try: v = it.lookup(g.id, env)
                except Exception: continue
                if v is src: return True
    return False


_WHILES = {}


def as_while(it, n, env, src):
    node = _WHILES.get(id(n))
    if node is None:
        L = lambda x: ast.copy_location(x, n)
        name = lambda x: L(ast.Name(id=x, ctx=ast.Load()))
        over = '$over%d' % n.lineno
        call = lambda f: L(ast.Call(func=name(f), args=[name(over)], keywords=[]))
        test = L(ast.Compare(left=call('$left'), ops=[ast.Gt()], comparators=[L(ast.Constant(value=0))]))
        body = [L(ast.Assign(targets=[n.target], value=call('$take')))] + n.body
        node = L(ast.While(test=test, body=body, orelse=n.orelse))
        _WHILES[id(n)] = node, n, over
        node = _WHILES[id(n)]
    node, _, over = node
    env.vars['$left'], env.vars['$take'], env.vars[over] = _left, _take, src
    return loops.while_(it, node, env)


# ---- arbitrary texts

f_words = z3.Function('words', S, S)
f_word = z3.Function('word', S, I, S)
f_isdigit = z3.Function('isdigit', S, B)
f_isint = z3.Function('isint', S, B)
f_int = z3.Function('intof', S, I)


class WordKind(object):
    """The words of a text.  Whether a word is the name of an opcode, and which, is decided where the specification asks (prims.spelled)."""
    name = 'word'
    flats = ()
    NAMES = sorted(table.NAMES)

    def make(self, ctx, term, idx):
        w = z3.simplify(f_word(term, zi(idx)))
        ctx.keep(w)
        if w.get_id() in ctx.spelled: return ctx.spelled[w.get_id()]
        return SStr(ctx.term_rope(w, 'char'))

    def spell(self, ctx, w):
        """Decides whether the word is a name, and which."""
        if w.get_id() in ctx.spelled: return ctx.spelled[w.get_id()]
        ctx.keep(w)
        if ctx.branch(z3.Function('named', S, B)(w)):
            k = z3.Function('which', S, I)(w)
            ctx.fact_once(('which', k.get_id()), lambda: z3.And(k >= 0, k < len(self.NAMES)))
            ctx.keep(k)
            lo, hi = 0, len(self.NAMES)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if ctx.branch(k < mid): hi = mid
                else: lo = mid
            ctx.spelled[w.get_id()] = self.NAMES[lo]
            return self.NAMES[lo]
        ctx.nonames.add(w.get_id())
        return SStr(ctx.term_rope(w, 'char'))


@model(prims.spelled)
def _spelled(it, args, kw):
    if it.conc(args[0])[0]: return args[0]
    t = whole_term(it, args[0])
    if t is None: raise Unsupported('spelled')
    return unit.KINDS['word'].spell(it.ctx, t)


unit.KINDS['word'] = WordKind()


def whole_term(it, v):
    """The term of a text that is one opaque sequence."""
    if not isinstance(v, SStr): return None
    r = it.ctx.norm(v.rope)
    if len(r.p) == 1 and isinstance(r.p[0], Sl) and not r.p[0].rev and r.p[0].kind == 'char':
        p = r.p[0]
        if teq(p.lo, 0) and teq(p.n, f_len(p.term)): return p.term
        return it.ctx.toterm(r)
    return None


def differ(it, a, b):
    """Texts known to be different: a word that is not a name, and a name."""
    if not it.ctx.nonames: return False
    for x, y in ((a, b), (b, a)):
        c, s = it.conc(x)
        if c and s in table.NAMES:
            t = whole_term(it, y)
            if t is not None and t.get_id() in it.ctx.nonames: return True
    return False


def split_any(it, o, sep):
    t = whole_term(it, o)
    if t is None or sep != ' ': return NotImplemented
    ctx = it.ctx
    w = f_words(t)
    ctx.keep(w)
    ctx.exact = False
    ctx.fact_once(('words', w.get_id()), lambda: f_len(w) >= 1)
    return HList(Rope([Sl(w, 0, f_len(w), unit.KINDS['word'])]), ctx.new_oid())


def isdigit(it, o):
    t = whole_term(it, o)
    if t is None: return NotImplemented
    it.ctx.exact = False
    return SBool(f_isdigit(t))


def int_of(it, o):
    """int() of an opaque text: a number or a ValueError, the same for the same text."""
    t = whole_term(it, o)
    if t is None: return NotImplemented
    it.ctx.exact = False
    if not it.ctx.branch(f_isint(t)): it.raise_(ValueError)
    v = f_int(t)
    it.ctx.keep(v)
    it.ctx.fact_once(('intof', v.get_id()), lambda: z3.Implies(f_isdigit(t), v >= 0))
    return SInt(v)


# What a text means is a recursive definition over its words: (T, k, L) says that the first k words are the first L instructions.

f_gram = z3.Function('meaning', S, S)
f_gram_ok = z3.Function('meaningful', S, B)
f_reached = z3.Function('reached', S, I, I, B)


@model(prims.script_meaning)
def _script_meaning(it, args, kw):
    t = whole_term(it, args[0])
    if t is None: raise Unsupported('script_meaning')
    w = f_words(t)
    ctx = it.ctx
    for x in (w, f_gram(w)): ctx.keep(x)
    ctx.add(f_reached(w, 0, 0))
    return (SBool(f_gram_ok(w)), HList(ctx.term_rope(f_gram(w), unit.KINDS['instr']), ctx.new_oid()))


def unfold(it, w, k, L):
    """The definition at a place that is reached."""
    from specs import c12
    ctx = it.ctx
    g, ok, n = f_gram(w), f_gram_ok(w), f_len(w)
    ctx.add(z3.And(zi(L) >= 0, zi(L) <= f_len(g)))
    if ctx.branch(zi(k) >= n):
        ctx.add(z3.And(f_len(g) == zi(L), ok))
        return
    r = it.call(c12.step, [HList(Rope([Sl(w, k, tn(n - zi(k)), unit.KINDS['word'])]), ctx.new_oid())], {})
    if r is None:
        ctx.add(z3.And(f_len(g) == zi(L), z3.Not(ok)))
        return
    num, data, used = it.iter_concrete(r)
    num = zi(T(num))
    e = f_at(g, zi(L))
    ctx.keep(e)
    ctx.add(z3.And(f_len(g) >= zi(L) + 1, e == num, num >= 0, num <= 255))
    if data is not None:
        p = unit.InstrKind.f(g, zi(L))
        ctx.keep(p)
        d = ctx.toterm(ctx.norm(it.brope(data)))
        ctx.keep(d)
        ctx.add(p == d)
    ctx.add(f_reached(w, z3.simplify(zi(k) + zi(T(used))), z3.simplify(zi(L) + 1)))


class Grammar(object):
    """Loops that read the words of a text into a list of instructions."""
    @staticmethod
    def elem_type(it, v):
        r = it.ctx.norm(v.rope)
        if isinstance(v, SIter) and len(r.p) == 1 and isinstance(r.p[0], Sl): return r.p[0].kind
        return None

    @staticmethod
    def candidates(it, n, entry, head, rope, info):
        ctx, Cand = it.ctx, loops.Cand
        for c in ast.walk(n):              # lists that only some of the ways through the body change
            if isinstance(c, ast.Attribute) and c.attr == 'append' and isinstance(c.value, ast.Name):
                sl = ('h', c.value.id)
                if sl not in info.heap and isinstance(it.lookup(c.value.id, head.env), HList):
                    info.heap.append(sl)
                    raise interp.Restart('loop state')
        for d, (k, v) in entry.d.items():
            if k != 'iter': continue
            r = ctx.norm(v)
            if len(r.p) != 1 or not isinstance(r.p[0], Sl) or r.p[0].kind is not unit.KINDS['word']: continue
            p = r.p[0]
            left = lambda s, d=d: ctx.rlen(s.d[d][1])
            used = lambda s, left=left: z3.simplify(zi(p.n) - zi(left(s)))
            val = lambda s, left=left, used=used: Rope([Sl(p.term, tn(zi(p.lo) + used(s)), left(s), p.kind)])
            yield Cand(('left', d), lambda s, left=left: And(Le(0, left(s)), Le(left(s), p.n)))
            yield Cand(('words', d), None, d, val, lambda s, d=d, val=val: rope_eq(it, s.d[d][1], val(s)))
            g = Sl(f_gram(p.term), 0, f_len(f_gram(p.term)), unit.KINDS['instr'])
            for x, (kind, old) in entry.d.items():
                if kind != 'hlist' or not isinstance(old, Rope) or not teq(ctx.rlen(old), 0): continue
                L = lambda s, x=x: ctx.rlen(s.d[x][1])
                made = lambda s, L=L: Rope([Sl(g.term, 0, L(s), g.kind)])

                def reached(s, used=used, L=L):
                    if s.head:
                        ctx.add(f_reached(p.term, zi(used(s)), zi(L(s))))
                        unfold(it, p.term, used(s), L(s))
                        return True
                    return f_reached(p.term, zi(used(s)), z3.simplify(zi(L(s))))
                yield Cand(('reached', x, d), reached)
                yield Cand(('made', x, d), None, x, made, lambda s, x=x, made=made: rope_eq(it, s.d[x][1], made(s)))
