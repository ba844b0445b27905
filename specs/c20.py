"""C20: verification is total, bounded and fails closed."""
from pydv.lang import *
from . import prims, refscript, c19
from .c03 import OPAQUE
from .c19 import ITEM, FLAGS, OPS, COND, ALT, CODE, machine, instruction, push_of, probe
from bitforge.tools import Buffer
from bitforge.script.opcode import Opcode
from bitforge.script.instruction import Instruction
from bitforge.script.script import Script
from bitforge.script.interpreter import Interpreter


# -- one step: it raises, or reports, or moves on ------------------------------------------------------

def reports(it, pc, flags):
    script = it.script
    try:
        ok = it.step()
    except Exception:
        assert it.script is script and it.flags == flags
        return
    assert ok is True or ok is False
    assert it.script is script and it.flags == flags
    if ok:
        assert it.pc == pc + 1
    else:
        assert isinstance(it.errstr, str) and it.errstr != ''


def step_theorem(name, numbers, depth, **opts):
    def thm(n, stack, alts, conds, ops, flags, before, after):
        reports(machine(n, None, stack, alts, conds, ops, flags, before, after), len(before), flags)
    theorem('C20', OneOf(*numbers), Stack(depth, ITEM), ALT, COND, OPS, FLAGS, CODE, CODE, name='step_' + name, opaque=OPAQUE, weight=0.3, **opts)(thm)


if probe():
    GROUPS = [('simple', [0, 79, 80] + list(range(81, 99)), 0), ('control', list(range(99, 109)), 1), ('stack', list(range(109, 126)), 6),
              ('disabled', refscript.DISABLED, 0), ('equal', [130, 135, 136, 137, 138], 2), ('unary', [139, 140, 143, 144, 145, 146], 1),
              ('binary1', [147, 148, 154, 155, 156, 157], 2), ('binary2', [158, 159, 160, 161, 162, 163, 164], 2), ('within', [165], 3),
              ('crypto', list(range(166, 174)), 2), ('multisig', [174], 3), ('multisig_verify', [175], 3), ('nops', list(range(176, 186)), 1)]
    for _name, _numbers, _depth in GROUPS: step_theorem(_name, _numbers, _depth, peel='multisig' in _name)

    @theorem('C20', Int(186, 255), Stack(0, ITEM), COND, OPS, FLAGS, CODE, CODE, weight=0.3)
    def step_undefined(n, stack, cond, ops, flags, before, after):
        reports(machine(n, None, stack, [], cond, ops, flags, before, after), len(before), flags)

    @theorem('C20', Biased(Tup(Int(1, 78), Bytes(big=True)), c19.pushes, rate=0.8), Stack(0, ITEM), COND, OPS, FLAGS, CODE, CODE, weight=0.3)
    def step_push(x, stack, cond, ops, flags, before, after):
        n, data = x
        try:
            Instruction(Opcode(n), data)
        except Instruction.Error:
            return
        reports(machine(n, data, stack, [], cond, ops, flags, before, after), len(before), flags)


@contract('bitforge.script.interpreter.Interpreter.step', Is(Interpreter), by='C20.step_')
def spec_step(self):
    """What the theorems C20.step_* show of a step at any position of a script."""
    prims.require(0 <= self.pc < len(self.script.instructions))
    self.stack = prims.some_list('bytes')
    self.altstack = prims.some_list('bytes')
    self.vf_exec = prims.some_list('bool')
    self.nop_count = prims.some_int()
    self.pbegincodehash = prims.some_int()
    if prims.some_bool():
        self.pc = prims.some_int()
        self.errstr = prims.some_text()
        raise prims.Unknown()
    if prims.some_bool():
        self.pc = self.pc + 1
        self.errstr = prims.some_text()
        return True
    self.pc = prims.some_int()
    self.errstr = prims.some_text(1)
    return False


STEP = 'bitforge.script.interpreter.Interpreter.step'
TO_BYTES = 'bitforge.script.script.Script.to_bytes'


@contract(TO_BYTES, Is(Script), by='C11.serial')
def spec_to_bytes(self):
    return prims.script_bytes(self.instructions)


class Items(object):
    """Loop facts: once an iteration is complete, two of the lists have at most 1000 items together."""
    @staticmethod
    def candidates(it, n, entry, head, rope, info):
        from pydv.loops import Cand
        from pydv.core import T, Or, Le, Eq, tn, zi
        lists = [sl for sl in head.d if head.d[sl][0] == 'hlist']
        ints = [sl for sl in head.d if head.d[sl][0] == 'int']
        for x in ints:
            e = T(entry.d[x][1])
            for k, a in enumerate(lists):
                for b in lists[k + 1:]:
                    yield Cand(('limit', x, a, b), lambda s, x=x, a=a, b=b, e=e: Or(
                        Eq(T(s.d[x][1]), e), Le(tn(zi(it.ctx.rlen(s.d[a][1])) + zi(it.ctx.rlen(s.d[b][1]))), 1000)))


STACK = Stack(0, ITEM)

if probe():
    @theorem('C20', CODE, STACK, FLAGS, plugin=Items, use=(STEP, TO_BYTES))
    def evaluate_total(code, stack, flags):
        it = Interpreter()
        it.script, it.stack, it.flags = Script(code), prims.copies(stack), flags
        it.tx, it.nin = None, 0
        ok = it.evaluate()
        assert ok is True or ok is False
        if ok:
            assert len(it.vf_exec) == 0
            assert len(it.script.to_bytes()) <= 10000
            if len(code) > 0:
                assert len(it.stack) + len(it.altstack) <= 1000
        else:
            assert isinstance(it.errstr, str) and it.errstr != ''

    @theorem('C20', CODE, FLAGS, peel=True, use=(TO_BYTES,))
    def hash_needs_item(code, flags):
        it = Interpreter()
        it.script, it.flags = Script([Instruction(Opcode(169))] + code), flags
        it.tx, it.nin = None, 0
        assert not it.evaluate()


EVALUATE = 'bitforge.script.interpreter.Interpreter.evaluate'
FROM_BYTES = 'bitforge.script.script.Script.from_bytes'


@contract(EVALUATE, Is(Interpreter), by=('C20.evaluate_total', 'C20.hash_needs_item'),
          note='evaluate() depends only on script, stack and flags (it reads nothing but the fields of the interpreter); compared natively with the reference')
def spec_evaluate(self):
    prims.require(self.pc == 0 and self.nop_count == 0 and self.pbegincodehash == 0)
    prims.require(len(self.altstack) == 0 and len(self.vf_exec) == 0)
    code = self.script.instructions
    ok, stack = prims.evaluation(code, self.stack, self.flags)
    self.stack = stack
    self.altstack = prims.some_list('bytes')
    self.vf_exec = prims.some_list('bool')
    self.nop_count = prims.some_int()
    self.pbegincodehash = prims.some_int()
    self.pc = prims.some_int()
    if ok:
        self.errstr = prims.some_text()
        return True
    self.errstr = prims.some_text(1)
    return False


@contract(FROM_BYTES, Alt(Bytes(), BArr()), by='C11.', note='the class of the result is not specified, only its instructions')
def spec_from_bytes(data):
    ok, code = prims.parsed(data)
    if not ok:
        raise Buffer.InsufficientData(1, 0)
    return Script(code)


# -- verification composes the evaluations ---------------------------------------------------------------

def push_only(code):
    return all(i.opcode.number <= 96 for i in code)


def composed(sig, pub, flags):
    """None when a value of the known finding decides."""
    if flags & refscript.PUSHONLY and not push_only(sig):
        return False
    ok, s = prims.evaluation(sig, [], flags)
    if not ok:
        return False
    ok, t = prims.evaluation(pub, s, flags)
    if not ok or len(t) == 0:
        return False
    if prims.pinned(t[-1]):
        return None
    if not prims.truth(t[-1]):
        return False
    if flags & refscript.P2SH and len(pub) == 3 and pub[0].opcode.number == 169 and pub[1].opcode.number == 20 and pub[2].opcode.number == 135:
        if not push_only(sig):
            return False
        if len(s) == 0:
            return False
        ok, redeem = prims.parsed(s[-1])
        if not ok:
            return False
        ok, t = prims.evaluation(redeem, s[:-1], flags)
        if not ok or len(t) == 0:
            return False
        if prims.pinned(t[-1]):
            return None
        return prims.truth(t[-1])
    return True


def scripts(g):
    """Script pairs that reach every part of verification."""
    r = g.r
    k = r.random()
    flags = r.choice([0, 1, 1, 1, 32, 33, 64, 65, 128, 16, 512, 1023])
    op = lambda n: Instruction(Opcode(n))
    if k < 0.35:
        code, _ = c19.program(g)
        cut = r.randint(0, len(code))
        sig, pub = (code[:cut], code[cut:]) if r.random() < 0.5 else ([push_of(c19.item(g)) for _ in range(r.randint(0, 3))], code)
        if r.random() < 0.5: pub = pub + [op(81)]
        return (sig, pub, flags)
    if k < 0.65:
        body = r.choice([lambda: c19.program(g)[0], lambda: [op(81)], lambda: [], lambda: [op(0)], lambda: [op(117), op(81)], lambda: [op(107), op(81)],
                         lambda: [op(99)], lambda: [op(99), op(81), op(104)], lambda: [op(116)], lambda: [op(107), op(108)], lambda: [op(106)],
                         lambda: [op(97)] * r.choice([200, 201, 202]) + [op(81)]])()
        red = prims.script_bytes(body)
        if r.random() < 0.15: red = red + r.choice([b'\x05ab', b'\x4c', b'\x4d\x01', b'\x4e\xff\xff\xff\xff', b'\xff', b'\x01'])
        pre = [push_of(r.choice([b'', b'\x01', b'\x02', b'\x01'])) for _ in range(r.randint(0, 3))]
        if r.random() < 0.15: pre = pre + [op(r.choice([97, 118, 116]))]
        if len(red) > 520: red = b'\x51'
        h = __import__('hashlib').new('ripemd160', __import__('hashlib').sha256(red).digest()).digest()
        if r.random() < 0.1: h = bytes([h[0] ^ 1]) + h[1:]
        push = Instruction(Opcode(20), h) if r.random() < 0.85 else Instruction(Opcode(76), h)
        sig = pre + [push_of(red)]
        if r.random() < 0.05: sig = []
        return (sig, [op(169), push, op(135)] + ([op(97)] if r.random() < 0.05 else []), flags | (1 if r.random() < 0.8 else 0))
    if k < 0.72:
        n = r.choice([10000, 10001, 9999])
        tail = [op(97)] * 100 if r.random() < 0.5 else []
        size = n - len(tail) - 1
        body = []
        while size > 530:
            body += [Instruction(Opcode(77), bytes(500)), op(117)]
            size -= 504
        if size > 2: body += [Instruction(Opcode(77), bytes(size - 4)) if size - 4 > 0 else op(0), op(117)]
        return ([], body + tail + [op(81)], flags & ~64)
    if k < 0.8:
        n = r.choice([999, 1000, 1001, 1002])
        if r.random() < 0.5: return ([op(81)] * n, [], flags)
        m = r.randint(0, 200)
        return ([op(81)] * (n - m), [op(107)] * r.choice([0, 1, 100]) + [op(81)] * m + ([op(117)] * r.choice([0, 3])), flags)
    if k < 0.87:
        n = r.choice([200, 201, 202])
        return ([op(97)] * r.choice([0, 201, 202]), [op(r.choice([97, 176, 171]))] * n + [op(81)], flags & ~(32 + 128))
    if k < 0.93:
        d = bytes(r.choice([519, 520, 521]))
        return ([Instruction(Opcode(77), b'\x01' + d[1:])], r.choice([[], [op(81)], [op(118)], [op(0), op(99), Instruction(Opcode(77), d), op(104)]]), flags)
    return ([instruction(g) for _ in range(r.randint(0, 6))], [instruction(g) for _ in range(r.randint(0, 8))], flags)


@theorem('C20', Biased(Tup(CODE, CODE, FLAGS), scripts, rate=0.95), use=(EVALUATE, FROM_BYTES), weight=6)
def composition(x):
    sig, pub, flags = x
    prims.forget_pinned()
    want = composed(sig, pub, flags)
    it = Interpreter()
    got = it.verify(Script(sig), Script(pub), flags=flags)
    assert got is True or got is False
    if not got:
        assert isinstance(it.errstr, str) and it.errstr != ''
    if want is None or prims.saw_pinned():
        return
    assert got == want


def twice(g):
    a, b = scripts(g), scripts(g)
    return (a, b)


@theorem('C20', Native(twice), bounded=True, weight=2)
def reuse(x):
    """An interpreter that has been used before gives the same verdict."""
    a, b = x
    it = Interpreter()
    it.verify(Script(a[0]), Script(a[1]), flags=a[2])
    assert it.verify(Script(b[0]), Script(b[1]), flags=b[2]) == Interpreter().verify(Script(b[0]), Script(b[1]), flags=b[2])
