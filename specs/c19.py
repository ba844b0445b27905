"""C19: one interpreter step has the effect the Bitcoin script reference gives it."""
from pydv.lang import *
from . import prims, refscript
from .c03 import OPAQUE
from .refscript import MINIMAL
from bitforge.tools import Buffer
from bitforge.script.opcode import Opcode
from bitforge.script.instruction import Instruction
from bitforge.script.script import Script
from bitforge.script.interpreter import Interpreter


def number(g):
    r = g.r
    v = r.choice([0, 1, 2, 3, 5, 16, 17, 20, 21, 127, 128, 255, 256, 32767, 32768, 8388607, 8388608, 2 ** 31 - 1, 2 ** 31, r.randrange(2 ** 31)])
    if r.random() < 0.35: v = -v
    d = refscript.ref_encode(v)
    if r.random() < 0.15: d = d + b'\0' if not d or d[-1] < 0x80 else d[:-1] + bytes([d[-1] & 0x7f, 0x80])
    return d


def item(g):
    k = g.r.random()
    if k < 0.6: d = number(g)
    elif k < 0.7: d = g.r.choice([b'', b'\x80', b'\0', b'\0\0', b'\0\x80', b'\x01', b'\x81', b'\x80\0'])
    else: d = g.bytes(g.length(0, 40))
    k = g.r.random()
    return d if k < 0.5 else bytearray(d) if k < 0.8 else Buffer(d)


ITEM = Biased(Bytes(), item, rate=1.0)
STANDARD = [0, 0, 64, 128, 512, 16, 1023]
FLAGS = Biased(Int(0, 1023), lambda g: g.r.choice(STANDARD))
OPS = Biased(Int(0, 300), lambda g: g.r.choice([0, 0, 1, 180, 181, 199, 200, 201, 202]))
COND = Stack(1, Biased(Bool(), lambda g: g.r.random() < 0.8), of='bool', gen_hi=3)
ALT = Stack(1, ITEM)


def instruction(g):
    """A random instruction."""
    r = g.r
    k = r.random()
    if k < 0.3:
        n = r.choice([0] + list(range(79, 97)))
        return Instruction(Opcode(n))
    if k < 0.55:
        d = bytes(item(g))[:80]
        return Instruction(Opcode(len(d)) if 1 <= len(d) <= 75 else Opcode(76), d) if d else Instruction(Opcode(0))
    return Instruction(Opcode(r.choice([n for n in range(97, 186) if n not in refscript.DISABLED] * 3 + list(refscript.DISABLED) + [186, 200, 255, 80])))


CODE = Seq('instr', lambda g: [instruction(g) for _ in range(g.r.randint(0, 3))])


def machine(n, data, stack, alt, cond, ops, flags, before, after):
    """An interpreter about to execute one instruction, anywhere in a script."""
    it = Interpreter()
    it.stack, it.altstack, it.vf_exec = prims.copies(stack), prims.copies(alt), prims.copies(cond)
    it.nop_count, it.flags = ops, flags
    it.script = Script(before + [Instruction(Opcode(n), data)] + after)
    it.pc = len(before)
    it.tx, it.nin = None, 0
    return it


def run(it):
    try:
        return bool(it.step())
    except Exception:
        return False


def agree(n, data, stack, alt, cond, ops, flags, before, after):
    want = refscript.step(n, data, stack, alt, cond, ops, flags)
    it = machine(n, data, stack, alt, cond, ops, flags, before, after)
    ok = run(it)
    if want is None:
        assert not ok
        return
    assert ok
    assert it.stack == want[0]
    assert it.altstack == want[1]
    assert it.vf_exec == want[2]
    assert it.nop_count == want[3]
    assert it.pc == len(before) + 1
    assert it.flags == flags


@contract('bitforge.script.interpreter.Interpreter.cast_to_bool', Bytes(), kind='ensures', result=Bool(), peel=True)
def spec_cast_to_bool(result, data):
    return prims.pinned(data) or result == prims.truth(data)


def uses_truth(n):
    return n in (99, 100, 105, 115)


def step_theorem(name, numbers, depth, alt=False, cond=False, **opts):
    def thm(n, stack, alts, conds, ops, flags, before, after):
        if uses_truth(n) and len(stack) > 0 and prims.pinned(stack[-1]):
            return
        agree(n, None, stack, alts, conds, ops, flags, before, after)
    thm.__name__ = name
    theorem('C19', OneOf(*numbers), Stack(depth, ITEM), ALT if alt else OneOf([]), COND if cond else OneOf([]), OPS, FLAGS, CODE, CODE,
            name=name, opaque=OPAQUE, **opts)(thm)


def probe():
    """The parts of the interpreter state the step theorems set and read."""
    i = Interpreter()
    return all(type(getattr(i, f, None)) is list for f in ('stack', 'altstack', 'vf_exec')) and all(type(getattr(i, f, None)) is int for f in ('pc', 'nop_count', 'flags')) and callable(getattr(i, 'step', None))


if probe():
    step_theorem('constants', [79] + list(range(81, 97)), 0)
    step_theorem('nops', [97, 171, 177] + list(refscript.NOPS), 0, cond=True)
    step_theorem('disabled', refscript.DISABLED, 1, cond=True)
    step_theorem('undefined', [80, 98, 101, 102, 106, 137, 138] + list(range(186, 256)), 1, cond=True)
    step_theorem('conditionals', [99, 100, 103, 104], 1, cond=True)
    step_theorem('verify', [105], 1)
    step_theorem('altstack', [107, 108], 1, alt=True)
    step_theorem('stack1', [115, 116, 117, 118, 130], 1)
    step_theorem('stack2', [109, 110, 119, 120, 124, 125], 2)
    step_theorem('pick_roll', [121, 122], 2)
    step_theorem('stack3', [111, 123], 3)
    step_theorem('stack4', [112, 114], 4)
    step_theorem('stack6', [113], 6)
    step_theorem('equal', [135, 136], 2)
    step_theorem('unary', [139, 140, 143, 144, 145, 146], 1)
    step_theorem('arithmetic', [147, 148], 2)
    step_theorem('logic', [154, 155, 156, 157, 158], 2)
    step_theorem('compare', [159, 160, 161, 162, 163, 164], 2)
    step_theorem('within', [165], 3)
    step_theorem('hashes', [166, 167, 168, 169, 170], 1)
    step_theorem('signatures', [172, 173], 2)
    step_theorem('multisig', [174, 175], 3)

    @theorem('C19', Int(79, 255), Stack(1, ITEM), ALT, COND, OPS, FLAGS, CODE, CODE)
    def skipped(n, stack, alt, cond, ops, flags, before, after):
        """In a branch that is not taken only conditionals, limits and disabled opcodes matter."""
        agree(n, None, stack, alt, cond + [False], ops, flags, before, after)

    def pushes(g):
        from .c13 import small_pushes
        return small_pushes(g)

    @theorem('C19', Biased(Tup(Int(1, 78), Bytes(big=True)), pushes, rate=0.8), Stack(0, ITEM), COND, OPS, FLAGS, CODE, CODE)
    def push(x, stack, cond, ops, flags, before, after):
        n, data = x
        try:
            Instruction(Opcode(n), data)
        except Instruction.Error:
            return
        agree(n, data, stack, [], cond, ops, flags, before, after)

    @theorem('C19', Stack(0, ITEM), COND, OPS, FLAGS, CODE, CODE)
    def push_nothing(stack, cond, ops, flags, before, after):
        agree(0, None, stack, [], cond, ops, flags, before, after)


def push_of(d):
    """An instruction that pushes a byte string, minimally."""
    d = bytes(d)
    n = len(d)
    if n == 0: return Instruction(Opcode(0))
    if n == 1 and 1 <= d[0] <= 16: return Instruction(Opcode(80 + d[0]))
    if d == b'\x81': return Instruction(Opcode(79))
    if n <= 75: return Instruction(Opcode(n), d)
    return Instruction(Opcode(76 if n < 256 else 77), d)


ARITY = {}
for _k, _ns in ((1, (99, 100, 105, 107, 115, 117, 118, 130, 139, 140, 143, 144, 145, 146, 166, 167, 168, 169, 170)),
                (2, (109, 110, 119, 120, 121, 122, 124, 125, 135, 136, 147, 148, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164)),
                (3, (111, 123, 165, 174, 175)), (4, (112, 114)), (6, (113,))):
    for _n in _ns: ARITY[_n] = _k


def program(g):
    """A script that mostly has what its opcodes need, and a flag set."""
    r = g.r
    out, depth, opened = [], 0, 0
    for _ in range(r.randint(1, 12)):
        k = r.random()
        if k < 0.35:
            out.append(push_of(item(g)))
            depth += 1
        elif k < 0.9:
            n = r.choice(sorted(ARITY) * 3 + [97, 103, 104, 108, 116, 171, 174, 175, 176, 177])
            if n in (174, 175):
                keys = r.randint(0, 3)
                out += [push_of(r.choice([b'', b'', b'\x01'])), push_of(r.choice([b'', b'', b'', b'\x01']))] + [push_of(b'k') for _ in range(keys)] + [push_of(refscript.ref_encode(keys))]
            while depth < ARITY.get(n, 0) and r.random() < 0.95:
                out.append(push_of(number(g)))
                depth += 1
            if n in (99, 100): opened += 1
            if n == 104: opened -= 1
            out.append(Instruction(Opcode(n)))
        else: out.append(instruction(g))
    while opened > 0:
        out.append(Instruction(Opcode(104)))
        opened -= 1
    return out, r.choice(STANDARD)


@theorem('C19', Native(program), bounded=True, weight=4)
def whole_program(x):
    """Run through verify(): the final stack is the one of the reference, or the run fails."""
    code, flags = x
    prims.forget_pinned()
    want = refscript.evaluate([(i.opcode.number, i.data) for i in code], [], flags)
    if prims.saw_pinned():
        raise Skip()
    if want is None:
        got = Interpreter().verify(Script([]), Script(code + [Instruction(Opcode(81))]), flags=flags)
        assert not got
        return
    if len(want) > 900 or sum(refscript.wire((i.opcode.number, i.data)) for i in code) > 9000 or any(len(w) > 520 for w in want):
        raise Skip()
    if sum(1 for i in code if i.opcode.number > 96) + len(want) + 2 > 150 or any(i.opcode.number in (174, 175) for i in code) and len(code) > 150:
        raise Skip()
    checks = []
    for w in reversed(want):
        checks += [push_of(w), Instruction(Opcode(136))]
    checks += [Instruction(Opcode(116)), push_of(b''), Instruction(Opcode(135))]
    assert Interpreter().verify(Script([]), Script(code + checks), flags=flags)
