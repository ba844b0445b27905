"""C13: opcodes and instructions."""
from pydv.lang import *
from bitforge.script import opcode as ops
from bitforge.script.opcode import Opcode
from bitforge.script.instruction import Instruction
from .table import NAMES, NUMBERS

NUMBER = Int(0, 255)


@theorem('C13', Int())
def exists(n):
    try:
        op = Opcode(n)
    except Opcode.UnknownOpcodeNumber:
        assert n < 0 or n > 255
        return
    assert 0 <= n <= 255
    assert op.number == n
    assert op.bytes == bytes([n])


@theorem('C13', NUMBER)
def predicates(n):
    op = Opcode(n)
    assert bool(op.is_number()) == (n == 0 or 81 <= n <= 96)
    assert bool(op.is_const_push()) == (1 <= n <= 75)
    assert bool(op.is_var_push()) == (76 <= n <= 78)
    assert bool(op.is_push()) == (1 <= n <= 78)


@theorem('C13', NUMBER)
def number_value(n):
    try:
        v = Opcode(n).number_value()
    except Opcode.WrongOpcodeType:
        assert n != 0 and not 81 <= n <= 96
        return
    assert n == 0 or 81 <= n <= 96
    assert v == (0 if n == 0 else n - 80)


@theorem('C13', Int())
def for_number(v):
    try:
        op = Opcode.for_number(v)
    except ValueError:
        assert v < 0 or v > 16
        return
    assert 0 <= v <= 16
    assert op.number == (0 if v == 0 else 80 + v)
    assert op.number_value() == v


@theorem('C13', NUMBER, NUMBER)
def ordering(a, b):
    x, y = Opcode(a), Opcode(b)
    assert (x == y) == (a == b)
    assert (x != y) == (a != b)
    assert (x < y) == (a < b)
    assert (x <= y) == (a <= b)
    assert (x > y) == (a > b)
    assert (x >= y) == (a >= b)
    if a == b:
        assert hash(x) == hash(y)


@theorem('C13', NUMBER)
def limits(n):
    op = Opcode(n)
    m = Opcode.data_length_max(op)
    if 1 <= n <= 75:
        assert m == n
    elif n == 76:
        assert m == 0xff
    elif n == 77:
        assert m == 0xffff
    elif n == 78:
        assert m == 0xffffffff
    else:
        assert m == 0
    try:
        k = Opcode.data_length_nbytes(op)
    except Opcode.WrongOpcodeType:
        assert not 76 <= n <= 78
        return
    assert 76 <= n <= 78
    assert k == (1 if n == 76 else 2 if n == 77 else 4)


@theorem('C13', OneOf(*sorted(NAMES)))
def named(name):
    """The named constants are the opcodes of the Bitcoin table."""
    op = getattr(ops, name)
    assert isinstance(op, Opcode) and op.number == NAMES[name]
    assert Opcode.from_name(name) == op
    if name not in ('OP_FALSE', 'OP_TRUE'):
        assert op.name == name


@theorem('C13', OneOf(*range(256)))
def names(n):
    name = Opcode(n).name
    if n in NUMBERS:
        assert name == NUMBERS[n]
    else:
        assert name not in NAMES
        assert name != ''


@theorem('C13', NUMBER, NUMBER)
def same_opcode(n, m):
    a, b = Opcode(n), Opcode(m)
    assert (a == b) is (n == m)
    assert n != m or hash(a) == hash(b)
    assert not a == n


def pushes(g):
    n = g.r.choice([1, 2, 5, 75, 76, 77, 78])
    return n, g.bytes(n if n < 76 else g.r.choice([0, 1, 2, 5]))


PUSHED = Biased(Tup(Int(1, 78), Bytes()), pushes, rate=0.9)


@theorem('C13', PUSHED, PUSHED)
def same_push(a, b):
    """Instructions with data are equal exactly when opcode and data are."""
    try: x, y = Instruction(Opcode(a[0]), a[1]), Instruction(Opcode(b[0]), b[1])
    except Instruction.Error: return
    same = a[0] == b[0] and a[1] == b[1]
    assert bool(x == y) is same
    assert bool(x != y) is (not same)
    assert not same or hash(x) == hash(y)


@theorem('C13', NUMBER, NUMBER)
def same_plain(n, m):
    if 1 <= n <= 78 or 1 <= m <= 78: return
    x, y = Instruction(Opcode(n)), Instruction(Opcode(m))
    assert bool(x == y) is (n == m)
    assert bool(x != y) is (n != m)
    assert n != m or hash(x) == hash(y)


@theorem('C13', NUMBER, Bytes(big=True))
def instruction(n, data):
    """An instruction with data exists only if the data fits the opcode."""
    op = Opcode(n)
    k = len(data)
    if 1 <= n <= 75:
        fits = k == n
    elif n == 76:
        fits = k <= 0xff
    elif n == 77:
        fits = k <= 0xffff
    elif n == 78:
        fits = k <= 0xffffffff
    else:
        fits = False
    try:
        i = Instruction(op, data)
    except Instruction.InvalidDataLength:
        assert not fits and 1 <= n <= 78
        return
    except Instruction.UnexpectedData:
        assert not 1 <= n <= 78
        return
    assert fits
    assert i.opcode.number == n and i.data == data
    assert bool(i.is_push())


@theorem('C13', NUMBER)
def instruction_without_data(n):
    try:
        i = Instruction(Opcode(n))
    except (Instruction.Error, TypeError):
        assert 1 <= n <= 78
        return
    assert not 1 <= n <= 78
    assert i.opcode.number == n and i.data is None
    assert not i.is_push()


@theorem('C13', OneOf(None, 5, 'OP_1', b'\x01', 81))
def not_an_opcode(x):
    assert refused(Instruction, Instruction.TypeError, x)


@theorem('C13', Bytes(lo=1, hi=2 ** 32 - 1, big=True))
def push_for(data):
    """Pushing data selects the shortest push."""
    i = Instruction.push_for(data)
    k = len(data)
    assert i.data == data
    assert i.opcode.number == (k if k <= 75 else 76 if k <= 0xff else 77 if k <= 0xffff else 78)


@theorem('C13', Int())
def push_lengths(k):
    try:
        op = Opcode.push_for(k)
    except (Opcode.InvalidPushLength, Opcode.InvalidConstPushLength):
        assert k < 1 or k > 0xffffffff
        return
    assert 1 <= k <= 0xffffffff
    assert op.number == (k if k <= 75 else 76 if k <= 0xff else 77 if k <= 0xffff else 78)


@theorem('C13', Int())
def const_push_lengths(k):
    try:
        op = Opcode.const_push_for(k)
    except Opcode.InvalidConstPushLength:
        assert k < 1 or k > 75
        return
    assert 1 <= k <= 75
    assert op.number == k


@theorem('C13', Int())
def var_push_lengths(k):
    try:
        op = Opcode.var_push_for(k)
    except Opcode.InvalidPushLength:
        assert k < 1 or k > 0xffffffff
        return
    assert 1 <= k <= 0xffffffff
    assert op.number == (76 if k <= 0xff else 77 if k <= 0xffff else 78)


def small_pushes(g):
    k = g.r.choice([0, 1, 1, 1, 2, 74, 75, 76, 77, 254, 255, 256, 257, 65535, 65536])
    d = g.bytes(k)
    if k == 1: d = bytes([g.r.choice([0, 1, 15, 16, 17, 0x80, 0x81, 0x82, g.r.randrange(256)])])
    ns = [n for n, lo, hi in ((k, 1, 75), (76, 0, 255), (77, 0, 65535), (78, 0, 1 << 32)) if lo <= k <= hi]
    return (g.r.choice(ns), d)


@theorem('C13', Biased(Tup(NUMBER, Bytes(big=True)), small_pushes))
def minimal_push(x):
    """Bitcoin's CheckMinimalPush."""
    n, data = x
    try:
        i = Instruction(Opcode(n), data)
    except Instruction.Error:
        return
    k = len(data)
    if k == 0:
        minimal = False            # OP_0 is an opcode without data here
    elif k == 1 and (1 <= data[0] <= 16 or data[0] == 0x81):
        minimal = False            # OP_1 .. OP_16 or OP_1NEGATE
    elif k <= 75:
        minimal = n == k
    elif k <= 0xff:
        minimal = n == 76
    elif k <= 0xffff:
        minimal = n == 77
    else:
        minimal = True
    assert bool(i.is_minimal_push()) == minimal


@theorem('C13', NUMBER)
def minimal_without_data(n):
    if not 1 <= n <= 78:
        assert Instruction(Opcode(n)).is_minimal_push()
