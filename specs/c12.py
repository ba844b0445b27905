"""C12: the textual form of a script is lossless for named opcodes and pushes."""
from pydv.lang import *
from . import prims, table
from .c11 import big
from .c14 import CREATE
from pydv.texts import Grammar
from bitforge.encoding import EncodingError
from bitforge.script.opcode import Opcode
from bitforge.script.instruction import Instruction
from bitforge.script.script import Script

NAMED = sorted(table.NUMBERS)
PLAIN = [n for n in NAMED if not 76 <= n <= 78]
REFUSALS = (Script.Error, Instruction.Error, EncodingError, Opcode.Error)


def one(g):
    r = g.r
    k = r.random()
    if k < 0.4: return Instruction(Opcode(r.choice(PLAIN)))
    if k < 0.5: return Instruction(Opcode(r.choice([0, 79, 80, 81, 96, 97, 176, 177, 185, 253, 254, 255])))
    if k < 0.7: return (lambda n: Instruction(Opcode(n), g.bytes(n)))(r.randint(1, 75))
    if k < 0.8: return (lambda n: Instruction(Opcode(n), g.bytes(n)))(r.choice([1, 2, 20, 33, 74, 75]))
    return big(g)


def code(g):
    return [one(g) for _ in range(g.r.choice([1, 1, 2, 3, 6]))]


def written(i):
    """The textual form of an instruction."""
    n = i.opcode.number
    if i.data is None: return i.opcode.name
    if n <= 75: return '%d 0x%s' % (n, i.data.hex())
    return 'OP_PUSHDATA%d %d 0x%s' % ({76: 1, 77: 2, 78: 4}[n], len(i.data), i.data.hex())


NAMED_CODE = Seq('named', code)


@theorem('C12', NAMED_CODE)
def written_all(code):
    """The textual form, for every sequence of instructions."""
    if len(code) == 0:
        return
    assert Script(code).to_string() == prims.script_text(code)


@theorem('C12', NAMED_CODE, use=(CREATE,))
def read_all(code):
    """The textual form of every sequence of instructions is read back."""
    if len(code) == 0:
        return
    s = Script.from_string(prims.script_text(code))
    assert prims.strictly(s.instructions, tuple(code))


def size(t):
    """The number a size token denotes, or None."""
    if not t.isdigit(): return None
    try: return int(t)
    except ValueError: return None


def data(t):
    if not t.startswith('0x') or not prims.hexvalid(t[2:]): return None
    return prims.unhex(t[2:])


def step(ts):
    """Opcode number, data and number of words of the first instruction, or None if there is none."""
    t = prims.spelled(ts[0])
    n = table.NAMES.get(t)
    if n is None:
        n = size(t)
        if n is None or not 1 <= n <= 75 or len(ts) < 2: return None
        d = data(ts[1])
        if d is None or len(d) != n: return None
        return n, d, 2
    if 76 <= n <= 78:
        if len(ts) < 3: return None
        k, d = size(ts[1]), data(ts[2])
        if k is None or d is None or len(d) != k or len(d) > {76: 255, 77: 65535, 78: 0xffffffff}[n]: return None
        return n, d, 3
    return n, None, 1


def meaning(text):
    """Whether a text is a script, and its instructions up to the first fault."""
    out, ts = [], text.split(' ')
    while ts:
        r = step(ts)
        if r is None: return False, out
        n, d, k = r
        out.append(Instruction(Opcode(n), d))
        ts = ts[k:]
    return True, out


def texts(g):
    r = g.r
    ts = ' '.join(written(one(g)) for _ in range(r.choice([0, 1, 2, 3]))).split(' ')
    for _ in range(r.choice([0, 1, 1, 2])):
        i = r.randrange(len(ts))
        k = r.randrange(9)
        if k == 0: del ts[i]
        elif k == 1: ts.insert(i, r.choice(['', '0', '1', '75', '76', '-1', '+1', '1_0', '\u00b2', '\u0661', '1.0', '01', '9' * 5000, '256', '65536']))
        elif k == 2: ts.insert(i, r.choice(['0x', '0xff', '0XFF', 'ff', '0xf', '0xgg', '0x f', '0xFF', 'x', '0x\u0661\u0661', '0x' + '00' * 75]))
        elif k == 3: ts.insert(i, r.choice(['OP_', 'OP_X', 'OP_CHECKSIG', 'op_dup', 'OP_dup', 'DUP', 'OP_PUSHDATA3', 'OP_PUSHDATA1', 'OP_PUSHDATA4', 'OP_UNKNOWN_200', '_PUSH_5_BYTES', 'OP_NOP2', 'OP_0', 'Opcode', 'OP_17']))
        elif k == 4: ts[i] = mutate(g, ts[i], '0123456789abcdefxOP_ \t\n')
        elif k == 5: ts = ts[:i]
        elif k == 6 and ts[i].isdigit() and ts[i].isascii(): ts[i] = str(int(ts[i]) + r.choice([-1, 1, 256])) if len(ts[i]) < 9 else ts[i]
        elif k == 7 and ts[i].startswith('0x'): ts[i] = r.choice([ts[i][2:], ts[i][:-2], ts[i] + '00', ts[i].upper(), '0x' + ts[i][2:].upper()])
        else: ts.insert(i, r.choice(ts) if ts else 'x')
        if not ts: ts = ['']
    return ' '.join(ts)


@theorem('C12', Biased(Text(), texts, rate=0.9), use=(CREATE,), plugin=Grammar, weight=3)
def refusal_all(text):
    """A text is read if and only if it is a script in textual form, and as the instructions it stands for."""
    ok, want = prims.script_meaning(text)
    try:
        s = Script.from_string(text)
    except REFUSALS:
        assert not ok
        return
    assert ok
    assert prims.strictly(s.instructions, tuple(want))
