"""C11: the binary form of a script is lossless in both directions."""
from pydv.lang import *
from . import prims, refscript, c19
from .c19 import CODE, instruction
from .c14 import CREATE, CLASSES, template

TO_BYTES = 'bitforge.script.script.Script.to_bytes'
from bitforge.tools import Buffer
from bitforge.script.opcode import Opcode
from bitforge.script.instruction import Instruction
from bitforge.script.script import Script


def big(g):
    r = g.r
    n = r.choice([76, 77, 77, 78])
    hi = {76: 255, 77: 65535, 78: 70000}[n]
    return Instruction(Opcode(n), g.bytes(r.choice([0, 1, 75, 76, 255, 256, 520, 65535, 65536] + [r.randint(0, 300)] * 9)) [:hi])


def codes(g):
    r = g.r
    return [big(g) if r.random() < 0.15 else Instruction(Opcode(r.randint(1, 75)), None) if False else instruction(g) if r.random() < 0.7
            else (lambda n: Instruction(Opcode(n), g.bytes(n)))(r.randint(1, 75)) for _ in range(r.randint(0, 5))]


def texts(g):
    """Byte strings that are nearly scripts."""
    r = g.r
    d = prims.script_bytes(codes(g))
    k = r.random()
    if k < 0.3 and d: d = d[:r.randrange(len(d))] if r.random() < 0.5 else d[:-1]
    elif k < 0.4: d = d + bytes([r.choice([1, 75, 76, 77, 78, 79, 0, 255])]) + g.bytes(r.randint(0, 6))
    elif k < 0.5: d = g.bytes(r.randint(0, 60))
    elif k < 0.6: d = d + bytes([r.choice([76, 77, 78])]) + (lambda n, w: n.to_bytes(w, 'little') + g.bytes(r.choice([n, n, max(0, n - 1), n + 1])))(r.choice([0, 1, 127, 128, 255]), r.choice([1, 2, 4]))
    return d


LONG = Seq('instr', codes)
DATA = Biased(Bytes(), texts, rate=0.9)


@theorem('C11', LONG)
def serial(code):
    s = Script(code)
    assert prims.strictly(s.instructions, tuple(code))
    data = s.to_bytes()
    assert isinstance(data, bytes)
    assert data == prims.script_bytes(code)


@theorem('C11', LONG, use=(CREATE,))
def parse_serialized(code):
    s = Script.from_bytes(prims.script_bytes(code))
    k = template(code)
    assert type(s) is (CLASSES[k] if k < 6 else Script)
    assert prims.strictly(s.instructions, tuple(code))


@theorem('C11', DATA, elems=('instr',), use=(CREATE,))
def serialize_parsed(data):
    try:
        s = Script.from_bytes(data)
    except Buffer.InsufficientData:
        return
    assert isinstance(s, Script)
    assert prims.script_bytes(s.instructions) == data
    assert all(i.data is None or isinstance(i.data, bytes) for i in s.instructions)


@theorem('C11', LONG, use=(TO_BYTES,))
def hexadecimal(code):
    assert Script(code).to_hex() == prims.script_bytes(code).hex()


@theorem('C11', LONG, use=(CREATE,))
def from_mutable(code):
    """Any kind of byte string can be read, and it is left alone."""
    data = bytearray(prims.script_bytes(code))
    s = Script.from_bytes(data)
    assert prims.strictly(s.instructions, tuple(code))
    assert data == prims.script_bytes(code)
