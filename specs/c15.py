"""C15: transactions have the Bitcoin wire format and round-trip."""
import hashlib
from pydv.lang import *
from . import prims, c11, c19, c20
from .c19 import CODE, instruction
from .c14 import CLASSES, CREATE, shapes, template
from bitforge import encoding
from bitforge.tools import Buffer
from bitforge.script.script import Script
from bitforge.transaction import Input, Output, Transaction
from bitforge.transaction import input as imod, output as omod

TO_BYTES, FROM_BYTES = c20.TO_BYTES, c20.FROM_BYTES
U32, U64 = 2 ** 32 - 1, 2 ** 64 - 1


def code(g):
    k = g.r.random()
    if k < 0.5: return shapes(g)
    if k < 0.53: return [c11.big(g) for _ in range(g.r.randint(1, 2))]
    return [instruction(g) for _ in range(g.r.randint(0, 4))]


def u32(g): return g.r.choice([0, 1, 255, 256, 2 ** 31 - 1, 2 ** 31, U32, g.r.randint(0, U32)])
def u64(g): return g.r.choice([0, 1, 255, 2 ** 32, 2 ** 63 - 1, 2 ** 63, U64, 21 * 10 ** 14, g.r.randint(0, U64), g.r.randint(0, 10 ** 15)])
def an_input(g): return Input(g.bytes(32).hex(), u32(g), Script(code(g)), u32(g))
def an_output(g): return Output(u64(g), Script(code(g)))
def many(f):
    def gen(g):
        k = g.r.random()
        return [f(g) for _ in range(g.r.choice([0, 1, 1, 2, 3, 3, 252, 253, 254] if k < 0.02 else [0, 1, 1, 2, 3]))]
    return gen


def lots(g):
    """Tried first when the proof does not go through: numbers of inputs and outputs that need every form of the count."""
    i, o = [an_input(g)], [an_output(g)]
    return [[i * n, o * m, 1, 0] for n, m in ((1, 65600), (65600, 1), (1, 65535), (65535, 1), (1, 65536), (65536, 1), (1, 253), (253, 1), (1, 256), (256, 1))]


INS = Seq('txin', many(an_input))
OUTS = Seq('txout', many(an_output))
ID, N32, N64 = Bytes(n=32), Int(0, U32), Int(0, U64)
SCRIPT = Seq('instr', code)


@theorem('C15', ID, N32, SCRIPT, N32, use=(TO_BYTES,))
def input_bytes(txid, index, code, seq):
    s = prims.script_bytes(code)
    if len(s) > U64:
        return
    data = Input(txid.hex(), index, Script(code), seq).to_bytes()
    assert type(data) is bytes
    assert data == txid[::-1] + index.to_bytes(4, 'little') + prims.varint(len(s)) + s + seq.to_bytes(4, 'little')


@theorem('C15', N64, SCRIPT, use=(TO_BYTES,))
def output_bytes(amount, code):
    s = prims.script_bytes(code)
    if len(s) > U64:
        return
    data = Output(amount, Script(code)).to_bytes()
    assert type(data) is bytes
    assert data == amount.to_bytes(8, 'little') + prims.varint(len(s)) + s


@theorem('C15', INS, OUTS, N32, N32, use=(TO_BYTES,), corners=lots)
def transaction_bytes(inputs, outputs, version, lock_time):
    if len(inputs) == 0 or len(outputs) == 0 or len(inputs) > U64 or len(outputs) > U64:
        return
    data = Transaction(inputs, outputs, lock_time, version).to_bytes()
    assert type(data) is bytes
    assert data == (version.to_bytes(4, 'little') + prims.varint(len(inputs)) + prims.inputs_bytes(inputs) + prims.varint(len(outputs))
                    + prims.outputs_bytes(outputs) + lock_time.to_bytes(4, 'little'))


CREATE_OUT = 'bitforge.transaction.output.Output.create'


@contract(CREATE_OUT, OneOf(Output), Int(), Is(Script), by='C18.generic_output', note='the class of the result is not specified here, only its fields')
def spec_create_out(cls, amount, script):
    return Output(amount, script)


@theorem('C15', ID, N32, SCRIPT, N32, Bytes(), use=(FROM_BYTES,))
def input_back(txid, index, code, seq, rest):
    s = prims.script_bytes(code)
    if len(s) > U64:
        return
    b = Buffer(txid[::-1] + index.to_bytes(4, 'little') + prims.varint(len(s)) + s + seq.to_bytes(4, 'little') + rest)
    i = Input.from_buffer(b)
    assert isinstance(i, Input)
    assert i.tx_id == txid.hex() and i.txo_index == index and i.seq_number == seq
    assert type(i.txo_index) is int and type(i.seq_number) is int
    assert prims.strictly(i.script.instructions, tuple(code))
    assert b == rest


@theorem('C15', N64, SCRIPT, Bytes(), use=(FROM_BYTES, CREATE))
def output_back(amount, code, rest):
    s = prims.script_bytes(code)
    if len(s) > U64:
        return
    b = Buffer(amount.to_bytes(8, 'little') + prims.varint(len(s)) + s + rest)
    o = Output.from_buffer(b)
    assert o.amount == amount
    assert prims.strictly(o.script.instructions, tuple(code))
    assert b == rest
    k = template(code)
    assert type(o) is (omod.AddressOutput if k == 1 else omod.ScriptOutput if k == 3 else omod.DataOutput if k == 4 else Output)
    assert type(o.script) is (CLASSES[k] if k < 6 else Script)


@theorem('C15', INS, OUTS, N32, N32, use=(FROM_BYTES, CREATE_OUT), corners=lots)
def transaction_back(inputs, outputs, version, lock_time):
    if len(inputs) == 0 or len(outputs) == 0 or len(inputs) > U64 or len(outputs) > U64:
        return
    data = (version.to_bytes(4, 'little') + prims.varint(len(inputs)) + prims.inputs_bytes(inputs) + prims.varint(len(outputs))
            + prims.outputs_bytes(outputs) + lock_time.to_bytes(4, 'little'))
    t = Transaction.from_bytes(data)
    assert type(t) is Transaction
    assert t.version == version and t.lock_time == lock_time
    assert prims.same_parts(t.inputs, inputs)
    assert prims.same_parts(t.outputs, outputs)


TX_BYTES = 'bitforge.transaction.transaction.Transaction.to_bytes'


@contract(TX_BYTES, Is(Transaction), by=('C15.transaction_bytes', 'C15.input_bytes', 'C15.output_bytes'))
def spec_tx_bytes(self):
    prims.require(0 <= self.version <= U32 and 0 <= self.lock_time <= U32 and len(self.inputs) <= U64 and len(self.outputs) <= U64)
    return prims.transaction_bytes(self.version, self.inputs, self.outputs, self.lock_time)


@theorem('C15', INS, OUTS, N32, N32, use=(TX_BYTES,))
def identifier(inputs, outputs, version, lock_time):
    if len(inputs) == 0 or len(outputs) == 0 or len(inputs) > U64 or len(outputs) > U64:
        return
    t = Transaction(inputs, outputs, lock_time, version)
    data = prims.transaction_bytes(version, inputs, outputs, lock_time)
    assert t.to_bytes() == data
    assert t.to_hex() == data.hex()
    h = hashlib.sha256(hashlib.sha256(data).digest()).digest()
    assert t.get_id_bytes() == h
    assert t.get_id() == h[::-1].hex()


@theorem('C15', ID, Int(), SCRIPT, Int(), use=(TO_BYTES,))
def input_range(txid, index, code, seq):
    if len(prims.script_bytes(code)) > U64:
        return
    i = Input(txid.hex(), index, Script(code), seq)
    try:
        i.to_bytes()
    except encoding.InvalidInteger:
        assert not (0 <= index <= U32 and 0 <= seq <= U32)
        return
    assert 0 <= index <= U32 and 0 <= seq <= U32


@theorem('C15', Int(), SCRIPT, use=(TO_BYTES,))
def output_range(amount, code):
    if len(prims.script_bytes(code)) > U64:
        return
    o = Output(amount, Script(code))
    try:
        o.to_bytes()
    except encoding.InvalidInteger:
        assert not 0 <= amount <= U64
        return
    assert 0 <= amount <= U64


@theorem('C15', INS, OUTS, Int(), use=(TO_BYTES,))
def version_range(inputs, outputs, version):
    if len(inputs) == 0 or len(outputs) == 0 or len(inputs) > U64 or len(outputs) > U64:
        return
    t = Transaction(inputs, outputs, 0, version)
    try:
        t.to_bytes()
    except encoding.InvalidInteger:
        assert not 0 <= version <= U32
        return
    assert 0 <= version <= U32


@theorem('C15', ID, N32, SCRIPT, N32, use=(FROM_BYTES, TO_BYTES))
def hexadecimal_input(txid, index, code, seq):
    if len(prims.script_bytes(code)) > U64:
        return
    i = Input(txid.hex(), index, Script(code), seq)
    assert i.to_hex() == i.to_bytes().hex()
    for j in (Input.from_hex(i.to_hex()), Input.from_bytes(i.to_bytes())):
        assert j.tx_id == i.tx_id and j.txo_index == i.txo_index and j.seq_number == i.seq_number
        assert prims.strictly(j.script.instructions, tuple(code))


@theorem('C15', N64, SCRIPT, use=(FROM_BYTES, TO_BYTES, CREATE_OUT))
def hexadecimal_output(amount, code):
    if len(prims.script_bytes(code)) > U64:
        return
    o = Output(amount, Script(code))
    assert o.to_hex() == o.to_bytes().hex()
    for p in (Output.from_hex(o.to_hex()), Output.from_bytes(o.to_bytes())):
        assert p.amount == o.amount
        assert prims.strictly(p.script.instructions, tuple(code))


TX_FROM = 'bitforge.transaction.transaction.Transaction.from_bytes'


@contract(TX_FROM, Bytes(), by='C15.transaction_back', note='only used for the bytes of a transaction; the classes of inputs, outputs and scripts are not specified')
def spec_tx_from(data):
    version, inputs, outputs, lock_time = prims.transaction_parts(data)
    return Transaction(inputs, outputs, lock_time, version)


@theorem('C15', INS, OUTS, N32, N32, use=(TX_BYTES, TX_FROM))
def hexadecimal(inputs, outputs, version, lock_time):
    if len(inputs) == 0 or len(outputs) == 0 or len(inputs) > U64 or len(outputs) > U64:
        return
    t = Transaction(inputs, outputs, lock_time, version)
    u = Transaction.from_hex(t.to_hex())
    assert u.version == version and u.lock_time == lock_time
    assert prims.same_parts(u.inputs, inputs)
    assert prims.same_parts(u.outputs, outputs)
