"""C16: transactions are only built from valid parts and never altered."""
from pydv.lang import *
from . import prims, c05
from .c15 import INS, OUTS, SCRIPT, ID, N32, N64, U32, U64, an_input, an_output, many
from bitforge.script.script import Script
from bitforge.transaction import Input, Output, Transaction
from bitforge.transaction import input as imod, output as omod


def parts(t, inputs, outputs, lock_time, version):
    assert type(t) is Transaction
    assert prims.strictly(t.inputs, tuple(inputs))
    assert prims.strictly(t.outputs, tuple(outputs))
    assert t.lock_time == lock_time and t.version == version


@theorem('C16', INS, OUTS, Int(), Int(), OneOf(list, tuple))
def construct(inputs, outputs, lock_time, version, shape):
    try:
        t = Transaction(shape(inputs), shape(outputs), lock_time, version)
    except Transaction.NoInputs:
        assert len(inputs) == 0
        return
    except Transaction.NoOutputs:
        assert len(outputs) == 0
        return
    except Transaction.InvalidLockTime as e:
        assert not 0 <= lock_time <= U32
        assert e.number == lock_time
        return
    assert len(inputs) > 0 and len(outputs) > 0 and 0 <= lock_time <= U32
    parts(t, inputs, outputs, lock_time, version)


@theorem('C16', INS, OUTS)
def defaults(inputs, outputs):
    if len(inputs) == 0 or len(outputs) == 0:
        return
    parts(Transaction(inputs, outputs), inputs, outputs, 0, 1)


@theorem('C16', INS, OUTS, N32)
def keeps_copies(inputs, outputs, lock_time):
    """What happens to the lists later does not change the transaction."""
    if len(inputs) == 0 or len(outputs) == 0:
        return
    a, b = list(inputs), list(outputs)
    t = Transaction(a, b, lock_time)
    a.pop()
    b.append(outputs[0])
    parts(t, inputs, outputs, lock_time, 1)


@theorem('C16', INS, INS, OUTS, N32)
def generators(first, inputs, outputs, lock_time):
    """Any iterable will do."""
    if len(inputs) == 0 or len(outputs) == 0:
        return
    t = Transaction((i for i in inputs), (o for o in outputs), lock_time)
    parts(t, inputs, outputs, lock_time, 1)


def things(g): return g.r.choice([None, 0, 1, 'x', b'', (), ('a', 0, Script(), 0), Script(), Output, Input, (1, Script())])


STRANGE = OneOf(None, 0, 1, 'x', b'', (), ('00' * 32, 0, Script(), 0), (1, Script()), Script(), Output, Input)


@theorem('C16', INS, STRANGE, INS, OUTS, N32)
def not_an_input(before, bad, after, outputs, lock_time):
    if len(outputs) == 0:
        return
    try:
        Transaction(before + [bad] + after, outputs, lock_time)
    except Transaction.NotAnInput as e:
        assert e.object is bad
        return
    assert False


@theorem('C16', INS, OUTS, STRANGE, OUTS, N32)
def not_an_output(inputs, before, bad, after, lock_time):
    if len(inputs) == 0:
        return
    try:
        Transaction(inputs, before + [bad] + after, lock_time)
    except Transaction.NotAnOutput as e:
        assert e.object is bad
        return
    assert False


@theorem('C16', INS, OUTS, INS)
def mixed_up(inputs, outputs, more):
    """An output among the inputs, and an input among the outputs."""
    if len(inputs) == 0 or len(outputs) == 0:
        return
    try:
        Transaction(inputs + [outputs[0]] + more, outputs)
        assert False
    except Transaction.NotAnInput as e:
        assert e.object is outputs[0]
    try:
        Transaction(inputs, outputs + [inputs[0]])
        assert False
    except Transaction.NotAnOutput as e:
        assert e.object is inputs[0]


@theorem('C16', INS, OUTS, INS, N32, Int())
def replace_inputs(inputs, outputs, others, lock_time, version):
    if len(inputs) == 0 or len(outputs) == 0:
        return
    t = Transaction(inputs, outputs, lock_time, version)
    try:
        u = t.replace_inputs(others)
    except Transaction.NoInputs:
        assert len(others) == 0
        parts(t, inputs, outputs, lock_time, version)
        return
    assert len(others) > 0
    parts(u, others, outputs, lock_time, version)
    parts(t, inputs, outputs, lock_time, version)
    assert u is not t


def fields(i, tx_id, index, code, seq):
    assert i.tx_id == tx_id and i.txo_index == index and i.seq_number == seq
    assert prims.strictly(i.script.instructions, tuple(code))


@theorem('C16', OneOf(Input, imod.AddressInput, imod.ScriptInput, imod.MultisigInput), ID, Int(), SCRIPT, Int(), SCRIPT)
def replace_script(cls, txid, index, code, seq, other):
    a = cls(txid.hex(), index, Script(code), seq)
    b = a.replace_script(Script(other))
    assert isinstance(b, Input) and b is not a
    fields(b, txid.hex(), index, other, seq)
    fields(a, txid.hex(), index, code, seq)
    c = a.remove_script()
    assert isinstance(c, Input) and c is not a
    fields(c, txid.hex(), index, [], seq)
    fields(a, txid.hex(), index, code, seq)


@theorem('C16', INS, OUTS, N32, N32)
def fields_are_fixed(inputs, outputs, lock_time, version):
    if len(inputs) == 0 or len(outputs) == 0:
        return
    t = Transaction(inputs, outputs, lock_time, version)
    for o, name in ((t, 'inputs'), (t, 'outputs'), (t, 'lock_time'), (t, 'version'), (t.inputs[0], 'tx_id'), (t.inputs[0], 'txo_index'),
                    (t.inputs[0], 'script'), (t.inputs[0], 'seq_number'), (t.outputs[0], 'amount'), (t.outputs[0], 'script')):
        try:
            setattr(o, name, None)
            assert False
        except AttributeError:
            pass
    parts(t, inputs, outputs, lock_time, version)
