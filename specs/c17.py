"""C17: signing commits to the whole transaction and changes only the signed input."""
import hashlib
from pydv.lang import *
from . import prims, c05, c08, ec
from .c07 import secrets
from .c15 import INS, OUTS, SCRIPT, ID, N32, N64, U32, U64, TX_BYTES, an_input, an_output, many, u32, code as somecode
from .c18 import S, SIGNING, NETWORK, secret
from bitforge import networks
from bitforge.address import Address
from bitforge.privkey import PrivateKey
from bitforge.script.script import Script, PayToPubkeyOut, PayToPubkeyIn, PayToScriptIn
from bitforge.transaction import Input, Output, Transaction
from bitforge.transaction.input import AddressInput, ScriptInput, MultisigInput

USE = (TX_BYTES, c08.SIGN_DIGEST) + SIGNING
LOCK = N32


def stripped(i): return Input(i.tx_id, i.txo_index, Script(), i.seq_number)


def sighash(before, x, after, outputs, version, lock_time):
    """What a signature of input x with SIGHASH_ALL commits to."""
    data = prims.transaction_bytes(version, [stripped(i) for i in before] + [x] + [stripped(i) for i in after], outputs, lock_time)
    return hashlib.sha256(hashlib.sha256(data + b'\x01\x00\x00\x00').digest()).digest()


def fits(before, after, outputs): return len(before) + len(after) < U64 and 0 < len(outputs) <= U64


def rest(t, u, x, before, after, outputs, version, lock_time):
    """u is the transaction, with only the script of input x changed, and t is as it was; the new script."""
    n = len(before)
    for v in (t, u):
        assert type(v) is Transaction
        assert v.version == version and v.lock_time == lock_time
        assert prims.strictly(v.outputs, tuple(outputs))
    assert prims.strictly(t.inputs, tuple(before) + (x,) + tuple(after))
    y = u.inputs[n]
    assert isinstance(y, Input)
    assert prims.strictly(u.inputs, tuple(before) + (y,) + tuple(after))
    assert y.tx_id == x.tx_id and y.txo_index == x.txo_index and y.seq_number == x.seq_number
    return y.script


@theorem('C17', INS, INS, OUTS, ID, N32, N32, Bytes(n=20), S, Bool(), NETWORK, N32, LOCK, use=USE, weight=3)
def sign_address(before, after, outputs, txid, index, seq, phash, secret, compressed, network, version, lock_time):
    if not fits(before, after, outputs):
        return
    x = AddressInput.create(txid.hex(), index, Address(phash, network), seq)
    t = Transaction(before + [x] + after, outputs, lock_time, version)
    u = t.sign([PrivateKey(secret, network, compressed)], len(before))
    s = rest(t, u, x, before, after, outputs, version, lock_time)
    assert type(s) is PayToPubkeyIn
    sig = s.get_signature()
    pair = prims.pubpoint(secret)
    assert sig[-1:] == b'\x01'
    assert prims.is_signature(pair, sighash(before, x, after, outputs, version, lock_time), sig[:-1])
    assert prims.script_bytes(s.instructions) == prims.push_bytes(sig) + prims.push_bytes(prims.sec(pair, compressed))


def script_size(code): return len(prims.script_bytes(code))


KINDS = OneOf(ScriptInput, MultisigInput)

for _n in (0, 1, 2, 3, 4, 8, 16):
    @theorem('C17', INS, INS, OUTS, ID, N32, N32, SCRIPT, ListOf(Tup(S, Bool()), _n, _n), NETWORK if _n < 2 else OneOf(networks.testnet), N32, LOCK, KINDS if _n < 2 else OneOf(MultisigInput), use=USE, weight=2, name='sign_script_%d' % _n)
    def sign_script(before, after, outputs, txid, index, seq, code, keys, network, version, lock_time, kind):
        redeem = prims.script_bytes(code)
        if not fits(before, after, outputs) or not 0 < len(redeem) < 2 ** 32:
            return
        x = kind(txid.hex(), index, Script(code), seq)
        t = Transaction(before + [x] + after, outputs, lock_time, version)
        u = t.sign([PrivateKey(k, network, c) for (k, c) in keys], len(before))
        s = rest(t, u, x, before, after, outputs, version, lock_time)
        assert type(s) is PayToScriptIn
        sigs = s.get_signatures()
        assert len(sigs) == len(keys)
        want = b'\x00'
        h = sighash(before, x, after, outputs, version, lock_time)
        for k in range(len(keys)):
            assert sigs[k][-1:] == b'\x01'
            assert prims.is_signature(prims.pubpoint(keys[k][0]), h, sigs[k][:-1])
            want = want + prims.push_bytes(sigs[k])
        assert prims.script_bytes(s.instructions) == want + prims.push_bytes(redeem)


@theorem('C17', INS, INS, OUTS, ID, N32, N32, SCRIPT, ListOf(S, 0, 3), use=USE)
def one_key(before, after, outputs, txid, index, seq, code, keys):
    """Address inputs take exactly one key; plain inputs do not know how to sign."""
    if not fits(before, after, outputs) or script_size(code) > U64:
        return
    keys = [PrivateKey(k) for k in keys]
    refused = False
    t = Transaction(before + [AddressInput(txid.hex(), index, Script(code), seq)] + after, outputs)
    try: t.sign(keys, len(before))
    except Input.InvalidSignatureCount as e:
        refused = True
        assert e.required == 1 and e.provided == len(keys)
    assert refused == (len(keys) != 1)
    refused = False
    t = Transaction(before + [Input(txid.hex(), index, Script(code), seq)] + after, outputs)
    try: t.sign(keys, len(before))
    except Input.UnknownSignatureMethod: refused = True
    assert refused


@theorem('C17', INS, OUTS, Int(), ListOf(S, 0, 2), use=USE)
def no_such_input(inputs, outputs, k, keys):
    if not (0 < len(inputs) <= U64 and 0 < len(outputs) <= U64) or 0 <= k < len(inputs):
        return
    t = Transaction(inputs, outputs)
    refused = False
    try: t.sign([PrivateKey(x) for x in keys], k)
    except IndexError: refused = True
    assert refused


# ---- the same on complete transactions, without contracts

def cases(g):
    r = g.r
    keys = [PrivateKey(secret(g), r.choice([networks.livenet, networks.testnet]), r.random() < 0.5) for _ in range(r.randint(1, 3))]

    def unsigned():
        k = r.random()
        if k < 0.4: return AddressInput.create(g.bytes(32).hex(), u32(g), keys[0].to_address(), u32(g))
        if k < 0.6: return MultisigInput.create(g.bytes(32).hex(), u32(g), [p.to_public_key() for p in keys], len(keys), u32(g))
        if k < 0.7: return ScriptInput.create(g.bytes(32).hex(), u32(g), Script(somecode(g)), u32(g))
        return an_input(g)
    ins = [unsigned() for _ in range(r.randint(1, 4))]
    return Transaction(ins, [an_output(g) for _ in range(r.randint(1, 3))], u32(g), u32(g)), keys, r.randint(-2, len(ins) + 1)


@theorem('C17', Native(cases), bounded=True, weight=3)
def whole(case):
    t, keys, k = case
    if not 0 <= k < len(t.inputs):
        try: t.sign(keys, k)
        except IndexError: return
        assert False
    x = t.inputs[k]
    if type(x) is AddressInput: keys = keys[:1]
    redeem = prims.script_bytes(x.script.instructions)
    if type(x) is Input or (type(x) is not AddressInput and not redeem):
        return
    args = t.inputs[:k], x, t.inputs[k + 1:], t.outputs, t.version, t.lock_time
    u = t.sign(keys, k)
    s = rest(t, u, x, t.inputs[:k], t.inputs[k + 1:], t.outputs, t.version, t.lock_time)
    h = hashlib.sha256(hashlib.sha256(Transaction([i if j == k else stripped(i) for j, i in enumerate(t.inputs)], t.outputs, t.lock_time, t.version).to_bytes() + b'\1\0\0\0').digest()).digest()
    assert h == sighash(list(t.inputs[:k]), x, list(t.inputs[k + 1:]), t.outputs, t.version, t.lock_time)
    if type(x) is AddressInput:
        assert [i.data for i in s.instructions][1:] == [prims.sec(prims.pubpoint(keys[0].secret), keys[0].compressed)]
        sigs = [s.instructions[0].data]
    else:
        assert s.instructions[0].opcode.number == 0 and s.instructions[-1].data == redeem
        sigs = [i.data for i in s.instructions[1:-1]]
    assert len(sigs) == len(keys)
    for q, key in zip(sigs, keys):
        assert q[-1] == 1 and prims.is_signature(prims.pubpoint(key.secret), h, q[:-1])
    assert Transaction.from_bytes(u.to_bytes()).to_bytes() == u.to_bytes()
