"""C18: input and output constructors lock to exactly the given destination."""
from pydv.lang import *
from . import prims, c05, c14
from .c07 import SECRET
from .c14 import CLASSES, CREATE, KEY, SHAPE, shapes, template, same_key
from .c15 import ID, N32, N64
from .c19 import CODE
from bitforge import networks
from bitforge.address import Address
from bitforge.privkey import PrivateKey
from bitforge.pubkey import PublicKey
from bitforge.script.script import Script, PayToPubkeyOut, PayToScriptOut, OpReturnOut, RedeemMultisig
from bitforge.transaction.input import Input, AddressInput, ScriptInput, MultisigInput
from bitforge.transaction.output import Output, AddressOutput, ScriptOutput, MultisigOutput, DataOutput

NETWORK = OneOf(networks.livenet, networks.testnet)
SEQ = N32


# ---- outputs

@theorem('C18', N64, SHAPE, use=(CREATE,))
def generic_output(amount, code):
    k = template(code)
    o = Output.create(amount, Script(code))
    assert type(o) is (AddressOutput if k == 1 else ScriptOutput if k == 3 else DataOutput if k == 4 else Output)
    assert o.amount == amount
    assert type(o.script) is (CLASSES[k] if k < 6 else Script)
    assert prims.strictly(o.script.instructions, tuple(code))


@theorem('C18', N64, Bytes(n=20), NETWORK)
def address_output(amount, phash, network):
    o = AddressOutput.create(amount, Address(phash, network, Address.Type.PublicKey))
    assert type(o) is AddressOutput and o.amount == amount
    assert type(o.script) is PayToPubkeyOut
    assert prims.script_bytes(o.script.instructions) == b'\x76\xa9\x14' + phash + b'\x88\xac'


@theorem('C18', N64, CODE)
def script_output(amount, code):
    o = ScriptOutput.create(amount, Script(code))
    assert type(o) is ScriptOutput and o.amount == amount
    assert type(o.script) is PayToScriptOut
    assert prims.script_bytes(o.script.instructions) == b'\xa9\x14' + prims.hash160(prims.script_bytes(code)) + b'\x87'


@theorem('C18', Bytes(1, 100))
def data_output(data):
    try:
        o = DataOutput.create(data)
    except DataOutput.TooMuchData as e:
        assert len(data) > 80 and e.number == len(data)
        return
    assert len(data) <= 80
    assert type(o) is DataOutput and o.amount == 0
    assert type(o.script) is OpReturnOut
    assert prims.script_bytes(o.script.instructions) == b'\x6a' + prims.push_bytes(data)


@theorem('C18', Bytes(81, 2 ** 40))
def too_much_data(data):
    refused = False
    try: DataOutput.create(data)
    except DataOutput.TooMuchData: refused = True
    assert refused


def redeem(keys, n, least):
    """The multisig script of n keys, in binary form."""
    want = b''
    for k in range(n):
        want = want + prims.push_bytes(prims.sec(keys[k].pair, keys[k].compressed))
    small = lambda v: bytes([0 if v == 0 else 80 + v])
    return small(least) + want + small(n) + b'\xae'


for _n in range(1, 17):
    PUBKEYS = Seq('pubkey', lambda g, n=_n: [c05.fastkey(g) for _ in range(n)])

    @theorem('C18', N64, PUBKEYS, Int(0, 16), use=KEY, name='multisig_output_%d' % _n)
    def multisig_output(amount, keys, least, n=_n):
        if len(keys) != n:
            return
        keys = [keys[k] for k in range(n)]
        o = MultisigOutput.create(amount, keys, least)
        assert type(o) is MultisigOutput and o.amount == amount
        assert type(o.script) is PayToScriptOut
        assert prims.script_bytes(o.script.instructions) == b'\xa9\x14' + prims.hash160(redeem(keys, n, least)) + b'\x87'

    @theorem('C18', ID, N32, PUBKEYS, Int(0, 16), SEQ, use=KEY, name='multisig_input_%d' % _n)
    def multisig_input(txid, index, keys, least, seq, n=_n):
        if len(keys) != n:
            return
        keys = [keys[k] for k in range(n)]
        i = MultisigInput.create(txid.hex(), index, keys, least, seq)
        assert type(i) is MultisigInput
        assert i.tx_id == txid.hex() and i.txo_index == index and i.seq_number == seq
        assert type(i.script) is RedeemMultisig
        assert prims.script_bytes(i.script.instructions) == redeem(keys, n, least)


# ---- inputs

@theorem('C18', ID, N32, SHAPE, SEQ, use=(CREATE,))
def generic_input(txid, index, code, seq):
    k = template(code)
    i = Input.create(txid.hex(), index, Script(code), seq)
    assert type(i) is (AddressInput if k == 0 else ScriptInput if k == 2 else Input)
    assert i.tx_id == txid.hex() and i.txo_index == index and i.seq_number == seq
    assert type(i.script) is (CLASSES[k] if k < 6 else Script)
    assert prims.strictly(i.script.instructions, tuple(code))


@theorem('C18', ID, N32, Bytes(n=20), NETWORK, SEQ)
def address_input(txid, index, phash, network, seq):
    i = AddressInput.create(txid.hex(), index, Address(phash, network, Address.Type.PublicKey), seq)
    assert type(i) is AddressInput
    assert i.tx_id == txid.hex() and i.txo_index == index and i.seq_number == seq
    assert type(i.script) is PayToPubkeyOut
    assert prims.script_bytes(i.script.instructions) == b'\x76\xa9\x14' + phash + b'\x88\xac'


@theorem('C18', ID, N32, CODE, SEQ)
def script_input(txid, index, code, seq):
    s = Script(code)
    i = ScriptInput.create(txid.hex(), index, s, seq)
    assert type(i) is ScriptInput
    assert i.tx_id == txid.hex() and i.txo_index == index and i.seq_number == seq
    assert type(i.script) is Script
    assert prims.strictly(i.script.instructions, tuple(code))


@theorem('C18', ID, N32, Bytes(n=20), SEQ)
def final_by_default(txid, index, phash, seq):
    """Without a sequence number, inputs are final."""
    a = Address(phash)
    x = txid.hex()
    for i in (AddressInput.create(x, index, a), ScriptInput.create(x, index, Script()), Input.create(x, index, PayToPubkeyOut.create(a)),
              Input(x, index, Script())):
        assert i.seq_number == 0xffffffff and i.tx_id == x and i.txo_index == index


# ---- can_sign

SIGNING = KEY + (c05.FROM_PRIVATE,)


def secret(g):
    """One of a few secrets (their public keys are slow to make)."""
    return g.r.choice([1, 2, 3, 5, 0xffff, 1 << 200])


S = Biased(SECRET, secret, rate=1)


@theorem('C18', ID, Bytes(n=20), Bool(), ListOf(Tup(S, Bool(), NETWORK), 0, 2), NETWORK, Bool(), S, use=SIGNING, weight=2)
def can_sign_address(txid, phash, own, keys, network, compressed, mine):
    if own: phash = prims.hash160(prims.sec(prims.pubpoint(mine), compressed))
    i = AddressInput.create(txid.hex(), 0, Address(phash, network))
    got = i.can_sign([PrivateKey(s, n, c) for (s, c, n) in keys])
    assert got is True or got is False
    want = len(keys) == 1 and prims.hash160(prims.sec(prims.pubpoint(keys[0][0]), keys[0][1])) == phash
    assert got == want


def signers(most):
    def f(g):
        r = g.r
        pubs = [(secret(g), r.random() < 0.5, r.choice([networks.livenet, networks.testnet])) for _ in range(r.randint(1, most))]
        k = r.random()
        if k < 0.5: privs = [r.choice(pubs) for _ in range(r.randint(0, len(pubs)))]
        else: privs = [(secret(g), r.random() < 0.5, networks.testnet) for _ in range(r.randint(0, 3))]
        if r.random() < 0.5: privs = [(s, c, r.choice([networks.livenet, networks.testnet])) for (s, c, n) in privs]
        return pubs, privs, len(privs) if r.random() < 0.8 else r.randint(0, 16)
    return f


def can_sign_multi(pubs, privs, least):
    i = MultisigInput.create('00' * 32, 0, [PrivateKey(s, n, c).to_public_key() for (s, c, n) in pubs], least)
    got = i.can_sign([PrivateKey(s, n, c) for (s, c, n) in privs])
    assert got is True or got is False
    want = len(privs) == least
    for (s, c, n) in privs:
        if not any([prims.sec(prims.pubpoint(s), c) == prims.sec(prims.pubpoint(t), d) for (t, d, m) in pubs]): want = False
    assert got == want


@theorem('C18', Native(signers(16)), bounded=True, weight=3)
def can_sign_multisig(case):
    pubs, privs, least = case
    can_sign_multi(pubs, privs, least)


for _n in range(1, 4):
    @theorem('C18', ListOf(Tup(S, Bool()), _n, _n), ListOf(Tup(S, Bool()), 0, _n), Int(0, 16), *([NETWORK] * 2 if _n < 3 else [OneOf(networks.livenet), OneOf(networks.testnet)]), use=SIGNING, budget=150, name='can_sign_multisig_%d' % _n)
    def can_sign_some(pubs, privs, least, there, here):
        can_sign_multi([(s, c, there) for (s, c) in pubs], [(s, c, here) for (s, c) in privs], least)
