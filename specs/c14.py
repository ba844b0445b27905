"""C14: standard templates are recognised exactly and their fields recovered."""
from pydv.lang import *
from . import prims, refscript, c05, c19
from .c19 import CODE, instruction, push_of
from bitforge import networks
from bitforge.address import Address
from bitforge.script.opcode import Opcode
from bitforge.script.instruction import Instruction
from bitforge.script import script as module
from bitforge.script.script import Script, PayToPubkeyIn, PayToPubkeyOut, PayToScriptIn, PayToScriptOut, OpReturnOut, RedeemMultisig

CLASSES = [PayToPubkeyIn, PayToPubkeyOut, PayToScriptIn, PayToScriptOut, OpReturnOut, RedeemMultisig]
WHERE = 'bitforge.script.script.'


def shapes(g):
    """Sequences close to the templates."""
    r = g.r
    op = lambda n: Instruction(Opcode(n))

    def push():
        k = r.random()
        if k < 0.6: return push_of(g.bytes(r.choice([1, 2, 20, 33, 65, 71, 75])))
        n = r.choice([76, 77, 78])
        return Instruction(Opcode(n), g.bytes(r.choice([0, 1, 20, 33, 76, 100])))
    num = lambda: op(r.choice([0, 81, 82, 96, 96, 80, 79, 97]))
    code = r.choice([
        lambda: [push(), push()], lambda: [op(118), op(169), push(), op(136), op(172)], lambda: [op(0)] + [push() for _ in range(r.randint(0, 4))],
        lambda: [op(169), push(), op(135)], lambda: [op(106), push()], lambda: [num()] + [push() for _ in range(r.randint(0, 4))] + [num(), op(r.choice([174, 174, 174, 175]))],
        lambda: [], lambda: [push()], lambda: [num(), num(), op(174)]])()
    if r.random() < 0.3 and code:
        k = r.randrange(len(code))
        code[k:k + 1] = r.choice([lambda: [], lambda: [code[k], code[k]], lambda: [push()], lambda: [num()], lambda: [instruction(g)]])()
    return code


SHAPE = Seq('instr', shapes)

for _k, _cls in enumerate(CLASSES):
    @contract(WHERE + _cls.__name__ + '.is_valid', Is(Script), by='C14.valid_%d' % _k)
    def spec_valid(script, k=_k):
        return prims.matches(k, script.instructions)

    @theorem('C14', SHAPE, name='valid_%d' % _k)
    def valid(code, k=_k):
        got = CLASSES[k].is_valid(Script(code))
        assert got is True or got is False
        assert got == prims.pattern(k, code)

VALID = tuple(WHERE + c.__name__ + '.is_valid' for c in CLASSES)
CREATE = WHERE + 'Script.create'


def template(code):
    """The first template that fits, or 6."""
    for k in range(6):
        if prims.matches(k, code):
            return k
    return 6


@theorem('C14', SHAPE, use=VALID)
def classify(code):
    k = template(code)
    got = Script.classify(Script(code))
    assert got is (CLASSES[k] if k < 6 else None)


@theorem('C14', SHAPE, use=VALID)
def create(code):
    k = template(code)
    got = Script.create(code)
    assert type(got) is (CLASSES[k] if k < 6 else Script)
    assert prims.strictly(got.instructions, tuple(code))


@contract(CREATE, SHAPE, by='C14.create')
def spec_create(instructions):
    k = template(instructions)
    return (CLASSES[k] if k < 6 else Script)(instructions)


# -- what the constructors build ---------------------------------------------------------------------

BLOB = Bytes(1, 2 ** 32 - 1, big=True)
KEY = (c05.TO_BYTES, c05.FROM_BYTES)


def same_key(a, b):
    return a.pair[0] == b.pair[0] and a.pair[1] == b.pair[1] and a.compressed == b.compressed


def settled(s, cls):
    """A script of this class stays one through classification and serialization."""
    assert type(s) is cls
    assert cls.is_valid(s) is True
    assert Script.classify(s) is cls
    again = Script.from_bytes(s.to_bytes())
    assert type(again) is cls
    assert prims.strictly(again.instructions, s.instructions)
    return again


@theorem('C14', Seq('pubkey', lambda g: [c05.fastkey(g)]), BLOB, use=KEY, inline=())
def pay_to_pubkey_in(keys, signature):
    if len(keys) != 1:
        return
    s = PayToPubkeyIn.create(keys[0], signature)
    assert prims.script_bytes(s.instructions) == prims.push_bytes(signature) + prims.push_bytes(prims.sec(keys[0].pair, keys[0].compressed))
    for t in (s, settled(s, PayToPubkeyIn)):
        assert t.get_signature() == signature
        assert same_key(t.get_public_key(), keys[0])


@theorem('C14', Bytes(n=20), OneOf(networks.livenet, networks.testnet), OneOf(Address.Type.PublicKey, Address.Type.Script))
def pay_to_pubkey_out(phash, network, kind):
    s = PayToPubkeyOut.create(Address(phash, network, kind))
    assert prims.script_bytes(s.instructions) == b'\x76\xa9\x14' + phash + b'\x88\xac'
    for t in (s, settled(s, PayToPubkeyOut)):
        assert t.get_address_hash() == phash


@theorem('C14', CODE)
def pay_to_script_out(code):
    s = PayToScriptOut.create(Script(code))
    h = prims.hash160(prims.script_bytes(code))
    assert prims.script_bytes(s.instructions) == b'\xa9\x14' + h + b'\x87'
    assert s.is_script_hash_out() is True
    for t in (s, settled(s, PayToScriptOut)):
        assert t.get_script_hash() == h


@theorem('C14', BLOB)
def op_return(data):
    s = OpReturnOut.create(data)
    assert prims.script_bytes(s.instructions) == b'\x6a' + prims.push_bytes(data)
    for t in (s, settled(s, OpReturnOut)):
        assert t.get_data() == data


SIGNATURE = Bytes(1, 75)
SIZES = range(1, 17)

for _n in SIZES:
    @theorem('C14', CODE, ListOf(SIGNATURE, _n, _n), use=(CREATE,), name='pay_to_script_in_%d' % _n)
    def pay_to_script_in(code, signatures, n=_n):
        inner = Script(code)
        blob = prims.script_bytes(code)
        if not 0 < len(blob) < 2 ** 32:
            return
        s = PayToScriptIn.create(inner, signatures)
        want = b'\x00'
        for x in signatures:
            want = want + prims.push_bytes(x)
        assert prims.script_bytes(s.instructions) == want + prims.push_bytes(blob)
        assert type(s) is PayToScriptIn
        assert PayToScriptIn.is_valid(s) is True
        assert Script.classify(s) is PayToScriptIn      # reading it back: C11.parse_serialized and C14.create
        assert s.get_signatures() == signatures
        if n in (1, 2, 16):
            assert prims.strictly(s.get_script().instructions, tuple(code))

    @theorem('C14', Seq('pubkey', lambda g, n=_n: [c05.fastkey(g) for _ in range(n)]), Int(0, 16), use=KEY, name='redeem_multisig_%d' % _n)
    def redeem_multisig(keys, least, n=_n):
        if len(keys) != n:
            return
        keys = [keys[k] for k in range(n)]
        s = RedeemMultisig.create(keys, least)
        want = b''
        for k in range(n):
            want = want + prims.push_bytes(prims.sec(keys[k].pair, keys[k].compressed))
        small = lambda v: bytes([0 if v == 0 else 80 + v])
        assert prims.script_bytes(s.instructions) == small(least) + want + small(n) + b'\xae'
        for t in (s, settled(s, RedeemMultisig)):
            assert t.get_min_signatures() == least
            got = t.get_public_keys()
            assert len(got) == n
            for k in range(n):
                assert same_key(got[k], keys[k])
