"""C06: addresses."""
import hashlib
from pydv.lang import *
from . import prims, c05, c07
from .c01 import dsha, CHARS
from bitforge import networks, encoding
from bitforge.address import Address
from bitforge.pubkey import PublicKey
from bitforge.privkey import PrivateKey
from bitforge.script.script import Script
from bitforge.script.instruction import Instruction

NETWORK = OneOf(networks.livenet, networks.testnet)
KIND = OneOf(Address.Type.PublicKey, Address.Type.Script)
VERSION = {('livenet', 'PublicKey'): 0, ('livenet', 'Script'): 5, ('testnet', 'PublicKey'): 111, ('testnet', 'Script'): 196}


def rip(data):
    return hashlib.new('ripemd160', hashlib.sha256(data).digest()).digest()


@theorem('C06', Bytes(n=20), NETWORK, KIND)
def bytes_roundtrip(phash, network, kind):
    a = Address(phash, network, kind)
    assert a.phash == phash and a.network == network and a.type is kind
    data = a.to_bytes()
    assert data == bytes([VERSION[network.name, kind.name]]) + phash
    b = Address.from_bytes(data)
    assert b == a
    assert type(b) is Address
    assert b.phash == phash and b.network == network and b.type is kind


@theorem('C06', Bytes(n=20), NETWORK, KIND)
def hex_roundtrip(phash, network, kind):
    a = Address(phash, network, kind)
    text = a.to_hex()
    assert text == (bytes([VERSION[network.name, kind.name]]) + phash).hex()
    b = Address.from_hex(text)
    assert b == a
    assert b.phash == phash and b.network == network and b.type is kind


@theorem('C06', Bytes(n=20), NETWORK, KIND)
def string_roundtrip(phash, network, kind):
    a = Address(phash, network, kind)
    text = a.to_string()
    assert encoding.decode_base58h(text) == bytes([VERSION[network.name, kind.name]]) + phash
    b = Address.from_string(text)
    assert b == a
    assert b.phash == phash and b.network == network and b.type is kind


@theorem('C06', Bytes(), NETWORK, KIND)
def hash_length(phash, network, kind):
    try:
        a = Address(phash, network, kind)
    except Address.InvalidHashLength:
        assert len(phash) != 20
        return
    assert len(phash) == 20
    assert a.phash == phash


@theorem('C06', Bytes(n=20), Text(), KIND)
def unknown_network(phash, name, kind):
    try:
        a = Address(phash, name, kind)
    except Address.UnknownNetwork:
        assert name != 'livenet' and name != 'testnet'
        return
    assert a.network.name == name


@theorem('C06', Bytes(n=20), OneOf(None, 0, 1, 'pubkeyhash', 'PublicKey', b'', 5))
def bad_type(phash, kind):
    assert refused(Address, Address.InvalidType, phash, networks.livenet, kind)


def binaries(g):
    return bytes([g.r.choice([0, 5, 111, 196, g.r.randrange(256)])]) + g.bytes(g.r.choice([19, 20, 20, 20, 20, 21]))


@theorem('C06', Biased(Bytes(), binaries))
def from_bytes_total(data):
    try:
        a = Address.from_bytes(data)
    except Address.InvalidBinaryLength:
        assert len(data) != 21
        return
    except Address.InvalidVersion:
        assert len(data) == 21
        assert data[0] != 0 and data[0] != 5 and data[0] != 111 and data[0] != 196
        return
    assert len(data) == 21
    assert a.phash == data[1:]
    assert data[0] == VERSION[a.network.name, a.type.name]
    assert a.to_bytes() == data


def texts(g):
    return mutate(g, encoding.encode_base58h(binaries(g)), CHARS)


@theorem('C06', Biased(Text(), texts))
def from_string_total(text):
    try:
        a = Address.from_string(text)
    except Address.Error:
        return
    assert a.to_string() == text


@theorem('C06', Biased(Bytes(), binaries))
def string_payloads(payload):
    """Checksummed text: the error names what is wrong with the payload."""
    text = encoding.encode_base58h(payload)
    try:
        a = Address.from_string(text)
    except Address.InvalidBinaryLength:
        assert len(payload) != 21
        return
    except Address.InvalidVersion:
        assert len(payload) == 21
        return
    assert a.to_bytes() == payload


@theorem('C06', Biased(Text(), texts))
def bad_base58(text):
    try:
        data = encoding.decode_base58h(text)
    except encoding.InvalidBase58h:
        assert refused(Address.from_string, Address.InvalidBase58h, text)


def hexes(g):
    return mutate(g, binaries(g).hex(), '0123456789abcdefABCDEFgG xX_\u00e9\u0660')


@theorem('C06', Biased(Text(), hexes))
def from_hex_total(text):
    ok = prims.hexvalid(text)
    try:
        a = Address.from_hex(text)
    except Address.InvalidHex:
        assert not ok
        return
    except Address.InvalidBinaryLength:
        assert ok and len(text) != 42
        return
    except Address.InvalidVersion:
        assert ok and len(text) == 42
        return
    assert ok and len(text) == 42
    assert a.to_bytes() == prims.unhex(text)


class Serial(object):
    """Anything with a serialization: what from_public_key and from_script may rely on."""
    def __init__(self, data, network):
        self.data, self.network = data, network

    def to_bytes(self):
        return self.data


@theorem('C06', Bytes(), NETWORK)
def of_public_key(data, network):
    a = Address.from_public_key(Serial(data, network))
    assert a.phash == rip(data)
    assert a.type is Address.Type.PublicKey
    assert a.network == network


@theorem('C06', c07.SECRET, NETWORK, Bool(), use=(c05.FROM_PRIVATE, c05.TO_BYTES))
def of_keys(secret, network, compressed):
    """The address of a key, private or public."""
    k = PrivateKey(secret, network, compressed)
    p = k.to_public_key()
    for a in (k.to_address(), p.to_address()):
        assert a.phash == rip(p.to_bytes())
        assert a.type is Address.Type.PublicKey
        assert a.network == network


@theorem('C06', Bytes(), NETWORK)
def of_script(data, network):
    a = Address.from_script(Serial(data, None), network)
    assert a.phash == rip(data)
    assert a.type is Address.Type.Script
    assert a.network == network


@theorem('C06', Bytes())
def of_script_default(data):
    assert Address.from_script(Serial(data, None)).network == networks.livenet
