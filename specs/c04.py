"""C04: private keys."""
import hashlib
from pydv.lang import *
from . import prims
from .c01 import dsha, CHARS
from bitforge import networks, encoding
from bitforge.privkey import PrivateKey

N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
SECRET = Int(1, N - 1)
NETWORK = OneOf(networks.livenet, networks.testnet)
WIF = {'livenet': 0x80, 'testnet': 0xEF}


@theorem('C04', Int(), NETWORK, Bool())
def range_enforced(secret, network, compressed):
    try:
        k = PrivateKey(secret, network, compressed)
    except PrivateKey.InvalidSecret:
        assert secret <= 0 or secret >= N
        return
    assert 0 < secret < N
    assert k.secret == secret
    assert k.network == network
    assert k.compressed is compressed


@theorem('C04', SECRET, OneOf('livenet', 'testnet'))
def network_by_name(secret, name):
    k = PrivateKey(secret, name)
    assert k.network.name == name
    assert k.compressed is True
    assert k.network == networks.find(name)


@theorem('C04', SECRET, Text())
def unknown_network(secret, name):
    if name == 'livenet' or name == 'testnet':
        return
    assert refused(PrivateKey, PrivateKey.UnknownNetwork, secret, name)


@theorem('C04', SECRET, NETWORK, Bool())
def bytes_roundtrip(secret, network, compressed):
    k = PrivateKey(secret, network, compressed)
    data = k.to_bytes()
    assert data == secret.to_bytes(32, 'big')
    q = PrivateKey.from_bytes(data, network, compressed)
    assert q == k
    assert type(q) is PrivateKey
    assert q.secret == secret and q.network == network and q.compressed is compressed


@theorem('C04', SECRET, NETWORK, Bool())
def hex_roundtrip(secret, network, compressed):
    k = PrivateKey(secret, network, compressed)
    text = k.to_hex()
    assert text == secret.to_bytes(32, 'big').hex()
    q = PrivateKey.from_hex(text, network, compressed)
    assert q.secret == secret and q.network == network and q.compressed is compressed
    assert q == k


@theorem('C04', SECRET, NETWORK, Bool())
def wif_roundtrip(secret, network, compressed):
    k = PrivateKey(secret, network, compressed)
    text = k.to_wif()
    payload = bytes([WIF[network.name]]) + secret.to_bytes(32, 'big') + (b'\x01' if compressed else b'')
    assert encoding.decode_base58h(text) == payload
    assert text == encoding.encode_base58h(payload)
    q = PrivateKey.from_wif(text)
    assert q.secret == secret and q.network == network and q.compressed is compressed
    assert q == k


@theorem('C04', Bytes())
def from_bytes_total(data):
    try:
        k = PrivateKey.from_bytes(data)
    except PrivateKey.InvalidBinaryLength:
        assert len(data) != 32
        return
    except PrivateKey.InvalidSecret:
        assert len(data) == 32
        v = int.from_bytes(data, 'big')
        assert v == 0 or v >= N
        return
    assert len(data) == 32
    assert k.secret == int.from_bytes(data, 'big')
    assert 0 < k.secret < N
    assert k.network == networks.livenet and k.compressed is True


def wif_payloads(g):
    p = bytes([g.r.choice([0x80, 0xEF, 0x80, 0xEF, 0, g.r.randrange(256)])])
    s = g.int(0, 2 ** 256 - 1).to_bytes(32, 'big') if g.r.random() < 0.8 else g.bytes(g.length(0, 40))
    return p + s + g.r.choice([b'', b'\x01', b'\x01', b'\x00', b'\x02', b'\x81', b'\x01\x01'])


@theorem('C04', Biased(Bytes(), wif_payloads))
def wif_payload_total(payload):
    """Every text with a correct checksum: a key exactly for the documented payloads."""
    text = encoding.encode_base58h(payload)
    n = len(payload)
    v = 0
    known = False
    comp = False
    if n == 33 or n == 34:
        v = int.from_bytes(payload[1:33], 'big')
        known = payload[0] == 0x80 or payload[0] == 0xEF
        comp = n == 33 or payload[33] == 1
    try:
        k = PrivateKey.from_wif(text)
    except PrivateKey.InvalidWifLength:
        assert n != 33 and n != 34
        return
    except PrivateKey.InvalidCompressionByte:
        assert n == 34 and not comp
        return
    except PrivateKey.UnknownNetwork:
        assert (n == 33 or n == 34) and not known
        return
    except PrivateKey.InvalidSecret:
        assert (n == 33 or n == 34) and (v == 0 or v >= N)
        return
    assert n == 33 or n == 34
    assert known and comp and 0 < v < N
    assert k.secret == v
    assert k.compressed == (n == 34)
    assert k.network is (networks.livenet if payload[0] == 0x80 else networks.testnet)


def wif_texts(g):
    return mutate(g, encoding.encode_base58h(wif_payloads(g)), CHARS)


@theorem('C04', Biased(Text(), wif_texts))
def wif_text_total(text):
    """Any text: a key whose own WIF is that text, or a documented error."""
    try:
        k = PrivateKey.from_wif(text)
    except PrivateKey.Error:
        return
    assert k.to_wif() == text
    assert 0 < k.secret < N


def hexes(g):
    return mutate(g, g.bytes(g.r.choice([31, 32, 32, 32, 33])).hex(), '0123456789abcdefABCDEFgG xX_\u00e9\u0660')


@theorem('C04', Biased(Text(), hexes))
def hex_total(text):
    ok = prims.hexvalid(text)
    try:
        k = PrivateKey.from_hex(text)
    except PrivateKey.InvalidHex:
        assert not ok
        return
    except PrivateKey.InvalidBinaryLength:
        assert ok and len(text) != 64
        return
    except PrivateKey.InvalidSecret:
        assert ok and len(text) == 64
        v = int.from_bytes(prims.unhex(text), 'big')
        assert v == 0 or v >= N
        return
    assert ok and len(text) == 64
    assert k.to_bytes() == prims.unhex(text)
