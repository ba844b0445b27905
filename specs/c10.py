"""C10: HD key strings."""
import hashlib
from pydv.lang import *
from . import prims
from .c01 import CHARS
from .c05 import P, POINT, on_curve, point
from bitforge import networks, encoding
from bitforge.utils.encoding import EncodingError
from bitforge.privkey import PrivateKey
from bitforge.pubkey import PublicKey
from bitforge.hdprivkey import HDPrivateKey
from bitforge.hdpubkey import HDPublicKey

NETWORK = OneOf(networks.livenet, networks.testnet)
PRIV = {'livenet': 0x0488ADE4, 'testnet': 0x04358394}
PUB = {'livenet': 0x0488B21E, 'testnet': 0x043587CF}
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
U32 = Int(0, 2 ** 32 - 1)
U8 = Int(0, 255)


def layout(version, depth, parent, index, chain, key):
    return version.to_bytes(4, 'big') + bytes([depth]) + parent.to_bytes(4, 'big') + index.to_bytes(4, 'big') + chain + key


@theorem('C10', POINT, NETWORK, Bytes(n=32), U8, U32, U32)
def public_layout(pair, network, chain, depth, index, parent):
    if not on_curve(pair[0], pair[1]):
        return
    k = HDPublicKey(PublicKey(pair, network), chain, depth, index, parent, network)
    text = k.to_string()
    key = (b'\x03' if pair[1] % 2 == 1 else b'\x02') + pair[0].to_bytes(32, 'big')
    assert text == encoding.encode_base58h(layout(PUB[network.name], depth, parent, index, chain, key))


@theorem('C10', POINT, NETWORK, Bytes(n=32), U8, U32, U32)
def public_roundtrip(pair, network, chain, depth, index, parent):
    x, y = pair
    if not on_curve(x, y):
        return
    prims.lemma_lift(x, y)
    k = HDPublicKey(PublicKey(pair, network), chain, depth, index, parent, network)
    q = HDPublicKey.from_string(k.to_string())
    assert q.pubkey.pair[0] == x
    assert q.pubkey.pair[1] == y
    assert q.pubkey.network == network and q.pubkey.compressed is True
    assert q.chain == chain and q.depth == depth and q.index == index and q.parent == parent
    assert q.network == network
    assert q.fingerprint == k.fingerprint


SECRET = Int(1, N - 1)


@theorem('C10', SECRET, NETWORK, Bytes(n=32), U8, U32, U32)
def private_layout(secret, network, chain, depth, index, parent):
    k = HDPrivateKey(PrivateKey(secret, network), chain, depth, index, parent, network)
    key = b'\0' + secret.to_bytes(32, 'big')
    assert k.to_string() == encoding.encode_base58h(layout(PRIV[network.name], depth, parent, index, chain, key))


@theorem('C10', SECRET, NETWORK, Bytes(n=32), U8, U32, U32)
def private_roundtrip(secret, network, chain, depth, index, parent):
    k = HDPrivateKey(PrivateKey(secret, network), chain, depth, index, parent, network)
    q = HDPrivateKey.from_string(k.to_string())
    assert q.privkey.secret == secret
    assert q.privkey.network == network and q.privkey.compressed is True
    assert q.chain == chain and q.depth == depth and q.index == index and q.parent == parent
    assert q.network == network
    assert q.fingerprint == k.fingerprint


REFUSAL = (ValueError, EncodingError, networks.UnknownNetwork, PrivateKey.Error, PublicKey.Error)
VERSIONS = list(PRIV.values()) + list(PUB.values())


def payloads(g):
    r = g.r
    v = r.choice(VERSIONS) if r.random() < 0.9 else g.int(0, 2 ** 32 - 1)
    x, y = point(g)
    key = b'\0' + g.int(0, 2 ** 256 - 1).to_bytes(32, 'big') if r.random() < 0.5 else bytes([2 + y % 2]) + x.to_bytes(32, 'big')
    if r.random() < 0.15: key = bytes([r.choice([1, 4, 2, 3, 255])]) + key[1:]
    d = layout(v, r.randrange(256), g.int(0, 2 ** 32 - 1), g.int(0, 2 ** 32 - 1), g.bytes(32), key)
    if r.random() < 0.25: d = mutate(g, d, b'')
    return d


def texts(g):
    return mutate(g, encoding.encode_base58h(payloads(g)), CHARS)


@theorem('C10', Biased(Bytes(), payloads), budget=400)
def private_payload(data):
    """Any checksummed payload: a private key with exactly those fields, or a refusal."""
    try:
        k = HDPrivateKey.from_string(encoding.encode_base58h(data))
    except REFUSAL:
        return
    assert len(data) == 78
    version = int.from_bytes(data[0:4], 'big')
    assert k.network.name in PRIV and version == PRIV[k.network.name]
    assert k.depth == data[4]
    assert k.parent == int.from_bytes(data[5:9], 'big')
    assert k.index == int.from_bytes(data[9:13], 'big')
    assert k.chain == data[13:45]
    assert data[45] == 0
    s = int.from_bytes(data[46:78], 'big')
    assert 0 < s < N
    assert k.privkey.secret == s
    assert k.privkey.network == k.network and k.privkey.compressed is True


@theorem('C10', Biased(Bytes(), payloads), budget=400)
def public_payload(data):
    """Any checksummed payload: a public key with exactly those fields, or a refusal."""
    try:
        k = HDPublicKey.from_string(encoding.encode_base58h(data))
    except REFUSAL:
        return
    assert len(data) == 78
    version = int.from_bytes(data[0:4], 'big')
    assert k.network.name in PUB and version == PUB[k.network.name]
    assert k.depth == data[4]
    assert k.parent == int.from_bytes(data[5:9], 'big')
    assert k.index == int.from_bytes(data[9:13], 'big')
    assert k.chain == data[13:45]
    assert data[45] == 2 + k.pubkey.pair[1] % 2
    assert k.pubkey.pair[0] == int.from_bytes(data[46:78], 'big')
    assert k.pubkey.network == k.network and k.pubkey.compressed is True


@theorem('C10', Biased(Text(), texts))
def not_base58(text):
    """Text that is not Base58Check is refused."""
    try:
        encoding.decode_base58h(text)
    except encoding.InvalidBase58h:
        assert refused(HDPrivateKey.from_string, REFUSAL, text)
        assert refused(HDPublicKey.from_string, REFUSAL, text)
