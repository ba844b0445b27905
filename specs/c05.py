"""C05: public keys and the SEC encoding."""
from pydv.lang import *
from . import prims, c07
from bitforge import networks
from bitforge.pubkey import PublicKey
from bitforge.privkey import PrivateKey

P = prims.SECP_P
NETWORK = OneOf(networks.livenet, networks.testnet)


def on_curve(x, y):
    return (y * y - (x * x * x + 7)) % P == 0


def root(a):
    """A square root of a modulo the field prime, or None."""
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a % P else None


def point(g):
    """A random point of the curve."""
    while True:
        x = g.int(0, P - 1)
        y = root(x * x * x + 7)
        if y is not None:
            return (x, y if g.r.random() < 0.5 else (P - y) % P)


def pairs(g):
    x, y = point(g)
    k = g.r.random()
    if k < 0.4: return (x, y)
    if k < 0.5: return (x, y + g.r.choice([-1, 1]))
    if k < 0.6: return (x, y + P)
    if k < 0.7: return (x + P, y)
    if k < 0.8: return (x, y - P)
    if k < 0.9: return (x - P, y)
    return (y, x)


@theorem('C05', Biased(Tup(Int(), Int()), pairs), NETWORK, Bool())
def constructor(pair, network, compressed):
    x, y = pair
    try:
        k = PublicKey(pair, network, compressed)
    except PublicKey.InvalidPair:
        assert not (0 <= x < P and 0 <= y < P and on_curve(x, y))
        return
    assert 0 <= x < P and 0 <= y < P
    assert on_curve(x, y)
    assert k.pair == (x, y) and k.network == network and k.compressed is compressed


POINT = Biased(Tup(Int(0, P - 1), Int(0, P - 1)), point, rate=1.0)


@theorem('C05', POINT, NETWORK)
def sec_uncompressed(pair, network):
    x, y = pair
    if not on_curve(x, y):
        return
    k = PublicKey(pair, network, False)
    data = k.to_bytes()
    assert data == b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
    q = PublicKey.from_bytes(data, network)
    assert q.pair == (x, y) and q.network == network
    assert q.compressed is False
    assert q == k


@theorem('C05', POINT, NETWORK)
def sec_compressed(pair, network):
    x, y = pair
    if not on_curve(x, y):
        return
    prims.lemma_lift(x, y)
    k = PublicKey(pair, network, True)
    data = k.to_bytes()
    assert data == (b'\x03' if y % 2 == 1 else b'\x02') + x.to_bytes(32, 'big')
    q = PublicKey.from_bytes(data, network)
    assert q.pair[0] == x
    assert q.pair[1] == y
    assert q.network == network
    assert q.compressed is True


@theorem('C05', POINT, NETWORK, Bool())
def hex_form(pair, network, compressed):
    x, y = pair
    if not on_curve(x, y):
        return
    k = PublicKey(pair, network, compressed)
    assert k.to_hex() == k.to_bytes().hex()
    prims.lemma_lift(x, y)
    q = PublicKey.from_hex(k.to_hex(), network)
    assert q.pair[0] == x and q.pair[1] == y
    assert q.network == network and q.compressed is compressed


def binaries(g):
    x, y = point(g)
    k = g.r.random()
    if k < 0.2: d = bytes([2 + y % 2]) + x.to_bytes(32, 'big')
    elif k < 0.4: d = b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
    elif k < 0.5: d = bytes([2 + y % 2]) + g.int(0, 2 ** 256 - 1).to_bytes(32, 'big')
    elif k < 0.55: d = bytes([2 + y % 2]) + min(x % 2 ** 32 + P, 2 ** 256 - 1).to_bytes(32, 'big')
    elif k < 0.6: d = bytes([g.r.choice([0, 1, 4, 5, 6, 7, 8, 255])]) + x.to_bytes(32, 'big')
    elif k < 0.7: d = bytes([g.r.choice([2, 3, 5, 6, 7, 0])]) + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
    else:
        d = mutate(g, bytes([2 + y % 2]) + x.to_bytes(32, 'big'), b'') if g.r.random() < 0.5 else mutate(g, b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big'), b'')
    return d


@theorem('C05', Biased(Bytes(), binaries), NETWORK)
def from_bytes_total(data, network):
    """Any byte string: a key on the curve whose SEC form it is, or a PublicKey error."""
    try:
        k = PublicKey.from_bytes(data, network)
    except PublicKey.Error:
        return
    x, y = k.pair
    assert 0 <= x < P and 0 <= y < P and on_curve(x, y)
    assert len(data) == (33 if k.compressed else 65)
    if k.compressed:
        assert data[0] == 2 + y % 2
    else:
        assert data[0] == 4
        assert int.from_bytes(data[33:65], 'big') == y
    assert int.from_bytes(data[1:33], 'big') == x
    assert k.network == network
    assert k.to_bytes() == data


@theorem('C05', Biased(Bytes(), binaries))
def wrong_shape(data):
    ok = (len(data) == 33 and (data[0] == 2 or data[0] == 3)) or (len(data) == 65 and data[0] == 4)
    if not ok:
        assert refused(PublicKey.from_bytes, PublicKey.InvalidBinary, data)


def hexes(g):
    return mutate(g, binaries(g).hex(), '0123456789abcdefABCDEFgG xX_\u00e9\u0660')


@theorem('C05', Biased(Text(), hexes))
def from_hex_total(text):
    ok = prims.hexvalid(text)
    try:
        k = PublicKey.from_hex(text)
    except PublicKey.InvalidHex:
        assert not ok
        return
    except PublicKey.Error:
        assert ok
        return
    assert ok
    assert k.to_bytes() == prims.unhex(text)


@theorem('C05', POINT, Text())
def unknown_network(pair, name):
    try:
        k = PublicKey(pair, name)
    except PublicKey.UnknownNetwork:
        assert name != 'livenet' and name != 'testnet'
        return
    except PublicKey.InvalidPair:
        assert name == 'livenet' or name == 'testnet'
        return
    assert k.network.name == name
    assert k.compressed is True


# -- for theorems about code that only moves keys around ---------------------------------------------

TO_BYTES = 'bitforge.pubkey.PublicKey.to_bytes'
FROM_BYTES = 'bitforge.pubkey.PublicKey.from_bytes'


@contract(TO_BYTES, Is(PublicKey), by='C05.sec_')
def spec_to_bytes(self):
    return prims.sec(self.pair, self.compressed)


@contract(FROM_BYTES, Bytes(), NETWORK, by='C05.sec_')
def spec_from_bytes(bytes, network=networks.default):
    pair, compressed = prims.unsec(bytes)
    return prims.pubkey(pair, network, compressed)


FROM_PRIVATE = 'bitforge.pubkey.PublicKey.from_private_key'


@theorem('C05', c07.SECRET, NETWORK, Bool())
def from_private_key(secret, network, compressed):
    k = PublicKey.from_private_key(PrivateKey(secret, network, compressed))
    assert type(k) is PublicKey
    assert k.pair == prims.pubpair(secret) and k.network == network and k.compressed is compressed
    k = PrivateKey(secret, network, compressed).to_public_key()
    assert k.pair == prims.pubpair(secret) and k.network == network and k.compressed is compressed


@contract(FROM_PRIVATE, Is(PrivateKey), by='C05.from_private_key')
def spec_from_private(privkey):
    return prims.pubkey(prims.pubpoint(privkey.secret), privkey.network, privkey.compressed)


def key(g):
    return PublicKey(point(g), g.r.choice([networks.livenet, networks.testnet]), g.r.random() < 0.6)


KEYS = {}


def fastkey(g):
    """One of a few keys (making one is slow)."""
    k = g.r.randrange(40)
    if k not in KEYS: KEYS[k] = key(g)
    return KEYS[k]
