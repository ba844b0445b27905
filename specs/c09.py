"""C09: HD derivation (BIP32)."""
import hashlib
import hmac
from pydv.lang import *
from . import prims, c05, c07, ec
from .c10 import NETWORK, U8, U32, N, POINT, on_curve
from .c18 import S
from bitforge import networks
from bitforge.privkey import PrivateKey
from bitforge.pubkey import PublicKey
from bitforge.hdprivkey import HDPrivateKey
from bitforge.hdpubkey import HDPublicKey

HARD = 2 ** 31
CHAIN = Bytes(n=32)


def indexes(g): return g.r.choice([0, 1, 2, 255, 256, 65536, HARD - 1, HARD, HARD + 1, 2 ** 32 - 1, g.r.randint(0, 2 ** 32 - 1)])


INDEX = Biased(U32, indexes)
MUL, ADD = c07.MUL, c07.ADD


def hmac512(key, data): return hmac.new(key, data, hashlib.sha512).digest()
def number(data): return int.from_bytes(data, 'big')
def fingerprint(pair): return number(prims.hash160(prims.sec(pair, True))[:4])


def fields(k, chain, depth, index, parent, network, pair):
    assert k.chain == chain and k.depth == depth and k.index == index and k.parent == parent and k.network == network
    assert k.fingerprint == fingerprint(pair)


PRIVATE = (c05.TO_BYTES, c05.FROM_PRIVATE)


@theorem('C09', S, NETWORK, CHAIN, U8, U32, U32, INDEX, Bool(), use=PRIVATE)
def private_child(secret, network, chain, depth, index, parent, child, hardened):
    k = HDPrivateKey(PrivateKey(secret, network), chain, depth, index, parent, network)
    n = child + HARD if hardened and child < HARD else child
    pair = prims.pubpoint(secret)
    key = b'\0' + secret.to_bytes(32, 'big') if n >= HARD else prims.sec(pair, True)
    i = hmac512(chain, key + n.to_bytes(4, 'big'))
    il = number(i[:32])
    if il >= N or (il + secret) % N == 0:
        return
    c = k.derive(child, hardened)
    assert type(c) is HDPrivateKey and type(c.privkey) is PrivateKey
    assert c.privkey.secret == (il + secret) % N and c.privkey.network == network and c.privkey.compressed is True
    fields(c, i[32:], depth + 1, n, fingerprint(pair), network, prims.pubpoint((il + secret) % N))
    fields(k, chain, depth, index, parent, network, pair)


@theorem('C09', POINT, NETWORK, CHAIN, U8, U32, U32, Biased(Int(0, HARD - 1), lambda g: indexes(g) % HARD), use=(c05.TO_BYTES, MUL, ADD))
def public_child(pair, network, chain, depth, index, parent, child):
    if not on_curve(pair[0], pair[1]):
        return
    k = HDPublicKey(PublicKey(pair, network), chain, depth, index, parent, network)
    i = hmac512(chain, prims.sec(pair, True) + child.to_bytes(4, 'big'))
    il = number(i[:32])
    if il >= N:
        return
    want = prims.point_sum(prims.pubpair(il), pair) if il else pair
    if want is None:
        return
    c = k.derive(child)
    assert type(c) is HDPublicKey and type(c.pubkey) is PublicKey
    assert c.pubkey.pair == want and c.pubkey.network == network and c.pubkey.compressed is True
    fields(c, i[32:], depth + 1, child, fingerprint(pair), network, want)
    fields(k, chain, depth, index, parent, network, pair)


@theorem('C09', POINT, NETWORK, CHAIN, U8, U32, U32, INDEX, Bool(), use=(c05.TO_BYTES, MUL, ADD))
def public_hardened(pair, network, chain, depth, index, parent, child, hardened):
    if not on_curve(pair[0], pair[1]) or not (hardened or child >= HARD):
        return
    k = HDPublicKey(PublicKey(pair, network), chain, depth, index, parent, network)
    refused = False
    try: k.derive(child, hardened)
    except ValueError: refused = True
    assert refused


@theorem('C09', S, NETWORK, CHAIN, U8, U32, U32, use=PRIVATE)
def public_half(secret, network, chain, depth, index, parent):
    k = HDPrivateKey(PrivateKey(secret, network), chain, depth, index, parent, network)
    p = k.to_hd_public_key()
    assert type(p) is HDPublicKey
    pair = prims.pubpoint(secret)
    assert p.pubkey.pair == pair and p.pubkey.network == network and p.pubkey.compressed is True
    fields(p, chain, depth, index, parent, network, pair)


@theorem('C09', S, NETWORK, CHAIN, U8, U32, U32, Biased(Int(0, HARD - 1), lambda g: indexes(g) % HARD), use=PRIVATE + (MUL, ADD))
def commute(secret, network, chain, depth, index, parent, child):
    """The public child of the public key is the public key of the private child."""
    k = HDPrivateKey(PrivateKey(secret, network), chain, depth, index, parent, network)
    il = number(hmac512(chain, prims.sec(prims.pubpair(secret), True) + child.to_bytes(4, 'big'))[:32])
    if il == 0 or il >= N or (il + secret) % N == 0:
        return
    prims.lemma_homomorphism(il, secret)
    a = k.derive(child).to_hd_public_key()
    b = k.to_hd_public_key().derive(child)
    assert a.pubkey.pair == b.pubkey.pair and a.pubkey.network == b.pubkey.network and a.pubkey.compressed is True and b.pubkey.compressed is True
    assert a.chain == b.chain and a.depth == b.depth and a.index == b.index and a.parent == b.parent and a.network == b.network
    assert a.fingerprint == b.fingerprint


@theorem('C09', Bytes(0, 200), use=PRIVATE)
def master(seed):
    refused = False
    i = hmac512(b'Bitcoin seed', seed)
    s = number(i[:32])
    try: k = HDPrivateKey.from_seed(seed)
    except ValueError: refused = True
    except PrivateKey.InvalidSecret:
        assert s == 0 or s >= N
        return
    assert refused == (len(seed) < 32)
    if not refused:
        assert k.privkey.secret == s and k.privkey.compressed is True and k.privkey.network == networks.default
        fields(k, i[32:], 0, 0, 0, networks.default, prims.pubpoint(s))


def chains(g):
    return secret(g), g.r.choice([networks.livenet, networks.testnet]), g.bytes(32), [indexes(g) for _ in range(g.r.randint(1, 3))]


from .c18 import secret


@theorem('C09', Native(chains), bounded=True, weight=3)
def whole(case):
    """Derivation paths against the reference arithmetic, through strings."""
    secret, network, chain, path = case
    k = HDPrivateKey(PrivateKey(secret, network), chain, network=network)
    d = 0
    for n in path:
        q = ec.jmul(secret, ec.G)
        key = b'\0' + secret.to_bytes(32, 'big') if n >= HARD else prims.sec(q, True)
        i = hmac512(chain, key + n.to_bytes(4, 'big'))
        f = fingerprint(q)
        p = k.to_hd_public_key()
        if n < HARD: b = HDPublicKey.from_string(p.to_string()).derive(n)
        k = HDPrivateKey.from_string(k.to_string()).derive(n)
        d += 1
        secret, chain = (number(i[:32]) + secret) % N, i[32:]
        assert k.privkey.secret == secret
        fields(k, chain, d, n, f, network, ec.jmul(secret, ec.G))
        if n < HARD: assert k.to_hd_public_key() == b and k.to_hd_public_key().to_string() == b.to_string()
