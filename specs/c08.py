"""C08: ECDSA signatures."""
import functools
import hashlib
import hmac
from pydv.lang import *
from . import prims, ec
from .c05 import POINT, on_curve
from .c07 import secrets, SECRET, MUL, ADD, INV
from .c21 import strict
from bitforge import networks
from bitforge.privkey import PrivateKey
from bitforge.utils import ecdsa
from ecdsa import SigningKey, SECP256k1, BadSignatureError
from ecdsa.util import sigencode_der_canonize, sigdecode_der
from bitforge.utils.secp256k1 import generator_secp256k1 as GEN

N = ec.N


def digests(g):
    r = g.r
    k = r.random()
    if k < 0.4: return g.bytes(32)
    if k < 0.7: return r.choice([0, 1, 2, N - 1, N, N + 1, 2 ** 256 - 1, 2 ** 255, ec.P]).to_bytes(32, 'big')
    return (1 << r.randint(0, 255)).to_bytes(32, 'big')


def nonce(x, h):
    """RFC 6979 section 3.2 with SHA-256, for secp256k1 (q of 256 bits): x the secret, h the 32-byte digest."""
    return nonce_from(*seeded(x, int.from_bytes(h, 'big')))


def mac(k, d): return hmac.new(k, d, hashlib.sha256).digest()


def seeded(x, z):
    """Steps b to g."""
    data = x.to_bytes(32, 'big') + (z if z < N else z - N).to_bytes(32, 'big')
    v, k = b'\x01' * 32, b'\x00' * 32
    k = mac(k, v + b'\x00' + data)
    v = mac(k, v)
    k = mac(k, v + b'\x01' + data)
    return k, mac(k, v)


def nonce_from(k, v):
    """Step h."""
    while True:
        v = mac(k, v)
        n = int.from_bytes(v, 'big')
        if 1 <= n < N: return n
        k = mac(k, v + b'\x00')
        v = mac(k, v)


def equation(q, z, r, s):
    """The ECDSA verification equation, r and s in range."""
    w = pow(s, -1, N)
    u, v = ec.jmul(z * w % N, ec.G), ec.jmul(r * w % N, q)
    p = ec.add(u, v)
    return p is not None and p[0] % N == r


def genuine(x, h):
    """A signature made by the reference arithmetic."""
    k = nonce(x, h)
    r = ec.jmul(k, ec.G)[0] % N
    s = pow(k, -1, N) * (int.from_bytes(h, 'big') + x * r) % N
    return r, s


SIGN = Native(lambda g: (secrets(g), digests(g)))


@theorem('C08', Native(lambda g: (secrets(g), digests(g))), bounded=True, weight=1)
def nonces(case):
    x, h = case
    assert ecdsa.deterministic_generate_k(N, x, int.from_bytes(h, 'big')) == nonce(x, h)


@theorem('C08', SIGN, bounded=True, weight=2)
def signing(case):
    x, h = case
    z = int.from_bytes(h, 'big')
    r, s = ecdsa.sign(GEN, x, z)
    assert (r, s) == genuine(x, h)
    assert 1 <= r < N and 1 <= s < N
    assert ecdsa.verify(GEN, ec.jmul(x, ec.G), z, (r, s)) is True


@theorem('C08', SIGN, bounded=True, weight=1)
def recovery(case):
    """The public pairs recovered from a signature verify it; the signer's is among them."""
    x, h = case
    z = int.from_bytes(h, 'big')
    q = ec.jmul(x, ec.G)
    r, s = genuine(x, h)
    for t in (s, N - s):
        found = ecdsa.possible_public_pairs_for_signature(GEN, z, (r, t))
        assert q in found and len(found) == 2
        assert all(equation(u, z, r, t) for u in found)


def attempts(g):
    """A public pair, a digest and a pair of numbers that may be a signature of it."""
    r = g.r
    x, h = secrets(g), digests(g)
    q = ec.jmul(x, ec.G)
    z = int.from_bytes(h, 'big')
    a, b = genuine(x, h)
    k = r.random()
    if k < 0.2: pass
    elif k < 0.3: b = N - b
    elif k < 0.5: a, b = r.choice([(0, b), (a, 0), (N, b), (a, N), (a + N, b), (a, b + N), (-a, b), (a, -b), (a - N, b), (a, b - N), (N - a, b), (0, 0), (b, a), (1, 1)])
    elif k < 0.7: a, b = a ^ (1 << r.randrange(256)), b
    elif k < 0.8: a, b = a, b ^ (1 << r.randrange(256))
    elif k < 0.9: z = z ^ (1 << r.randrange(256))
    elif k < 0.95: q = ec.jmul(secrets(g), ec.G)
    else:
        # a signature whose point is infinity: z + r * x = 0
        z = -a * x % N
        b = r.randint(1, N - 1)
    return q, z, a, b


@theorem('C08', Native(attempts), bounded=True, weight=3)
def verification(case):
    q, z, r, s = case
    want = 1 <= r < N and 1 <= s < N and equation(q, z, r, s)
    assert ecdsa.verify(GEN, q, z, (r, s)) is want


# ---- the same for all inputs, over the contracts of the point arithmetic and of the modular inverse

def times(k, q):
    """The k-th multiple of a point, None for infinity."""
    return prims.multiple(q[0], q[1], k % N) if k % N else None


def plus(u, v):
    return v if u is None else u if v is None else prims.point_sum(u, v)


def holds(q, z, r, s):
    """The ECDSA equation of X9.62, for r and s in range."""
    w = prims.inverse(s, N)
    p = plus(times(z * w, ec.G), times(r * w, q))
    return p is not None and p[0] % N == r


@theorem('C08', POINT, Int(), Int(), Int(), use=(MUL, ADD, INV), linear=True)
def verify_all(q, z, r, s):
    """verify() is the equation, for every public pair, number and pair of numbers."""
    if not on_curve(q[0], q[1]):
        return
    got = ecdsa.verify(GEN, q, z, (r, s))
    want = 1 <= r < N and 1 <= s < N and holds(q, z, r, s)
    assert got is want


class Rounds(object):
    """Loop facts: for two of the byte strings, the rest of RFC 6979 from them is the rest from what they were at first."""
    @staticmethod
    def candidates(it, n, entry, head, rope, info):
        from pydv.loops import Cand
        from pydv.core import Eq
        from pydv.prims import nonce_term, unfold_nonce, bytes_of
        ctx = it.ctx
        seqs = [sl for sl in head.d if head.d[sl][0] in ('bytes', 'hbytes') and ctx.rlen(bytes_of(entry, sl).rope) == 32]

        def same(s, a, b, first):
            if s.head: unfold_nonce(it, bytes_of(s, a), bytes_of(s, b))
            return Eq(nonce_term(it, bytes_of(s, a), bytes_of(s, b)), first)

        for a in seqs:
            for b in seqs:
                if a != b: yield Cand(('rounds', a, b), functools.partial(same, a=a, b=b, first=nonce_term(it, bytes_of(entry, a), bytes_of(entry, b))))


@theorem('C08', SECRET, Int(0, 2 ** 256 - 1), plugin=Rounds, endless=True,
         partial='the rounds of RFC 6979 end with probability 1 (each fails with probability 2**-128)')
def nonces_all(x, z):
    """The nonce is that of RFC 6979."""
    assert ecdsa.deterministic_generate_k(N, x, z) == prims.nonce_from(*seeded(x, z))


NONCE = 'bitforge.utils.ecdsa.deterministic_generate_k'


@contract(NONCE, OneOf(N), SECRET, Int(0, 2 ** 256 - 1), by='C08.nonces_all')
def spec_nonce(generator_order, secret_exponent, val):
    prims.require(generator_order == N and 0 < secret_exponent < N and 0 <= val < 2 ** 256)
    return prims.nonce(secret_exponent, val)


def made(x, z, name=lambda v: v):
    """The signature with the nonce of RFC 6979, None if there is none."""
    k = prims.nonce(x, z)
    r = name(prims.pubpair(k)[0] % N)
    s = name(prims.inverse(k, N) * (z + x * r % N) % N)
    return (r, s) if r and s else None


@theorem('C08', SECRET, Int(0, 2 ** 256 - 1), use=(MUL, INV, NONCE), linear=True)
def sign_all(x, z):
    """sign() gives that signature."""
    want = made(x, z)
    try: got = ecdsa.sign(GEN, x, z)
    except RuntimeError: got = None
    if want is None:
        assert got is None
        return
    r, s = got
    assert r == want[0] and s == want[1]
    assert 1 <= r < N and 1 <= s < N


VERIFY, SIGN_PAIR = 'bitforge.utils.ecdsa.verify', 'bitforge.utils.ecdsa.sign'


@contract(VERIFY, OneOf(GEN), POINT, Int(), Tup(Int(), Int()), by='C08.verify_all')
def spec_verify(generator, public_pair, val, signature):
    prims.require(on_curve(public_pair[0], public_pair[1]))
    r, s = signature
    return 1 <= r < N and 1 <= s < N and holds(public_pair, val, r, s)


@contract(SIGN_PAIR, OneOf(GEN), SECRET, Int(0, 2 ** 256 - 1), by='C08.sign_all')
def spec_sign_pair(generator, secret_exponent, val):
    p = made(secret_exponent, val, prims.name)
    if p is None: raise RuntimeError()
    return p


@theorem('C08', SECRET, Int(0, 2 ** 256 - 1), use=(VERIFY, SIGN_PAIR), linear=True)
def accepted(x, z):
    """The verifier accepts what the signer made."""
    try: r, s = ecdsa.sign(GEN, x, z)
    except RuntimeError: return
    k = prims.nonce(x, z)
    e = z + x * r % N
    prims.lemma_inverses(k, e, s)                       # e / s = k
    w = prims.inverse(s, N)
    prims.lemma_prime(r, w)
    prims.lemma_multiple(x, r * w % N)                  # (r / s) Q = (r / s * x) G
    t = (r * w % N) * x % N
    prims.lemma_mod(z * w % N + t, w * e)
    if z * w % N:
        prims.lemma_homomorphism(z * w % N, t)
    assert ecdsa.verify(GEN, prims.pubpair(x), z, (r, s)) is True


# ---- PrivateKey.sign and verify

def number(d):
    """The DER form of a non-negative integer."""
    b = d.to_bytes(d.bit_length() // 8 + 1, 'big')
    return b'\x02' + bytes([len(b)]) + b


def der(r, s):
    body = number(r) + number(s)
    return b'\x30' + bytes([len(body)]) + body


def parts(sig):
    """r and s of a strict DER signature without hash type."""
    a = sig[3]
    return int.from_bytes(sig[4:4 + a], 'big'), int.from_bytes(sig[6 + a:], 'big')


def is_signature(pair, digest, sig):
    if not strict(sig + b'\x01'): return False
    r, s = parts(sig)
    return 1 <= r < N and 1 <= s <= N // 2 and equation(pair, int.from_bytes(digest, 'big'), r, s)


KEY = lambda g: PrivateKey(secrets(g), g.r.choice([networks.livenet, networks.testnet]), g.r.random() < 0.5)


@theorem('C08', Native(lambda g: (KEY(g), digests(g), digests(g), g.r.randrange(10 ** 9))), bounded=True, weight=4)
def private_key(case):
    key, h, other, seed = case
    sig = key.sign(h)
    assert isinstance(sig, bytes) and strict(sig + b'\x01')
    r, s = parts(sig)
    assert 1 <= r < N and 1 <= s <= N // 2
    assert equation(ec.jmul(key.secret, ec.G), int.from_bytes(h, 'big'), r, s)
    assert key.verify(sig, h) is True
    if other != h and (int.from_bytes(h, 'big') - int.from_bytes(other, 'big')) % N:
        assert key.verify(sig, other) is False
    i = seed % len(sig)
    bad = sig[:i] + bytes([sig[i] ^ (1 << seed % 8)]) + sig[i + 1:]
    assert key.verify(bad, h) is False


def spoiled(g):
    r = g.r
    key, h = KEY(g), digests(g)
    a, b = genuine(key.secret, h)
    sig = der(a, b)
    k = r.random()
    if k < 0.15: return key, h, sig, True
    if k < 0.25: return key, h, der(a, N - b), True
    if k < 0.35: return key, h, r.choice([b'', b'\x30', b'\x30\x00', sig[:r.randrange(len(sig))], sig + b'\x00', sig[1:], b'\x00' * 70, b'\x30\x80', b'\x30\x82', b'\x30\x06\x02\x01\x00\x02\x01\x00', b'\x30\x02\x02\x00', b'\x30\x04\x02\x00\x02\x00', b'\x30\x03\x02\x01']), False
    if k < 0.6: return key, h, der(*r.choice([(0, b), (a, 0), (N, b), (a, N), (a + N, b), (a, b + N), (N - a, b), (b, a), (1, 1), (0, 0)])), None
    if k < 0.8:
        i = r.randrange(len(sig))
        return key, h, sig[:i] + bytes([r.randrange(256)]) + sig[i + 1:], None
    return key, h, mutate(g, sig, b''), None


@theorem('C08', Native(spoiled), bounded=True, weight=4)
def altered(case):
    """Only proper signatures of the digest are accepted, and nothing else raises."""
    key, h, sig, want = case
    got = key.verify(sig, h)
    assert got is True or got is False
    if want is not None:
        assert got is want
        return
    if not strict(sig + b'\x01'):
        assert got is False
        return
    r, s = parts(sig)
    assert got is (1 <= r < N and 1 <= s < N and equation(ec.jmul(key.secret, ec.G), int.from_bytes(h, 'big'), r, s))


# the third-party ecdsa package, as PrivateKey uses it

class Verifier(object):
    """Assumed contract of ecdsa.VerifyingKey."""
    def __init__(self, pair): self.pair = pair
    def __getattr__(self, name): prims.require(False)       # nothing is assumed about the rest

    def verify_digest(self, signature, digest, sigdecode=None):
        prims.require(len(digest) == 32 and sigdecode is sigdecode_der and strict(signature + b'\x01'))
        if prims.verifies(self.pair, digest, signature): return True
        raise BadSignatureError


class Signer(object):
    """Assumed contract of ecdsa.SigningKey."""
    def __init__(self, secret): self.secret = secret
    def __getattr__(self, name): prims.require(False)

    def sign_digest(self, digest, entropy=None, sigencode=None, k=None):
        prims.require(len(digest) == 32 and entropy is None and sigencode is sigencode_der_canonize and k is None)
        pair, sig = prims.pubpoint(self.secret), prims.some_bytes(8, 72)
        prims.assume(strict(sig + b'\x01') and prims.is_signature(pair, digest, sig) and prims.verifies(pair, digest, sig))
        return sig

    def get_verifying_key(self):
        return Verifier(prims.pubpoint(self.secret))

    def __eq__(self, other):
        """Native comparison with the real key."""
        pair = prims.pubpoint(self.secret)
        for k in range(6):
            h = hashlib.sha256(b'%d %d' % (self.secret, k)).digest()
            sig = other.sign_digest(h, sigencode=sigencode_der_canonize)
            a, b = genuine(self.secret, h)
            for t in (sig, der(a, b), der(a, N - b), der(b, a), der(a, b + N), der(0, b), der(N, 1), der(a, 0)):
                try: got = other.get_verifying_key().verify_digest(t, h, sigdecode=sigdecode_der)
                except BadSignatureError: got = False
                if got is not prims.verifies(pair, h, t): return False
            if not is_signature(pair, h, sig): return False
        return True


KEY_OF = 'ecdsa.keys.SigningKey.from_secret_exponent'


@contract(KEY_OF, OneOf(SigningKey), SECRET, OneOf(SECP256k1),
          assume='the ecdsa package: signing gives strict DER, low-s signatures that verify; verification of strict DER decides the ECDSA equation')
def spec_key(klass, secexp, curve):
    return Signer(secexp)


NETS = OneOf(networks.livenet, networks.testnet)
SIG = Bytes(8, 72)


@theorem('C08', SECRET, NETS, Bool(), Bytes(n=32), use=(KEY_OF,))
def private_key_signs(x, network, compressed, digest):
    """What sign makes is a strict, low-s signature of the digest under the key's point, and verify accepts it."""
    key = PrivateKey(x, network, compressed)
    sig = key.sign(digest)
    assert prims.is_signature(prims.pubpoint(x), digest, sig)
    assert PrivateKey(x, network, compressed).verify(sig, digest) is True


@theorem('C08', SECRET, NETS, Bool(), Bytes(n=32), Bytes(), use=(KEY_OF,))
def private_key_verifies(x, network, compressed, digest, sig):
    """verify decides, for every byte string, whether it is a strict signature of the digest; it never raises."""
    got = PrivateKey(x, network, compressed).verify(sig, digest)
    if strict(sig + b'\x01'):
        assert got is True or got is False
        assert got == prims.verifies(prims.pubpoint(x), digest, sig)
    else:
        assert got is False


SIGN_DIGEST = 'bitforge.privkey.PrivateKey.sign'


@contract(SIGN_DIGEST, Is(PrivateKey), Bytes(n=32), by='C08.private_key_signs')
def spec_sign(self, message):
    prims.require(len(message) == 32)
    sig = prims.some_bytes(8, 72)
    prims.assume(prims.is_signature(prims.pubpoint(self.secret), message, sig))
    return sig
