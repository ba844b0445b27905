"""C21: strict DER signatures (BIP66)."""
from pydv.lang import *
from bitforge.signature import validate_signature


def proper(s):
    """A DER integer body that is not negative and has no needless leading zero byte (bytes s, len(s) > 0)."""
    if s[0] >= 0x80:
        return False
    return not (len(s) > 1 and s[0] == 0 and s[1] < 0x80)


def strict(sig):
    """BIP66: 0x30 [total] 0x02 [len R] [R] 0x02 [len S] [S] [hash type]."""
    n = len(sig)
    if n < 9 or n > 73:
        return False
    if sig[0] != 0x30 or sig[1] != n - 3 or sig[2] != 0x02:
        return False
    r = sig[3]
    if r == 0 or 5 + r >= n:
        return False
    if sig[4 + r] != 0x02:
        return False
    s = sig[5 + r]
    if s == 0 or r + s + 7 != n:
        return False
    return proper(sig[4:4 + r]) and proper(sig[6 + r:6 + r + s])


def integer(g):
    k = g.r.choice([0, 1, 1, 2, 3, 20, 31, 32, 33, 33, 34])
    d = g.bytes(k)
    if k and g.r.random() < 0.5: d = bytes([g.r.choice([0, 0, 1, 0x7f, 0x80, 0xff])]) + d[1:]
    if k > 1 and g.r.random() < 0.5: d = d[:1] + bytes([g.r.choice([0, 0x7f, 0x80, 0xff])]) + d[2:]
    return d


def signatures(g):
    a, b = integer(g), integer(g)
    d = b'\x30' + bytes([len(a) + len(b) + 4]) + b'\x02' + bytes([len(a)]) + a + b'\x02' + bytes([len(b)]) + b + g.bytes(1)
    k = g.r.random()
    if k < 0.4: return d
    if k < 0.7: return mutate(g, d, b'')
    i = g.r.choice([0, 1, 2, 3, 4 + len(a), 5 + len(a)])
    v = g.r.choice([0, 2, 0x30, d[i] ^ 0x80, (d[i] + 1) % 256, (d[i] - 1) % 256, g.r.randrange(256)])
    return d[:i] + bytes([v]) + d[i + 1:]


@theorem('C21', Biased(Bytes(), signatures))
def strict_der(sig):
    assert validate_signature(sig) is strict(sig)


@theorem('C21', Biased(BArr(), lambda g: bytearray(signatures(g))))
def strict_der_bytearray(sig):
    before = bytes(sig)
    assert validate_signature(sig) is strict(before)
    assert bytes(sig) == before


@theorem('C21', Biased(Bytes(1, 33), integer), Biased(Bytes(1, 33), integer), Bytes(n=1))
def of_integers(r, s, kind):
    """Any pair of DER integers of at most 33 bytes makes a signature exactly when both are minimal and positive."""
    if not (1 <= len(r) <= 33 and 1 <= len(s) <= 33):
        return
    sig = bytes([0x30, 4 + len(r) + len(s), 0x02, len(r)]) + r + bytes([0x02, len(s)]) + s + kind
    assert validate_signature(sig) is (proper(r) and proper(s) and len(sig) >= 9)
