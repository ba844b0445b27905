"""C01: Base58Check."""
import hashlib
from pydv.lang import *
from . import prims
from bitforge import encoding
from bitforge.utils import encoding as uenc


def dsha(data):
    return hashlib.sha256(hashlib.sha256(data).digest()).digest()


@contract('bitforge.utils.encoding.b2a_base58', Bytes(), explicit_digits=True)
def spec_b2a(s):
    s = prims.canon(s)
    return prims.digits(58, prims.leading(s, 256), int.from_bytes(s, 'big')).decode('ascii')


@contract('bitforge.utils.encoding.a2b_base58', Text(), explicit_digits=True)
def spec_a2b(s):
    data = prims.canon(s.encode('utf8'))
    if not prims.valid58(data):
        raise uenc.EncodingError()
    return prims.digits(256, prims.leading(data, 58), prims.val58(data))


@contract('bitforge.utils.encoding.double_sha256', Alt(Bytes(), BArr()))
def spec_dsha(data):
    return hashlib.sha256(hashlib.sha256(data).digest()).digest()


@theorem('C01', Bytes())
def roundtrip(data):
    text = encoding.encode_base58h(data)
    assert type(text) is str
    assert encoding.decode_base58h(text) == data


@theorem('C01', Bytes())
def form(data):
    text = encoding.encode_base58h(data)
    payload = data + dsha(data)[:4]
    raw = text.encode('ascii')
    assert prims.valid58(raw)
    assert prims.val58(raw) == int.from_bytes(payload, 'big')
    assert prims.leading(raw, 58) == prims.leading(payload, 256)


CHARS = prims.ALPHABET.decode() + '0OIl +\n\t_-\u00e9\ud800'


def near_texts(g):
    data = g.bytes(g.length(0, 40))
    s = data + dsha(data)[:4]
    t = prims.digits(58, prims.leading(s, 256), int.from_bytes(s, 'big')).decode()
    return t if g.r.random() < 0.2 else mutate(g, t, CHARS)


@theorem('C01', Bytes(), Int(0, 3), Int(1, 255))
def checksum_enforced(data, pos, delta):
    c = bytearray(dsha(data)[:4])
    c[pos] = (c[pos] + delta) % 256
    s = prims.canon(data + bytes(c))
    text = prims.digits(58, prims.leading(s, 256), int.from_bytes(s, 'big')).decode('ascii')
    assert refused(encoding.decode_base58h, encoding.InvalidBase58h, text)


@theorem('C01', Biased(Text(), near_texts))
def only_encodings(text):
    try:
        data = encoding.decode_base58h(text)
    except encoding.InvalidBase58h:
        return
    assert type(data) is bytes
    assert encoding.encode_base58h(data) == text
