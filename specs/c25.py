"""C25: the low-level WIF and address helpers."""
from pydv.lang import *
from . import prims
from .c01 import dsha, near_texts
from .c06 import rip
from bitforge.utils import encoding as uenc

PREFIX = Bytes(1, 1)
SECRET = Int(0, 2 ** 256 - 1)


def text58(data):
    """Base58Check."""
    s = prims.canon(data + dsha(data)[:4])
    return prims.digits(58, prims.leading(s, 256), int.from_bytes(s, 'big')).decode('ascii')


def payload(secret, compressed, prefix):
    return prefix + secret.to_bytes(32, 'big') + (b'\x01' if compressed else b'')


@theorem('C25', Bytes())
def checked(data):
    """Base58Check text and its parsing."""
    text = uenc.b2a_hashed_base58(data)
    assert text == text58(data)
    assert uenc.a2b_hashed_base58(text) == data
    assert uenc.is_hashed_base58_valid(text) is True


@theorem('C25', Bytes(), Int(0, 3), Int(1, 255))
def checksum(data, pos, delta):
    """Another checksum is refused."""
    c = bytearray(dsha(data)[:4])
    c[pos] = (c[pos] + delta) % 256
    s = prims.canon(data + bytes(c))
    text = prims.digits(58, prims.leading(s, 256), int.from_bytes(s, 'big')).decode('ascii')
    assert uenc.is_hashed_base58_valid(text) is False
    for f in (uenc.a2b_hashed_base58, uenc.bitcoin_address_to_hash160_sec, uenc.wif_to_secret_exponent):
        assert refused(f, uenc.EncodingError, text)
    assert uenc.is_valid_wif(text) is False
    assert uenc.is_valid_bitcoin_address(text) is False


@theorem('C25', SECRET, Bool(), PREFIX)
def wif(secret, compressed, prefix):
    """WIF text, and what is read from it."""
    text = uenc.secret_exponent_to_wif(secret, compressed, prefix)
    assert text == text58(payload(secret, compressed, prefix))
    assert uenc.wif_to_tuple_of_prefix_secret_exponent_compressed(text) == (prefix, secret, compressed)
    assert uenc.wif_to_tuple_of_secret_exponent_compressed(text, [prefix]) == (secret, compressed)
    assert uenc.wif_to_secret_exponent(text, [prefix]) == secret
    assert uenc.is_valid_wif(text, [prefix]) is True
    assert uenc.is_valid_wif(text) is (prefix == b'\x80')
    try: uenc.wif_to_tuple_of_secret_exponent_compressed(text)
    except uenc.EncodingError: assert prefix != b'\x80'
    else: assert prefix == b'\x80'


@theorem('C25', SECRET)
def wif_defaults(secret):
    assert uenc.secret_exponent_to_wif(secret) == text58(payload(secret, True, b'\x80'))


@theorem('C25', Alt(Int(2 ** 256, None), Int(None, -1)))
def wif_range(secret):
    """Secrets that do not fit are refused, never truncated."""
    assert refused(uenc.secret_exponent_to_wif, (OverflowError, ValueError), secret)


@theorem('C25', Bytes(20, 20), PREFIX)
def address(h, prefix):
    """Address text, and what is read from it."""
    text = uenc.hash160_sec_to_bitcoin_address(h, prefix)
    assert text == text58(prefix + h)
    known = prefix == b'\x00' or prefix == b'\x6f'
    try: r = uenc.bitcoin_address_to_hash160_sec_with_prefix(text)
    except uenc.EncodingError: assert not known
    else: assert known and r == (h, prefix)
    try: r = uenc.bitcoin_address_to_hash160_sec(text, prefix)
    except uenc.EncodingError: assert not known
    else: assert known and r == h
    try: r = uenc.bitcoin_address_to_hash160_sec(text)
    except uenc.EncodingError: assert prefix != b'\x00'
    else: assert prefix == b'\x00' and r == h
    assert uenc.is_valid_bitcoin_address(text) is (prefix == b'\x00')
    assert uenc.is_valid_bitcoin_address(text, b'\x6f') is (prefix == b'\x6f')
    assert uenc.hash160_sec_to_bitcoin_address(h) == text58(b'\x00' + h)


def lengths(g):
    return g.bytes(g.r.choice([0, 1, 19, 20, 21, 22, 25, 33]))


@theorem('C25', Biased(Bytes(), lengths))
def address_length(data):
    """Payloads of any other length are not addresses."""
    if len(data) == 21: return
    text = text58(data)
    assert uenc.is_valid_bitcoin_address(text) is False
    assert uenc.is_valid_bitcoin_address(text, b'\x6f') is False
    assert refused(uenc.bitcoin_address_to_hash160_sec_with_prefix, uenc.EncodingError, text)


@theorem('C25', Biased(Text(), near_texts))
def not_base58(text):
    """Text that is not Base58 is refused."""
    try: raw = text.encode('utf8')
    except UnicodeEncodeError: return
    if prims.valid58(raw): return
    assert uenc.is_hashed_base58_valid(text) is False
    assert uenc.is_valid_wif(text) is False
    assert uenc.is_valid_bitcoin_address(text) is False


@theorem('C25', SECRET, SECRET, Bool(), PREFIX)
def of_pair(x, y, compressed, prefix):
    """The address of a public pair."""
    sec = bytes([2 + y % 2]) + x.to_bytes(32, 'big') if compressed else b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
    assert uenc.public_pair_to_sec((x, y), compressed) == sec
    assert uenc.public_pair_to_hash160_sec((x, y), compressed) == rip(sec)
    assert uenc.public_pair_to_bitcoin_address((x, y), compressed, prefix) == text58(prefix + rip(sec))
