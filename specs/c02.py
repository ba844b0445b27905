"""C02: wire integers."""
from pydv.lang import *
from bitforge import encoding, tools
from bitforge.utils import intbytes
from . import prims

Buffer = tools.Buffer
U64 = 2 ** 64 - 1


def nbytes(n):
    return prims.ndigits(n, 256)


@contract('bitforge.encoding.encode_int', Int(), Bool(), Alt(OneOf(None), Int(0, 2 ** 31)))
def spec_encode_int(n, big_endian, length):
    if n < 0:
        raise encoding.InvalidInteger(n)
    if length is None:
        length = 1 if n < 256 else prims.ndigits(n, 256)
    if n >= 256 ** length and n > 0:
        raise encoding.InvalidInteger(n)
    return n.to_bytes(length, 'big' if big_endian else 'little')


@contract('bitforge.encoding.decode_int', Alt(Bytes(), BArr(), BArr(Buffer)), Bool())
def spec_decode_int(data, big_endian):
    return int.from_bytes(data, 'big' if big_endian else 'little')


@contract('bitforge.tools.Buffer.read', BArr(Buffer), Int(0))
def spec_read(self, amount):
    if len(self) < amount:
        raise Buffer.InsufficientData(len(self), amount)
    r = self[:amount]
    del self[:amount]
    return r


@contract('bitforge.encoding.encode_varint', Int(0, U64))
def spec_encode_varint(n):
    if n < 253:
        return n.to_bytes(1, 'little')
    if n < 2 ** 16:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n < 2 ** 32:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


@theorem('C02', Int(0), Bool())
def minimal_roundtrip(n, be):
    data = encoding.encode_int(n, be)
    assert type(data) is bytes
    assert encoding.decode_int(data, be) == n
    assert len(data) == (nbytes(n) if n > 0 else 1)
    assert data == n.to_bytes(len(data), 'big' if be else 'little')


@theorem('C02', Int(), Bool(), Int(0, 2 ** 31, gen_hi=300))
def fixed_roundtrip(n, be, length):
    try:
        data = encoding.encode_int(n, big_endian=be, length=length)
    except encoding.InvalidInteger:
        assert n < 0 or n >= 256 ** length
        return
    assert 0 <= n < 256 ** length
    assert type(data) is bytes
    assert len(data) == length
    assert data == n.to_bytes(length, 'big' if be else 'little')
    assert encoding.decode_int(data, big_endian=be) == n


@theorem('C02', Int(hi=-1), Bool())
def negative_refused(n, be):
    assert refused(encoding.encode_int, encoding.InvalidInteger, n, be)


@theorem('C02', Alt(Bytes(), BArr()), Bool())
def decode_value(data, be):
    n = encoding.decode_int(data, be)
    assert n == int.from_bytes(data, 'big' if be else 'little')
    assert type(n) is int


@theorem('C02', Int(0, U64), Bytes())
def varint(n, rest):
    data = encoding.encode_varint(n)
    assert type(data) is bytes
    if n < 253:
        assert data == n.to_bytes(1, 'little')
    elif n < 2 ** 16:
        assert data == b'\xfd' + n.to_bytes(2, 'little')
    elif n < 2 ** 32:
        assert data == b'\xfe' + n.to_bytes(4, 'little')
    else:
        assert data == b'\xff' + n.to_bytes(8, 'little')
    b = Buffer(data + rest)
    assert b.read_varint() == n
    assert b == rest


@theorem('C02', Alt(Int(lo=2 ** 64), Int(hi=-1)))
def varint_range(n):
    assert refused(encoding.encode_varint, encoding.InvalidInteger, n)


@theorem('C02', Bytes(), Int(0))
def buffer_read(data, k):
    b = Buffer(data)
    try:
        r = b.read(k)
    except Buffer.InsufficientData:
        assert k > len(data)
        assert b == data
        return
    assert k <= len(data)
    assert r == data[:k]
    assert b == data[k:]


@theorem('C02', Bytes(0, 9))
def read_varint_any(data):
    b = Buffer(data)
    try:
        v = b.read_varint()
    except Buffer.InsufficientData:
        need = 1
        if len(data) > 0 and data[0] == 253:
            need = 3
        if len(data) > 0 and data[0] == 254:
            need = 5
        if len(data) > 0 and data[0] == 255:
            need = 9
        assert len(data) < need
        return
    k = len(data) - len(b)
    assert b == data[k:]
    if data[0] < 253:
        assert k == 1 and v == data[0]
    elif data[0] == 253:
        assert k == 3 and v == int.from_bytes(data[1:3], 'little')
    elif data[0] == 254:
        assert k == 5 and v == int.from_bytes(data[1:5], 'little')
    else:
        assert k == 9 and v == int.from_bytes(data[1:9], 'little')


@theorem('C02', Bytes(), Bytes())
def buffer_write(a, b):
    x = Buffer(a)
    x.write(b)
    assert x == a + b


@theorem('C02', Int(0), Int(0, 70), OneOf('big', 'little'))
def intbytes_roundtrip(n, length, order):
    try:
        data = intbytes.to_bytes(n, length, order)
    except OverflowError:
        assert n >= 256 ** length
        return
    assert n < 256 ** length
    assert len(data) == length
    assert data == n.to_bytes(length, order)
    assert intbytes.from_bytes(data, order) == n


@theorem('C02', Int(0))
def intbytes_minimal(n):
    data = intbytes.int_to_bytes(n)
    assert len(data) == nbytes(n)
    assert data == n.to_bytes(nbytes(n), 'big')
    assert intbytes.int_from_bytes(data) == n
