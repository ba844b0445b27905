"""C03: script numbers."""
from pydv.lang import *
from bitforge import encoding
from . import prims


def magnitude_bytes(n):
    """Bytes of the minimal sign-magnitude form of n != 0: the magnitude plus a sign bit."""
    v = n if n >= 0 else -n
    k = prims.ndigits(v, 256)
    return k + 1 if v >= 128 * 256 ** (k - 1) else k


def ref_encode(n):
    if n == 0:
        return b''
    k = magnitude_bytes(n)
    v = n if n >= 0 else -n
    if n < 0:
        v += 128 * 256 ** (k - 1)
    return v.to_bytes(k, 'little')


def ref_value(data):
    """Sign-magnitude value of a byte string."""
    n = len(data)
    if n == 0:
        return 0
    v = int.from_bytes(data, 'little')
    top = 128 * 256 ** (n - 1)
    if data[n - 1] >= 128:
        return -(v - top)
    return v


def num_minimal(data):
    """The last byte is needed: it has value bits, or its sign bit would clash with the byte before."""
    n = len(data)
    if n == 0:
        return True
    top = data[n - 1]
    if top == 0 or top == 0x80:
        return n > 1 and data[n - 2] >= 0x80
    return True


def num_value(data):
    return ref_value(data)


def num_bytes(n):
    return ref_encode(n)


OPAQUE = {num_minimal: 'bool', num_value: 'int', num_bytes: 'bytes'}      # for theorems that need not look inside


@contract('bitforge.encoding.encode_script_number', Int(), lenient=True)
def spec_encode_script_number(integer):
    return bytearray(num_bytes(integer))


@contract('bitforge.encoding.decode_script_number', Bytes(), Alt(Bool(), Int()), Int(0))
def spec_decode_script_number(data, minimal, size):
    if len(data) > size:
        raise encoding.InvalidScriptNumber(data)
    if minimal and not num_minimal(data):
        raise encoding.InvalidMinimalScriptNumber(data)
    return num_value(data)


@theorem('C03', Int())
def encode_form(n):
    data = encoding.encode_script_number(n)
    assert bytes(data) == ref_encode(n)


@theorem('C03', Int(), Bool(), two=True, pow_consts={256: [3, 4]})
def roundtrip_default(n, minimal):
    data = bytes(encoding.encode_script_number(n))
    try:
        v = encoding.decode_script_number(data, minimal)
    except encoding.InvalidScriptNumber:
        assert not (-2 ** 31 < n < 2 ** 31)
        return
    assert -2 ** 31 < n < 2 ** 31
    assert v == n


@theorem('C03', Int(), Bool(), Int(0), two=True)
def roundtrip_size(n, minimal, size):
    data = bytes(encoding.encode_script_number(n))
    try:
        v = encoding.decode_script_number(data, minimal, size)
    except encoding.InvalidScriptNumber:
        assert len(data) > size
        return
    assert len(data) <= size
    assert v == n


@theorem('C03', Bytes(), Int(0))
def decode_loose(data, size):
    try:
        v = encoding.decode_script_number(data, False, size)
    except encoding.InvalidScriptNumber:
        assert len(data) > size
        return
    assert len(data) <= size
    assert v == ref_value(data)


@theorem('C03', Bytes(), Int(0))
def decode_minimal(data, size):
    """With minimality required exactly the minimal encodings are accepted."""
    minimal = True
    if len(data) > 0:
        top = data[len(data) - 1]
        if top == 0 or top == 128:
            minimal = len(data) > 1 and data[len(data) - 2] >= 128
    try:
        v = encoding.decode_script_number(data, True, size)
    except encoding.InvalidScriptNumber:
        assert len(data) > size
        return
    except encoding.InvalidMinimalScriptNumber:
        assert len(data) <= size
        assert not minimal
        return
    assert len(data) <= size
    assert minimal
    assert v == ref_value(data)


@theorem('C03', Bytes(), two=True)
def minimal_is_the_encoding(data):
    """What minimal decoding accepts is what encoding produces."""
    try:
        v = encoding.decode_script_number(data, True, len(data))
    except encoding.InvalidMinimalScriptNumber:
        return
    assert bytes(encoding.encode_script_number(v)) == data


@theorem('C03', Bytes(), Bool())
def limit_default(data, minimal):
    try:
        encoding.decode_script_number(data, minimal)
    except encoding.InvalidScriptNumber:
        assert len(data) > 4
        return
    except encoding.InvalidMinimalScriptNumber:
        assert minimal
        assert len(data) <= 4
        return
    assert len(data) <= 4
