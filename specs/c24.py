"""C24: errors and network lookup."""
import importlib
import inspect
import pkgutil
import string as strings
from pydv.lang import *
import bitforge
from bitforge import networks, errors
from bitforge.errors import BitforgeError, ObjectError, StringError, NumberError, KeyValueError
from bitforge.networks import Network, UnknownNetwork, livenet, testnet
from bitforge.pubkey import PublicKey
from bitforge.privkey import PrivateKey
from bitforge.tools import Buffer
from bitforge.script.instruction import Instruction
from bitforge.script.opcode import Opcode
from bitforge.transaction.input import Input
from . import prims

for m in pkgutil.walk_packages(bitforge.__path__, 'bitforge.'):
    importlib.import_module(m.name)


def subclasses(c):
    out = []
    for s in c.__subclasses__():
        for x in [s] + subclasses(s):
            if x not in out and x.__module__.startswith('bitforge'): out.append(x)
    return out


def kind(base):
    """The errors of a kind that have a message of their own."""
    return [c for c in subclasses(base) if c.__doc__ is not None and c.prepare is base.prepare]


def pieces(doc):
    """A message as a list of texts, attribute names and sub-attribute names."""
    out = []
    for lit, field, spec, conv in strings.Formatter().parse(doc):
        out.append(('', lit))
        if field is not None:
            name, rest = strings._string.formatter_field_name_split(field)
            sub = [n for a, n in rest]
            if spec or conv or len(sub) > 1: raise ValueError(field)
            out.append((name, sub[0] if sub else ''))
    return out


MESSAGES = {}
for c in subclasses(BitforgeError):
    if c.__doc__ is not None:
        try: MESSAGES[c] = pieces(c.__doc__)
        except (ValueError, TypeError): MESSAGES[c] = None      # told apart by the native checks


def message(cls, values):
    """The message of an error with its fields filled in."""
    parts = MESSAGES[cls]
    if parts is None:
        return cls.__doc__.format(**values)
    out = ''
    for name, x in parts:
        if name == '': out = out + x
        elif x == '': out = out + str(values[name])
        else: out = out + str(getattr(values[name], x))
    return out


class Thing(object):
    """Some object; all that matters of it here is its text and its name."""
    def __init__(self, text, name): self.text, self.name = text, name
    def __repr__(self): return self.text


ANY = Alt(Obj(Thing, text=Text(), name=Text()), Int(), Text(), Bytes(), BArr(), OneOf(None, True, 3.5, (1, 2), Opcode(97), livenet))
NAMED = Obj(Thing, text=Text(), name=Text())
STRING = Alt(Text(), Bytes(), BArr())
WHY = Alt(Obj(Thing, text=Text(), name=Text()), OneOf(None, ValueError('x')))


def fine(e, cls, values, why):
    """An error shows its message, and carries its data."""
    text = message(cls, values)
    assert type(str(e)) is str and str(e) == text
    assert e.args == (text,)
    assert e.cause is why
    for k in values:
        assert prims.strictly(getattr(e, k), values[k])


def named(cls):
    return MESSAGES[cls] is not None and any(x for name, x in MESSAGES[cls] if name)


@theorem('C24', OneOf(*[c for c in kind(ObjectError) if not named(c)]), ANY, WHY, full_errors=True)
def object_error(cls, x, why):
    fine(cls(x, cause=why), cls, {'object': x}, why)
    fine(cls(x), cls, {'object': x}, None)


@theorem('C24', OneOf(*[c for c in kind(ObjectError) if named(c)] or [Opcode.WrongOpcodeType]), NAMED, WHY, full_errors=True)
def object_name_error(cls, x, why):
    fine(cls(x, cause=why), cls, {'object': x}, why)


@theorem('C24', OneOf(*kind(StringError)), STRING, WHY, full_errors=True)
def string_error(cls, s, why):
    fine(cls(s, cause=why), cls, {'string': repr(s), 'length': len(s)}, why)
    fine(cls(s), cls, {'string': repr(s), 'length': len(s)}, None)


@theorem('C24', OneOf(*kind(NumberError)), Int(), WHY, full_errors=True)
def number_error(cls, n, why):
    fine(cls(n, cause=why), cls, {'number': n}, why)
    fine(cls(n), cls, {'number': n}, None)


@theorem('C24', OneOf(*kind(KeyValueError)), Text(), ANY, WHY, full_errors=True)
def key_value_error(cls, key, value, why):
    fine(cls(key, value, cause=why), cls, {'key': key, 'value': value}, why)


@theorem('C24', OneOf(*kind(BitforgeError)), WHY, full_errors=True)
def plain_error(cls, why):
    fine(cls(cause=why), cls, {}, why)
    fine(cls(), cls, {}, None)


@theorem('C24', Int(), Int(), WHY, full_errors=True)
def insufficient_data(a, b, why):
    fine(Buffer.InsufficientData(a, b, cause=why), Buffer.InsufficientData, {'remaining': a, 'requested': b}, why)


@theorem('C24', Int(), Int(), WHY, full_errors=True)
def signature_count(a, b, why):
    fine(Input.InvalidSignatureCount(a, b, cause=why), Input.InvalidSignatureCount, {'required': a, 'provided': b}, why)


@theorem('C24', Alt(NAMED, OneOf(Opcode(0), Opcode(5), Opcode(76), Opcode(255))), Int(), Int(), WHY, full_errors=True)
def data_length(op, a, b, why):
    e = Instruction.InvalidDataLength(op, a, b, cause=why)
    fine(e, Instruction.InvalidDataLength, {'opcode': op, 'data_length': a, 'data_length_max': b}, why)


FIELDS = OneOf(*Network._fields)
OTHER = OneOf('', 'nothing', 'Name', 'pubkey', 'wif', '__nothing__')
NETS = [livenet, testnet]


def values(g):
    r = g.r
    k = r.random()
    if k < 0.8:
        x = r.choice([v for n in NETS for v in n])
        if isinstance(x, int) and r.random() < 0.2: x += r.choice([-1, 1])
        if isinstance(x, str) and r.random() < 0.2: x = x[:-1]
        return x
    return r.choice([None, '', b'livenet', 'default', 'LIVENET', -1, 1.5, g.int(-1 << 40, 1 << 40), g.text(0, 9)])


VALUE = Biased(Alt(Int(), Text(), Bytes(), OneOf(None)), values)


def expected(value, attr):
    for n in NETS:
        if attr in Network._fields and getattr(n, attr) == value:
            return n
    return None


@theorem('C24', VALUE, FIELDS, full_errors=True)
def lookup(value, attr):
    want = expected(value, attr)
    assert networks.find(value, attr, raises=False) is want
    try:
        got = networks.find(value, attr)
    except UnknownNetwork as e:
        assert want is None
        assert type(e) is UnknownNetwork
        fine(e, UnknownNetwork, {'key': attr, 'value': value}, None)
        return
    assert got is want is not None


@theorem('C24', VALUE, OTHER, full_errors=True)
def lookup_other(value, attr):
    assert networks.find(value, attr, raises=False) is None
    try:
        networks.find(value, attr)
    except UnknownNetwork as e:
        fine(e, UnknownNetwork, {'key': attr, 'value': value}, None)
        return
    assert False


@theorem('C24', OneOf(*NETS), FIELDS)
def lookup_network(n, attr):
    assert networks.find(n) is n
    assert networks.find(n, attr) is n
    assert networks.find(n, attr, raises=False) is n
    assert networks.find(getattr(n, attr), attr) is n


@theorem('C24', VALUE)
def lookup_name(value):
    assert networks.find(value, raises=False) is expected(value, 'name')


@theorem('C24')
def known():
    assert networks.default is networks.livenet
    assert networks.find('livenet') is networks.livenet and networks.find('testnet') is networks.testnet


PAIR = prims.pubpair(1)


@theorem('C24', VALUE, full_errors=True)
def public_key_network(value):
    """An unknown network of a public key is a PublicKey error and an UnknownNetwork."""
    if expected(value, 'name') is not None:
        return
    try:
        PublicKey(PAIR, value)
    except PublicKey.UnknownNetwork as e:
        assert isinstance(e, UnknownNetwork) and isinstance(e, PublicKey.Error)
        fine(e, PublicKey.UnknownNetwork, {'key': 'name', 'value': value}, None)
        return
    assert False


@theorem('C24', VALUE, full_errors=True)
def private_key_network(value):
    if expected(value, 'name') is not None:
        return
    try:
        PrivateKey(1, value)
    except PrivateKey.UnknownNetwork as e:
        assert isinstance(e, UnknownNetwork) and isinstance(e, PrivateKey.Error)
        fine(e, PrivateKey.UnknownNetwork, {'key': 'name', 'value': value}, None)
        return
    assert False
