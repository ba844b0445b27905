"""C23: payment URIs (the URI syntax itself is the standard library's)."""
from urllib.parse import urlparse, parse_qsl, urlencode
from pydv.lang import *
from bitforge import networks, encoding
from bitforge.address import Address
from bitforge.unit import Unit
from bitforge.uri import URI
from . import prims
from .c06 import NETWORK, KIND, binaries
from .c22 import MAX, amounts

WORDS = ['', ' ', 'a', 'Luke-Jr', 'Donation for project xyz', '50%', 'a&b=c', '#1', '?', '+', '%2B', '\u00e9\u4e2d', '\U0001f600', 'http://x/?a=b&c=d#e', ';', '\n', '/', '//', 'x' * 40,
         '0', '1.5', 'amount', '"', "'", '\x00']


def word(g):
    r = g.r
    s = r.choice(WORDS) if r.random() < 0.7 else g.text(0, 8)
    return ''.join(c for c in s if not 0xd800 <= ord(c) < 0xe000)


def some(g):
    return word(g) or 'x'


def address(g):
    return Address(g.bytes(20), g.r.choice([networks.livenet, networks.testnet]), g.r.choice(list(Address.Type)))


NAMES = ['message', 'label', 'r']


def params(g):
    r = g.r
    args = {}
    for k in NAMES:
        if r.random() < 0.4: args[k] = some(g)
    for _ in range(r.choice([0, 0, 1, 1, 2, 5])):
        k = r.choice(['other', 'req-extra', 'somethingyoudontunderstand', 'time', 'exp', 'A', 'x y', 'k\u00e9y', 'a&b']) if r.random() < 0.8 else some(g)
        if k not in ('amount', 'address', 'extras', 'to_uri') + tuple(NAMES): args[k] = some(g)
    return args


def given(g):
    s = amounts(g) if g.r.random() < 0.8 else None
    return address(g), s, params(g)


def same(u, a, s, args):
    """A URI with exactly this address, amount and these parameters."""
    assert u.address == a and type(u.address) is Address
    if s is None: assert u.amount is None
    else: assert u.amount.satoshis == s and type(u.amount.satoshis) is int
    for k in NAMES:
        assert getattr(u, k, None) == args.get(k)
    assert u.extras == {k: v for k, v in args.items() if k not in NAMES}


def arguments(a, s, args):
    d = dict(args)
    d['address'] = a.to_string()
    if s is not None: d['amount'] = s
    return d


@theorem('C23', Native(given), bounded=True, weight=3)
def roundtrip(case):
    a, s, args = case
    d = arguments(a, s, args)
    before = dict(d)
    u = URI(d)
    assert d == before
    same(u, a, s, args)
    text = u.to_uri()
    assert u.to_uri() == text
    same(u, a, s, args)
    assert URI.is_valid(text) is True
    v = URI(text)
    same(v, a, s, args)
    assert v.to_uri() == text


@theorem('C23', Native(given), bounded=True, weight=2)
def shape(case):
    """The text is a bitcoin: URI of the address, with each parameter once and the amount in plain decimal."""
    a, s, args = case
    text = URI(arguments(a, s, args)).to_uri()
    head, _, query = text.partition('?')
    assert head == 'bitcoin:' + a.to_string()
    pairs = parse_qsl(query, keep_blank_values=True, strict_parsing=bool(query))
    want = dict(args)
    if s is not None: want['amount'] = prims.decimal8(s)
    assert len(pairs) == len(want) and dict(pairs) == want
    assert all(c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~%+&=" for c in query)


@theorem('C23', Biased(Int(0, MAX), amounts))
def amount_text(s):
    """The text of an amount is its plain decimal form, and reads back as the amount."""
    u = make(URI, {'address': Where('1x'), 'amount': Unit(satoshis=s), 'extras': {}})
    text = u.to_uri()
    assert text == 'bitcoin:1x?' + urlencode([('amount', prims.decimal8(s))])
    assert Unit(btc=float(prims.decimal8(s))).satoshis == s


class Where(object):
    """What to_uri may rely on of an address."""
    def __init__(self, text): self.text = text
    def to_string(self): return self.text


KEYS = ['message', 'label', 'r', 'other', 'req-x', 'A']
VALUE = Text(lo=1)


def filled(has, values):
    args = {}
    for k in range(6):
        if has[k]: args[KEYS[k]] = values[k]
    return args


def round_trip(a, s, args):
    d = dict(args)
    d['address'] = a.to_string()
    if s is not None: d['amount'] = s
    u = URI(d)
    parts_of(u, a, s, args)
    text = u.to_uri()
    want = sorted(args.items())
    if s is not None: want = sorted(list(args.items()) + [('amount', prims.decimal8(s))])
    assert text == 'bitcoin:' + a.to_string() + ('?' + urlencode(want) if want else '')
    v = URI(text)
    parts_of(v, a, s, args)
    parts_of(u, a, s, args)
    assert v.to_uri() == text


PART = Biased(VALUE, some, rate=1)
S = Biased(Int(0, MAX), amounts)


@theorem('C23', Bytes(n=20), NETWORK, KIND, Alt(S, OneOf(None)), Bool(), PART, budget=150)
def roundtrip_addresses(phash, network, kind, s, labelled, label):
    """Round trip for every address and amount, with and without a parameter."""
    round_trip(Address(phash, network, kind), s, {'label': label} if labelled else {})


@theorem('C23', Bytes(n=20), S, Tup(*[Bool()] * 5), Tup(*[PART] * 6), budget=150)
def roundtrip_parameters(phash, s, has, values):
    """Round trip with any of the known parameters and of two others, for all non-empty values."""
    round_trip(Address(phash, networks.livenet, Address.Type.PublicKey), s, filled(has + (False,), values))


@theorem('C23', Bytes(n=20), S, Tup(*[Bool()] * 5), Tup(*[PART] * 6), budget=150)
def roundtrip_more_parameters(phash, s, has, values):
    """The same with one more."""
    round_trip(Address(phash, networks.livenet, Address.Type.PublicKey), s, filled(has + (True,), values))


def parts_of(u, a, s, args):
    assert u.address == a and type(u.address) is Address
    if s is None: assert u.amount is None
    else: assert type(u.amount) is Unit and u.amount.satoshis == s
    extras = 0
    for k in KEYS:
        if k in args:
            if k in NAMES: assert getattr(u, k) == args[k] and k not in u.extras
            else:
                assert u.extras[k] == args[k]
                extras += 1
        elif k in NAMES: assert getattr(u, k, None) is None
    assert len(u.extras) == extras


def numeric(t):
    """A finite number."""
    try: x = float(t)
    except ValueError: return False
    return x - x == 0


def texts(g):
    r = g.r
    k = r.random()
    if k < 0.05: return g.text(0, 12)
    if k < 0.1: return r.choice(['', 'bitcoin', 'bitcoin:', 'bitcoin:?', 'bitcoin://', 'bitcoin:///', '//[', 'bitcoin://[', 'bitcoin://[::1', 'http://]', 'bitcoin:?amount=1', 'litecoin:', ':', '?', '#'])
    t = address(g).to_string() if r.random() < 0.8 else encoding.encode_base58h(binaries(g))
    if r.random() < 0.1: t = mutate(g, t, 'abc01/:?#')
    scheme = r.choice(['bitcoin:', 'bitcoin:', 'bitcoin:', 'bitcoin://', 'BITCOIN:', 'Bitcoin:', 'litecoin:', 'http:', '', 'bitcoin', ' bitcoin:'])
    q = []
    if r.random() < 0.7:
        n = r.choice(['1', '0', '1.5', '-1', '1e3', '1e400', 'nan', 'inf', '-inf', '', 'x', '1,5', '0x10', '1_0', ' 1', '1e-9', '.5', '5.', '20.3X8', '1' * 400, '\u0661', '1e308', '9' * 308, '1e300', '1.7e300'])
        q.append('amount=' + n)
    for _ in range(r.choice([0, 0, 1, 2])):
        q.append(r.choice(['label=x', 'message=%41', 'r=http://a/b', 'req-foo=1', 'amount=2', 'amount=y', 'address=x', 'address=' + t, 'label', 'label=', '=x', '&', '%', '%zz=1', 'x=%ff', 'amount', 'amount=',
                           'extras=1', 'to_uri=1', '__class__=1', 'self=1']))
    r.shuffle(q)
    s = scheme + t + ('?' + '&'.join(q) if q else '')
    if r.random() < 0.1: s += r.choice(['#', '#x', ';', '&', '?', '\n', ' ', '\x00', '[', '//'])
    return s


@theorem('C23', Native(texts), bounded=True, weight=3)
def validity(text):
    """What is accepted; nothing makes is_valid raise."""
    ok = URI.is_valid(text)
    assert ok is True or ok is False
    try:
        p = urlparse(text)
        good = p.scheme == 'bitcoin'
        query = dict(parse_qsl(p.query))
        where = p.path or p.netloc
    except ValueError:
        assert not ok
        return
    try: Address.from_string(where)
    except Address.Error: good = False
    if 'amount' in query:
        good = good and numeric(query['amount'])
        if good and abs(float(query['amount'])) >= 1e299: return        # not decided here: near the end of the float range
    assert ok is good
    if good:
        u = URI(text)
        assert u.address.to_string() == where
        if 'amount' in query: assert u.amount.satoshis == round(float(query['amount']) * 100000000)
        else: assert u.amount is None
