"""C22: money units (a float is a real number rounded to nearest, see Interp.fround)."""
from pydv.lang import *
from bitforge.unit import Unit

MAX = 21000000 * 100000000


def amounts(g):
    r = g.r
    k = r.random()
    if k < 0.3: return r.randint(0, MAX)
    if k < 0.5: return MAX - r.randint(0, 10 ** r.randint(0, 9))
    if k < 0.7: return min(MAX, r.randint(0, 21) * 10 ** r.randint(0, 15) + r.choice([0, 1]))
    return min(MAX, (1 << r.randint(0, 50)) + r.randint(0, 3))


S = Biased(Int(0, MAX), amounts)


def stored(u, s):
    """The stored amount and its value in each unit."""
    assert type(u.satoshis) is int and u.satoshis == s
    assert u.bits == s / 100
    assert u.mbtc == s / 100000
    assert u.btc == s / 100000000


@theorem('C22', S)
def from_satoshis(s):
    stored(Unit(satoshis=s), s)
    stored(Unit(s), s)


@theorem('C22', S)
def from_float(s):
    stored(Unit(satoshis=float(s)), s)


@theorem('C22', S)
def from_bits(s):
    stored(Unit(bits=s / 100), s)


@theorem('C22', S)
def from_mbtc(s):
    stored(Unit(mbtc=s / 100000), s)


@theorem('C22', S)
def from_btc(s):
    stored(Unit(btc=s / 100000000), s)


@theorem('C22', S)
def back(s):
    u = Unit(satoshis=s)
    stored(Unit(bits=u.bits), s)
    stored(Unit(mbtc=u.mbtc), s)
    stored(Unit(btc=u.btc), s)
    stored(Unit(satoshis=u.satoshis), s)


@theorem('C22', Int(0, 21000000))
def whole_btc(n):
    stored(Unit(btc=n), n * 100000000)


@theorem('C22', Int(0, 21000000000))
def whole_mbtc(n):
    stored(Unit(mbtc=n), n * 100000)


@theorem('C22', Int(0, 21000000000000))
def whole_bits(n):
    stored(Unit(bits=n), n * 100)


CENTS = Int(0, 10 ** 15)


@theorem('C22', CENTS, Int(1, 10 ** 12), OneOf(1, 100))
def from_fiat(v, rate, unit):
    """An amount of other money is divided by the rate, in BTC."""
    u = Unit.from_fiat(v / unit, rate / unit)
    s = round((v / unit) / (rate / unit) * 100000000.0)
    assert u.satoshis == s
    assert Unit.from_fiat(v, rate).satoshis == round(v / rate * 100000000.0)


@theorem('C22', S, Int(0, 10 ** 12), OneOf(1, 100))
def at_rate(s, rate, unit):
    assert Unit(satoshis=s).at_rate(rate / unit) == (s / 100000000) * (rate / unit)
    assert Unit(satoshis=s).at_rate(rate) == (s / 100000000) * rate
