"""Specification language: domains of inputs, theorems and contracts.

A theorem is a Python function whose `assert` statements are the obligations.  It is executed symbolically (every
path, every input of the domains) by the verifier, and natively on generated inputs to replay counterexamples and
to cross-check the verifier against CPython.
"""
import importlib
import inspect
import random

THEOREMS = {}       # id -> Theorem
CONTRACTS = {}      # target -> Contract


class Skip(Exception):
    """A generated input is outside the domain."""


class Gen(object):
    """Source of generated inputs."""
    def __init__(self, seed, ints=(), blobs=(), texts=()):
        self.r = random.Random(seed)
        self.ints = list(ints)
        self.blobs = list(blobs)
        self.texts = list(texts)

    def int(self, lo, hi):
        r = self.r
        k = r.random()
        if lo is not None and hi is not None and hi - lo <= 300 and k < 0.5: return r.randint(lo, hi)
        if k < 0.15:
            es = [x for x in (lo, None if lo is None else lo + 1, hi, None if hi is None else hi - 1, 0, 1) if x is not None]
            v = r.choice(es)
        elif k < 0.35:
            v = (1 << r.choice([0, 1, 7, 8, 15, 16, 23, 24, 31, 32, 40, 48, 56, 63, 64, 127, 128, 160, 255, 256, r.randint(0, 300)])) + r.randint(-2, 2)
        elif k < 0.6 and self.ints:
            v = r.choice(self.ints) + r.choice([0, 0, -1, 1])
        elif k < 0.7:
            v = r.randint(0, 300)
        elif lo is not None and hi is not None and k < 0.85:
            v = r.randint(lo, hi)
        else:
            v = r.getrandbits(r.randint(1, 280))
        if (lo is None or lo < 0) and r.random() < 0.4: v = -v
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            if lo is not None and hi is not None: v = lo + (v - lo) % (hi - lo + 1)
            elif lo is not None: v = lo + abs(v - lo)
            else: v = hi - abs(v - hi)
        return v

    def length(self, lo, hi, big=False):
        r = self.r
        k = r.random()
        if hi is not None and hi == lo: return lo
        if k < 0.2: n = lo
        elif k < 0.55: n = lo + r.randint(0, 12)
        elif k < 0.85:
            c = [x for x in self.ints if lo <= x <= 1100]
            n = (r.choice(c) + r.choice([0, 0, -1, 1])) if c else r.randint(lo, lo + 80)
        elif k < 0.97: n = lo + r.randint(0, 90)
        else: n = r.choice([252, 253, 254, 255, 256, 257, 300, 519, 520, 521, 600]) if not big else r.choice([65535, 65536, 65537, 1000, 10000, 10001])
        n = max(lo, n)
        if hi is not None: n = min(hi, n)
        return n

    def bytes(self, n):
        r = self.r
        k = r.random()
        if k < 0.35: b = bytes(r.getrandbits(8) for _ in range(n))
        elif k < 0.45: b = bytes(n)
        elif k < 0.55: b = b'\xff' * n
        elif k < 0.7:
            z = r.randint(0, n)
            b = bytes(z) + bytes(r.getrandbits(8) for _ in range(n - z))
        elif k < 0.8:
            z = r.randint(0, n)
            b = bytes(r.getrandbits(8) for _ in range(n - z)) + bytes(z)
        elif k < 0.9:
            pal = [0, 1, 2, 0x7f, 0x80, 0x81, 0xff, r.getrandbits(8)]
            b = bytes(r.choice(pal) for _ in range(n))
        else:
            b = bytes(r.getrandbits(8) for _ in range(n))
            pool = [x for x in self.blobs if 0 < len(x) <= n]
            if pool:
                x = r.choice(pool)
                at = r.choice([0, n - len(x), r.randint(0, n - len(x))])
                b = b[:at] + x + b[at + len(x):]
        if n and r.random() < 0.15:
            small = [x for x in self.ints if 0 <= x <= 255]
            at = r.choice([0, n - 1, r.randrange(n)])
            v = r.choice(small) if small else r.getrandbits(8)
            b = b[:at] + bytes([v]) + b[at + 1:]
        return b

    def text(self, lo, hi):
        r = self.r
        n = self.length(lo, hi if hi is not None else 60)
        k = r.random()
        if k < 0.3: al = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
        elif k < 0.5: al = '0123456789abcdefABCDEF'
        elif k < 0.7: al = ''.join(chr(c) for c in range(32, 127))
        elif k < 0.8: al = '01lIO +&=%?#;:/\t\n'
        else: al = 'a1\x00\x7f\x80\u00e9\u4e2d\U0001F600\ud800'
        s = ''.join(r.choice(al) for _ in range(n))
        if self.texts and r.random() < 0.15: s = r.choice(self.texts)[:hi]
        return s if len(s) >= lo else s + 'x' * (lo - len(s))


# ----------------------------------------------------------------------------------------------
# domains (the symbolic side is attached in pydv.unit)

class Dom(object):
    def gen(self, g): raise NotImplementedError


class Int(Dom):
    def __init__(self, lo=None, hi=None, gen_hi=None):
        self.lo, self.hi = lo, hi
        self.gen_hi = hi if gen_hi is None else gen_hi      # generated inputs stay below this
    def gen(self, g): return g.int(self.lo, self.gen_hi)


class Bool(Dom):
    def gen(self, g): return g.r.random() < 0.5


class Bytes(Dom):
    def __init__(self, lo=0, hi=None, n=None, big=False):
        self.lo, self.hi, self.n, self.big = lo, hi, n, big
        if n is not None: self.lo = self.hi = n
    def gen(self, g): return g.bytes(g.length(self.lo, self.hi, self.big and g.r.random() < 0.3))


class BArr(Bytes):
    """bytearray or a subclass of it."""
    def __init__(self, cls=bytearray, lo=0, hi=None, n=None, big=False):
        Bytes.__init__(self, lo, hi, n, big)
        self.cls = cls
    def gen(self, g): return self.cls(Bytes.gen(self, g))


class Text(Dom):
    def __init__(self, lo=0, hi=None): self.lo, self.hi = lo, hi
    def gen(self, g): return g.text(self.lo, self.hi)


class OneOf(Dom):
    def __init__(self, *vals): self.vals = vals
    def gen(self, g): return g.r.choice(self.vals)


class Alt(Dom):
    def __init__(self, *doms): self.doms = doms
    def gen(self, g): return g.r.choice(self.doms).gen(g)


class Tup(Dom):
    """A tuple with the given component domains."""
    def __init__(self, *doms): self.doms = doms
    def gen(self, g): return tuple(d.gen(g) for d in self.doms)


class ListOf(Dom):
    """A list of known length range (each length is a case)."""
    def __init__(self, elem, lo, hi, as_tuple=False, hi_gen=None):
        self.elem, self.lo, self.hi, self.as_tuple = elem, lo, hi, as_tuple
        self.hi_gen = hi if hi_gen is None else hi_gen
    def gen(self, g):
        n = g.r.randint(self.lo, self.hi_gen)
        xs = [self.elem.gen(g) for _ in range(n)]
        return tuple(xs) if self.as_tuple else xs


class Stack(Dom):
    """A list of any length: each length below k, and any longer one with an opaque part below the top k elements.
    Elements are byte strings (of='bytes') or booleans (of='bool')."""
    def __init__(self, k, elem, of='bytes', gen_hi=None, base=True):
        self.k, self.elem, self.of, self.base = k, elem, of, base
        self.gen_hi = k + 2 if gen_hi is None else gen_hi
    def gen(self, g):
        n = g.r.randint(0, self.gen_hi) if g.r.random() < 0.9 else self.k
        return [self.elem.gen(g) for _ in range(n)]


class Is(Dom):
    """Any instance of a class, whatever its fields (only for contracts that are used at calls)."""
    def __init__(self, cls): self.cls = cls
    def has(self, it, v): return issubclass(it.pytype(v), self.cls)


class Seq(Dom):
    """A list of any length of elements of a kind the verifier knows (KINDS in pydv.unit)."""
    def __init__(self, of, gen): self.of, self.fn = of, gen

    def has(self, it, v):
        from . import loops
        if it.pytype(v) not in (list, tuple): return False
        return loops.members(it, it.lrope(v), it.unit.kinds[self.of])

    def gen(self, g): return self.fn(g)


class Obj(Dom):
    """An instance of a class with the given fields, made without running its constructor."""
    def __init__(self, cls, **fields): self.cls, self.fields = cls, fields
    def gen(self, g): return make(self.cls, {k: d.gen(g) for k, d in self.fields.items()})


class Via(Dom):
    """Values made by running a constructor function on values of other domains."""
    def __init__(self, fn, *doms): self.fn, self.doms = fn, doms
    def gen(self, g):
        for _ in range(50):
            try: return self.fn(*[d.gen(g) for d in self.doms])
            except Exception: continue
        raise Skip()


class Native(Dom):
    """A domain with only a generator (bounded units)."""
    def __init__(self, fn): self.fn = fn
    def gen(self, g): return self.fn(g)


class Biased(Dom):
    """The same inputs as a domain, with a generator that favours interesting ones."""
    def __init__(self, dom, fn, rate=0.7): self.dom, self.fn, self.rate = dom, fn, rate
    def gen(self, g): return self.fn(g) if g.r.random() < self.rate else self.dom.gen(g)
    def sym(self, it, name):
        from . import unit
        return unit.sym(it, self.dom, name)
    def has(self, it, v):
        from . import unit
        return unit.has(it, self.dom, v)


def mutate(g, s, alphabet):
    """A small edit of a text or byte string."""
    r = g.r
    k = r.randrange(6)
    one = (lambda: r.choice(alphabet)) if isinstance(s, str) else (lambda: bytes([r.randrange(256)]))
    i = r.choice([0, len(s), r.randint(0, len(s))])
    if k == 0: return s[:i] + one() + s[i:]
    if k == 1: return s[:i] + s[i + 1:]
    if k == 2: return s[:i] + one() + s[i + 1:]
    if k == 3 and len(s) > 1:
        i = r.randrange(len(s) - 1)
        return s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]
    if k == 4: return s + s[:r.randint(0, 3)]
    return s


def make(cls, fields):
    if issubclass(cls, tuple):
        return tuple.__new__(cls, [fields[f] for f in cls._fields])
    o = object.__new__(cls)
    o.__dict__.update(fields)
    return o


# ----------------------------------------------------------------------------------------------

class Theorem(object):
    def __init__(self, prop, name, fn, doms, **opts):
        self.prop, self.name, self.fn, self.doms, self.opts = prop, name, fn, doms, opts
        self.id = '%s.%s' % (prop, name)


class Contract(object):
    def __init__(self, target, spec, doms, **opts):
        self.target, self.spec, self.doms, self.opts = target, spec, doms, opts
        self.id = 'contract:' + target + opts.get('tag', '')
        self.kind = opts.get('kind', 'equal')       # 'equal': spec is a function; 'ensures': spec(result, *args)

    def resolve(self):
        return resolve(self.target)


def resolve(path):
    """The real function named by a dotted path, or None if it no longer exists."""
    parts = path.split('.')
    for k in range(len(parts) - 1, 0, -1):
        try: m = importlib.import_module('.'.join(parts[:k]))
        except ImportError: continue
        o = m
        for j, p in enumerate(parts[k:]):
            if isinstance(o, type):
                raw = None
                for c in o.__mro__:
                    if p in c.__dict__:
                        raw = c.__dict__[p]
                        break
                if raw is None: return None
                if isinstance(raw, (staticmethod, classmethod)): raw = raw.__func__
                if isinstance(raw, property): raw = raw.fget
                o = raw
            else:
                o = getattr(o, p, None)
                if o is None: return None
        return o
    return None


def theorem(prop, *doms, **opts):
    def deco(fn):
        t = Theorem(prop, opts.pop('name', fn.__name__), fn, doms, **opts)
        assert t.id not in THEOREMS, t.id
        THEOREMS[t.id] = t
        return fn
    return deco


def contract(target, *doms, **opts):
    def deco(fn):
        c = Contract(target, fn, doms, **opts)
        CONTRACTS.setdefault(target, []).append(c)
        return fn
    return deco


def exc(fn, *args):
    """Class of the exception a call raises, or None."""
    try:
        fn(*args)
    except Exception as e:
        return type(e)
    return None


def refused(fn, cls, *args):
    """The call raises an exception of the given class (or classes)."""
    try:
        fn(*args)
    except cls:
        return True
    return False


def CONTRACT_IDS():
    return {c.id: c for cs in CONTRACTS.values() for c in cs}


def support(c):
    """The theorems that show a contract declared with by=."""
    by = c.opts.get('by')
    if not by: return []
    by = (by,) if isinstance(by, str) else by
    return [t for t in THEOREMS.values() if t.id.startswith(tuple(by)) and not t.opts.get('bounded')]
