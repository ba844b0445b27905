"""Reference functions with both a native definition and a symbolic meaning known to the verifier."""

ALPHABET = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def ndigits(v, base):
    """Number of digits of v >= 0 without leading zeros (0 for 0)."""
    k = 0
    while v > 0:
        v //= base
        k += 1
    return k


def enc58(v, n):
    """The n base-58 digits of v, most significant first, in the Bitcoin alphabet (v < 58**n)."""
    out = bytearray()
    for _ in range(n):
        v, d = divmod(v, 58)
        out.append(ALPHABET[d])
    assert v == 0
    return bytes(out[::-1])


def valid58(data):
    return all(c in ALPHABET for c in data)


def val58(data):
    v = 0
    for c in data: v = v * 58 + ALPHABET.index(c)
    return v


def leading(data, base):
    """Number of leading zero digits of a byte string (base 256) or base-58 text (base 58)."""
    z = 0 if base == 256 else ALPHABET[0]
    k = 0
    while k < len(data) and data[k] == z: k += 1
    return k


def canon(x):
    """The same value (the verifier replaces it by an equal one it already knows)."""
    return x


def digits(base, k, v):
    """The byte string (base 256) or base-58 text (base 58) with k leading zero digits and value v: it is unique."""
    z = b'\0' if base == 256 else ALPHABET[:1]
    n = ndigits(v, base)
    return z * k + (v.to_bytes(n, 'big') if base == 256 else enc58(v, n))


HEXDIGITS = '0123456789abcdefABCDEF'


def hexvalid(text):
    """The text is an even number of hexadecimal digits."""
    return len(text) % 2 == 0 and all(c in HEXDIGITS for c in text)


def unhex(text):
    """The bytes written by hexadecimal text."""
    return bytes(int(text[k:k + 2], 16) for k in range(0, len(text), 2))


SECP_N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
SECP_P = 2 ** 256 - 2 ** 32 - 977


def lemma_lift(x, y):
    """Assumed lemma about the secp256k1 field prime p: if (x, y) is on the curve, 0 <= x, y < p and a = (x*x*x+7) mod p, then
    a is not 0 (-7 is not a cube), a**((p-1)/2) is 1 and r = a**((p+1)/4) is y or p-y, modulo p (Euler's criterion, p is 3 mod 4);
    (x, r) and (x, p-r) are on the curve."""
    p = SECP_P
    a = (x * x * x + 7) % p
    if 0 <= y < p and 0 <= x < p and a == y * y % p:
        assert a != 0
        assert pow(a, (p - 1) // 2, p) == 1
        r = pow(a, (p + 1) // 4, p)
        assert r == y or r == p - y
        assert 0 < y and r * r % p == a and (p - r) * (p - r) % p == a


def pubpair(secret):
    """The multiple of the secp256k1 generator by a secret in [1, n-1]: a point of the curve."""
    from . import ec
    return ec.jmul(secret, ec.G)


def pubpoint(secret):
    """The same, when nothing about the point matters."""
    return pubpair(secret)


def multiple(x, y, k):
    """k times a point of secp256k1, 0 < k < n: a point of the curve."""
    from . import ec
    return ec.jmul(k, (x, y))


def point_sum(u, v):
    """Sum of two points of secp256k1, None for opposite ones: otherwise a point of the curve."""
    from . import ec
    return ec.add(u, v)


def lemma_homomorphism(a, b):
    """For 0 < a, b < n the sum of the a-th and the b-th multiple of the generator is its multiple by a + b modulo n, and they are opposite only if that is 0."""
    c = (a + b) % SECP_N
    s = point_sum(pubpair(a), pubpair(b))
    assert s == (pubpair(c) if c else None)


def lemma_period(u, k):
    """Multiples of a point of secp256k1 depend on the factor modulo n only; its first multiple is the point itself (the definition of multiple, for factors beyond n)."""
    from . import ec
    if k % SECP_N: assert ec.jmul(k % SECP_N, u) == multiple(u[0], u[1], k % SECP_N)
    assert ec.jmul(1, u) == u


def lemma_multiple(x, k):
    """For 0 < x, k < n the k-th multiple of the x-th multiple of the generator is its multiple by k * x modulo n (not 0, n is prime)."""
    assert multiple(*(pubpair(x) + (k,))) == pubpair(k * x % SECP_N)
    assert k * x % SECP_N != 0


def inverse(a, m):
    """The inverse of a modulo a prime m, 0 < a < m."""
    return pow(a, -1, m)


def lemma_inverses(k, e, s):
    """If s = e/k modulo n, then e/s = k modulo n; k, s not 0."""
    n = SECP_N
    assert s == inverse(k, n) * e % n
    assert inverse(s, n) * e % n == k % n


def gcd(a, b):
    """The greatest common divisor of a >= 0 and b > 0."""
    import math
    return math.gcd(a, b)


def lemma_coprime(a, m):
    """m is the order n or the field prime p of secp256k1, both prime: for 0 < a < m the greatest common divisor of a and m is 1."""
    import math
    assert m in (SECP_N, SECP_P) and math.gcd(a, m) == 1


def lemma_prime(a, b):
    """The secp256k1 group order n is prime: for 0 < a, b < n, n does not divide a * b."""
    assert a * b % SECP_N != 0


def lemma_mod(a, b):
    """a and b are the same modulo n: proved by comparing polynomials."""
    assert a % SECP_N == b % SECP_N


def name(v):
    """v itself (the verifier gets a new name for it)."""
    return v


def nonce(secret, digest):
    """RFC 6979 with SHA-256 for secp256k1, the digest being a number below 2**256: a number in [1, n-1]."""
    from . import c08
    return c08.nonce(secret, digest.to_bytes(32, 'big'))


def nonce_from(k, v):
    """The rest of RFC 6979 section 3.2 from step h on."""
    from . import c08
    return c08.nonce_from(k, v)


def truth(data):
    """Bitcoin's CastToBool: some byte is not zero, other than a final sign bit."""
    n = len(data)
    t = any(data[k] != 0 and not (k == n - 1 and data[k] == 0x80) for k in range(n))
    if t and n > 1 and data[0] == 0: PINNED.append(1)
    return t


PINNED = []         # native runs: values of the known finding that were tested for truth


def forget_pinned():
    del PINNED[:]


def saw_pinned():
    return bool(PINNED)


def copies(xs):
    """A new list of equal items that shares no mutable object with the old one."""
    return [type(x)(x) if isinstance(x, (bytes, bytearray)) else x for x in xs]


def pinned(data):
    """True values whose first byte is zero: the library takes them for false (known finding, pinned by an existing test)."""
    return len(data) > 1 and data[0] == 0 and truth(data)


# -- for contracts that say only part of what a function does -------------------------------------

class Unknown(Exception):
    """Some exception."""


def require(cond):
    """Precondition of a contract."""
    assert cond


def some_list(of):
    """A list about which nothing is known."""
    raise NotImplementedError


def some_int(): raise NotImplementedError
def some_bool(): raise NotImplementedError
def some_text(least=0): raise NotImplementedError


def some_bytes(lo, hi): raise NotImplementedError


def verifies(pair, digest, signature):
    """The ECDSA equation holds for the numbers in a strict DER signature (without hash type)."""
    from . import c08
    r, s = c08.parts(signature)
    return 1 <= r < c08.N and 1 <= s < c08.N and c08.equation(pair, int.from_bytes(digest, 'big'), r, s)


def is_signature(pair, digest, signature):
    """A strict DER signature (without hash type) of a 32-byte digest, with s at most n/2, that satisfies the ECDSA equation for a public pair."""
    from . import c08
    return c08.is_signature(pair, digest, signature)


def evaluation(instructions, stack, flags):
    """(completed, final stack) of running the instructions on the stack."""
    from . import refscript
    s = refscript.evaluate([(i.opcode.number, i.data) for i in instructions], list(stack), flags)
    return (False, []) if s is None else (True, s)


def spelled(word):
    """The word itself (the verifier distinguishes the names of opcodes here)."""
    return word


def script_meaning(text):
    """(whether the text is a script, its instructions up to the first fault)."""
    from . import c12
    return c12.meaning(text)


def script_text(instructions):
    """The textual form of instructions with named opcodes."""
    from . import c12
    return ' '.join(c12.written(i) for i in instructions)


def script_bytes(instructions):
    """Binary form of a sequence of instructions, from the opcode table."""
    out = b''
    for i in instructions:
        n, d = i.opcode.number, i.data
        out += bytes([n]) + {76: lambda: len(d).to_bytes(1, 'little'), 77: lambda: len(d).to_bytes(2, 'little'), 78: lambda: len(d).to_bytes(4, 'little')}.get(n, lambda: b'')()
        if d is not None: out += bytes(d)
    return out


def assume(cond):
    """A fact shown elsewhere (contracts with `by`)."""
    assert cond


def parsed(data):
    """(complete, instructions) of a byte string read as a script, from the opcode table."""
    from . import refscript
    from bitforge.script.opcode import Opcode
    from bitforge.script.instruction import Instruction
    r = refscript.parse(bytes(data))
    if r is None: return (False, [])
    return (True, [Instruction(Opcode(n), d) for n, d in r])


def strictly(a, b):
    """Same class and same contents, all the way down (no __eq__ of the library is used)."""
    if type(a) is not type(b): return False
    if isinstance(a, (list, tuple)):
        if len(a) != len(b) or not all(strictly(x, y) for x, y in zip(a, b)): return False
    elif isinstance(a, (int, float, str, bytes, bytearray, type(None), bool)): return a == b
    return contents(a) == contents(b) if type(a).__module__ == 'builtins' else \
        set(contents(a)) == set(contents(b)) and all(strictly(v, contents(b)[k]) for k, v in contents(a).items())


def contents(v):
    return dict(getattr(v, '__dict__', {}))


def pattern(k, code):
    """Whether a sequence of instructions fits template k."""
    n = len(code)
    push = lambda i: 1 <= code[i].opcode.number <= 78
    op = lambda i, v: code[i].opcode.number == v
    if k == 0: return n == 2 and push(0) and push(1)
    if k == 1: return n == 5 and op(0, 118) and op(1, 169) and push(2) and op(3, 136) and op(4, 172)
    if k == 2: return n > 2 and op(0, 0) and all(1 <= i.opcode.number <= 78 for i in code[1:])
    if k == 3: return n == 3 and op(0, 169) and push(1) and op(2, 135)
    if k == 4: return n == 2 and op(0, 106) and push(1)
    return n >= 4 and small(code[0].opcode.number) and small(code[-2].opcode.number) and op(-1, 174) and all(1 <= i.opcode.number <= 78 for i in code[1:-2])


def small(v):
    return v == 0 or 81 <= v <= 96


def matches(k, code):
    return pattern(k, list(code))


# -- public keys whose encoding need not be looked into (shown by C05) --------------------------------

def sec(pair, compressed):
    x, y = pair
    if compressed: return bytes([2 + y % 2]) + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def unsec(data):
    """(pair, compressed) of a valid SEC encoding."""
    data = bytes(data)
    x = int.from_bytes(data[1:33], 'big')
    if len(data) == 65: return (x, int.from_bytes(data[33:], 'big')), False
    y = pow(x * x * x + 7, (SECP_P + 1) // 4, SECP_P)
    if y % 2 != data[0] % 2: y = SECP_P - y
    return (x, y), True


def pubkey(pair, network, compressed):
    from bitforge.pubkey import PublicKey
    return PublicKey(pair, network, compressed)


def push_bytes(data):
    """The instruction that pushes a byte string of 1..2^32-1 bytes, in binary form: the shortest opcode that can."""
    n = len(data)
    if n <= 75: return bytes([n]) + data
    if n <= 255: return b'\x4c' + bytes([n]) + data
    if n <= 65535: return b'\x4d' + n.to_bytes(2, 'little') + data
    return b'\x4e' + n.to_bytes(4, 'little') + data


def hash160(data):
    import hashlib
    return hashlib.new('ripemd160', hashlib.sha256(data).digest()).digest()


# -- transactions ---------------------------------------------------------------------------------------

def varint(n):
    """CompactSize of 0 <= n < 2^64."""
    if n < 253: return bytes([n])
    for k, w in ((253, 2), (254, 4), (255, 8)):
        if n < 256 ** w: return bytes([k]) + n.to_bytes(w, 'little')
    raise ValueError(n)


def input_bytes(i):
    s = script_bytes(i.script.instructions)
    return bytes.fromhex(i.tx_id)[::-1] + i.txo_index.to_bytes(4, 'little') + varint(len(s)) + s + i.seq_number.to_bytes(4, 'little')


def output_bytes(o):
    s = script_bytes(o.script.instructions)
    return o.amount.to_bytes(8, 'little') + varint(len(s)) + s


def inputs_bytes(inputs): return b''.join(input_bytes(i) for i in inputs)
def outputs_bytes(outputs): return b''.join(output_bytes(o) for o in outputs)


def same_input(a, b):
    """Same id, numbers and instructions (the classes of the input and its script apart)."""
    return a.tx_id == b.tx_id and a.txo_index == b.txo_index and a.seq_number == b.seq_number and strictly(a.script.instructions, b.script.instructions)


def same_output(a, b):
    return a.amount == b.amount and strictly(a.script.instructions, b.script.instructions)


def same_parts(xs, ys):
    """Sequences of inputs, or of outputs, that agree one by one."""
    same = lambda a, b: same_input(a, b) if hasattr(a, 'tx_id') else same_output(a, b)
    return len(xs) == len(ys) and all(same(a, b) for a, b in zip(xs, ys))


def transaction_bytes(version, inputs, outputs, lock_time):
    return (version.to_bytes(4, 'little') + varint(len(inputs)) + inputs_bytes(inputs) + varint(len(outputs)) + outputs_bytes(outputs)
            + lock_time.to_bytes(4, 'little'))


def transaction_parts(data):
    """The parts whose wire form the bytes are (the verifier knows it only for bytes made by transaction_bytes)."""
    raise NotImplementedError


def decimal8(s):
    """A whole number of satoshis as a plain decimal number of bitcoins, without needless zeros."""
    whole, rest = divmod(s, 100000000)
    t = str(rest).rjust(8, '0')
    while t and t[-1] == '0': t = t[:-1]
    return str(whole) + ('.' + t if t else '')
