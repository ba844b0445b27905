"""Reference semantics of Bitcoin script, one operation at a time (from EvalScript of the reference client), independent of the
code under test.  Signature and lock-time checks are those of a verifier that cannot check them: they fail.

step() returns None for failure, else (stack, altstack, conditions, operations).  Items are byte strings.
"""
import hashlib
from . import prims
from .c03 import num_bytes, num_minimal, num_value, ref_encode

P2SH, NULLDUMMY, PUSHONLY, MINIMAL, NONOPS, CLTV = 1, 16, 32, 64, 128, 512
DISABLED = (126, 127, 128, 129, 131, 132, 133, 134, 141, 142, 149, 150, 151, 152, 153)
NOPS = (176, 178, 179, 180, 181, 182, 183, 184, 185)


class Bad(Exception):
    """A number that the script may not use."""


def num(data, minimal):
    """A stack item as a number of at most 4 bytes."""
    if len(data) > 4 or (minimal and not num_minimal(data)):
        raise Bad()
    return num_value(data)


def flag(c):
    return b'\x01' if c else b''


def minimal_push(n, data):
    if data is None:
        return True
    k = len(data)
    if k == 0:
        return n == 0
    if k == 1 and (1 <= data[0] <= 16 or data[0] == 0x81):
        return False
    if k <= 75:
        return n == k
    if k <= 255:
        return n == 76
    if k <= 65535:
        return n == 77
    return True


def step(n, data, stack, alt, cond, ops, flags):
    minimal = bool(flags & MINIMAL)
    run = False not in cond
    if data is not None and len(data) > 520:
        return None
    if n > 96:
        ops = ops + 1
        if ops > 201:
            return None
    if n in DISABLED:
        return None
    if run and n <= 78:
        if minimal and not minimal_push(n, data):
            return None
        return (stack + [b'' if data is None else data], alt, cond, ops)
    if not run and not 99 <= n <= 104:
        return (stack, alt, cond, ops)
    try:
        r = apply(n, stack, alt, cond, ops, flags, minimal, run)
    except Bad:
        return None
    return r


def apply(n, stack, alt, cond, ops, flags, minimal, run):
    k = len(stack)
    if n == 79 or 81 <= n <= 96:
        return (stack + [num_bytes(n - 80)], alt, cond, ops)
    if n == 97 or n == 171:
        return (stack, alt, cond, ops)
    if n in NOPS:
        return None if flags & NONOPS else (stack, alt, cond, ops)
    if n == 177:
        if flags & CLTV:
            return None
        return None if flags & NONOPS else (stack, alt, cond, ops)
    if n == 99 or n == 100:
        if not run:
            return (stack, alt, cond + [False], ops)
        if k < 1:
            return None
        v = prims.truth(stack[-1])
        return (stack[:-1], alt, cond + [v if n == 99 else not v], ops)
    if n == 103:
        if len(cond) == 0:
            return None
        return (stack, alt, cond[:-1] + [not cond[-1]], ops)
    if n == 104:
        if len(cond) == 0:
            return None
        return (stack, alt, cond[:-1], ops)
    if n == 105:
        if k < 1 or not prims.truth(stack[-1]):
            return None
        return (stack[:-1], alt, cond, ops)
    if n == 107:
        if k < 1:
            return None
        return (stack[:-1], alt + [stack[-1]], cond, ops)
    if n == 108:
        if len(alt) < 1:
            return None
        return (stack + [alt[-1]], alt[:-1], cond, ops)
    if n == 174 or n == 175:
        return multisig(n, stack, alt, cond, ops, flags, minimal)
    s = stack_op(n, stack, minimal) if n <= 130 else value_op(n, stack, minimal)
    if s is None:
        return None
    return (s, alt, cond, ops)


def stack_op(n, s, minimal):
    k = len(s)
    if n == 116: return s + [num_bytes(k)]
    if k < 1: return None
    if n == 115: return s + [s[-1]] if prims.truth(s[-1]) else s
    if n == 117: return s[:-1]
    if n == 118: return s + [s[-1]]
    if n == 130: return s + [num_bytes(len(s[-1]))]
    if k < 2: return None
    if n == 109: return s[:-2]
    if n == 110: return s + [s[-2], s[-1]]
    if n == 119: return s[:-2] + [s[-1]]
    if n == 120: return s + [s[-2]]
    if n == 121 or n == 122:
        i = num(s[-1], minimal)
        s = s[:-1]
        k = k - 1
        if i < 0 or i >= k: return None
        x = s[k - 1 - i]
        if n == 121: return s + [x]
        return s[:k - 1 - i] + s[k - i:] + [x]
    if n == 124: return s[:-2] + [s[-1], s[-2]]
    if n == 125: return s[:-2] + [s[-1], s[-2], s[-1]]
    if k < 3: return None
    if n == 111: return s + [s[-3], s[-2], s[-1]]
    if n == 123: return s[:-3] + [s[-2], s[-1], s[-3]]
    if k < 4: return None
    if n == 112: return s + [s[-4], s[-3]]
    if n == 114: return s[:-4] + [s[-2], s[-1], s[-4], s[-3]]
    if k < 6: return None
    if n == 113: return s[:-6] + [s[-4], s[-3], s[-2], s[-1], s[-6], s[-5]]
    return None


def value_op(n, s, minimal):
    k = len(s)
    if n == 135 or n == 136:
        if k < 2: return None
        same = s[-1] == s[-2]
        if n == 135: return s[:-2] + [flag(same)]
        return s[:-2] if same else None
    if n == 139 or n == 140 or 143 <= n <= 146:
        if k < 1: return None
        v = num(s[-1], minimal)
        if n == 139: v = v + 1
        elif n == 140: v = v - 1
        elif n == 143: v = -v
        elif n == 144: v = v if v >= 0 else -v
        elif n == 145: v = 1 if v == 0 else 0
        else: v = 0 if v == 0 else 1
        return s[:-1] + [num_bytes(v)]
    if n == 147 or n == 148 or 154 <= n <= 164:
        if k < 2: return None
        a = num(s[-2], minimal)
        b = num(s[-1], minimal)
        if n == 147: v = a + b
        elif n == 148: v = a - b
        elif n == 154: v = 1 if a != 0 and b != 0 else 0
        elif n == 155: v = 1 if a != 0 or b != 0 else 0
        elif n == 156 or n == 157: v = 1 if a == b else 0
        elif n == 158: v = 1 if a != b else 0
        elif n == 159: v = 1 if a < b else 0
        elif n == 160: v = 1 if a > b else 0
        elif n == 161: v = 1 if a <= b else 0
        elif n == 162: v = 1 if a >= b else 0
        elif n == 163: v = a if a <= b else b
        else: v = a if a >= b else b
        if n == 157: return s[:-2] if v == 1 else None
        return s[:-2] + [num_bytes(v)]
    if n == 165:
        if k < 3: return None
        a = num(s[-3], minimal)
        b = num(s[-2], minimal)
        c = num(s[-1], minimal)
        return s[:-3] + [flag(b <= a < c)]
    if 166 <= n <= 170:
        if k < 1: return None
        x = s[-1]
        if n == 166: y = hashlib.new('ripemd160', x).digest()
        elif n == 167: y = hashlib.sha1(x).digest()
        elif n == 168: y = hashlib.sha256(x).digest()
        elif n == 169: y = hashlib.new('ripemd160', hashlib.sha256(x).digest()).digest()
        else: y = hashlib.sha256(hashlib.sha256(x).digest()).digest()
        return s[:-1] + [y]
    return None


def multisig(n, s, alt, cond, ops, flags, minimal):
    k = len(s)
    if k < 1:
        return None
    keys = num(s[-1], minimal)
    if keys < 0 or keys > 20:
        return None
    ops = ops + keys
    if ops > 201:
        return None
    if k < keys + 2:
        return None
    sigs = num(s[k - 2 - keys], minimal)
    if sigs != 0:
        return None                 # a signature would have to be checked, or the count is bad
    if k < keys + 3:
        return None
    if (flags & NULLDUMMY) and len(s[k - 3 - keys]) != 0:
        return None
    s = s[:k - 3 - keys]
    return (s if n == 175 else s + [b'\x01'], alt, cond, ops)


def evaluate(instructions, stack, flags):
    """Final stack, or None.  Each instruction is (number, data or None)."""
    if sum(wire(i) for i in instructions) > 10000:
        return None
    alt, cond, ops = [], [], 0
    for n, data in instructions:
        r = step(n, data, stack, alt, cond, ops, flags)
        if r is None:
            return None
        stack, alt, cond, ops = r
        if len(stack) + len(alt) > 1000:
            return None
    return None if cond else stack


def wire(i):
    n, data = i
    return 1 + (len(data) if data is not None else 0) + {76: 1, 77: 2, 78: 4}.get(n, 0)


def parse(data):
    """Instructions of a byte string, or None for a truncated push."""
    out, k = [], 0
    while k < len(data):
        n = data[k]
        k += 1
        if 1 <= n <= 75: size = n
        elif 76 <= n <= 78:
            w = 1 << (n - 76)
            if k + w > len(data): return None
            size = int.from_bytes(data[k:k + w], 'little')
            k += w
        else:
            out.append((n, None))
            continue
        if k + size > len(data): return None
        out.append((n, bytes(data[k:k + size])))
        k += size
    return out


def verify(sig, pub, flags):
    if flags & PUSHONLY and any(n > 96 for n, _ in sig):
        return False
    s = evaluate(sig, [], flags)
    if s is None:
        return False
    kept = list(s)
    s = evaluate(pub, s, flags)
    if s is None or not s or not prims.truth(s[-1]):
        return False
    if flags & P2SH and len(pub) == 3 and pub[0][0] == 169 and pub[1][0] == 20 and pub[2][0] == 135:
        if any(n > 96 for n, _ in sig):
            return False
        redeem = parse(bytes(kept[-1]))
        if redeem is None:
            return False
        s = evaluate(redeem, kept[:-1], flags)
        if s is None or not s or not prims.truth(s[-1]):
            return False
    return True
