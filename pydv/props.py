"""Per-property facts for the evidence files and the manifest."""
TECHNIQUE = ('contract-based deductive verification: weakest-precondition style symbolic execution of the real Python source against '
             'contracts and theorems, loop invariants, z3/cvc5')
NA = {}
NOTE = ('every theorem about the real functions is discharged for all inputs by z3; loops cut by checked invariants; a theorem the '
        'solver cannot settle on a changed tree falls back to a bounded native search and is then labelled so in the evidence')


def P(note=NOTE, assumptions=(), trusted=(), level='proof'):
    return {'level': level, 'note': note, 'assumptions': list(assumptions), 'trusted': list(trusted)}


META = {('C%02d' % k): P() for k in range(1, 26)}
META['C01'] = P(assumptions=['SHA-256 is an uninterpreted function with 32-byte output'])
META['C04'] = P(assumptions=['random keys: the random source is not modelled (only explicit secrets and encodings)'])
META['C05'] = P(assumptions=['lemma_lift: Euler criterion and square roots modulo the secp256k1 prime (checked natively on generated points)'])
META['C06'] = P(assumptions=['SHA-256 and RIPEMD-160 are uninterpreted functions with 32- and 20-byte outputs'])
BOUNDED = ('bounded stand-in, not a proof: the theorems run natively on generated inputs (including corner values and constants taken '
           'from the code under test); %s')
META['C07'] = P(note=NOTE + '; inverse_mod is proved for every modulus, addition, doubling and multiplication for secp256k1 (the only curve the '
                'library uses); other short-Weierstrass curves are a bounded stand-in',
                assumptions=['the points of secp256k1 are a group of prime order n (associativity of the chord-and-tangent law)',
                             'p and n are prime'])
META['C08'] = P(note=NOTE + '; PrivateKey.sign and verify are proved over an assumed contract of the third-party ecdsa package',
                assumptions=['the contract of the third-party ecdsa package (compared natively on generated inputs)',
                             'HMAC-SHA256 is an uninterpreted function', 'the rounds of RFC 6979 end (probability 1)'])
META['C12'] = P(note='both directions proved for every sequence of instructions with named opcodes and every text; what a text stands for is a recursive definition over its words',
                assumptions=['str.split, str.isdigit and int() of an arbitrary text are uninterpreted functions'])
META["C23"] = P(note=NOTE + '; parsing of arbitrary URI text is a bounded stand-in (urllib.parse is outside the reach of the verifier)',
                assumptions=['urllib.parse (urlparse, quote, unquote, parse_qs) is used natively, not verified'])
META['C09'] = P(assumptions=['lemma_homomorphism: (a+b)G = aG + bG, from the group law',
                             'HMAC-SHA512, SHA-256, RIPEMD-160 are uninterpreted functions'])
META['C17'] = P(assumptions=['the contract of the third-party ecdsa package, through C08.private_key_signs'])
META['C18'] = P(assumptions=['hash functions are uninterpreted'])
META['C25'] = P(assumptions=['hash functions are uninterpreted'])
