"""Reference arithmetic of secp256k1, independent of the code under test (textbook affine formulas, Python's pow)."""
P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def add(u, v, p=P, a=0):
    """Sum of two points of y^2 = x^3 + a*x + b over the field of p elements; None is the point at infinity."""
    if u is None: return v
    if v is None: return u
    if u[0] == v[0]:
        if (u[1] + v[1]) % p == 0: return None
        l = (3 * u[0] * u[0] + a) * pow(2 * u[1], -1, p) % p
    else:
        l = (v[1] - u[1]) * pow(v[0] - u[0], -1, p) % p
    x = (l * l - u[0] - v[0]) % p
    return (x, (l * (u[0] - x) - u[1]) % p)


def mul(k, u, p=P, a=0):
    """k times a point, k >= 0."""
    r = None
    while k > 0:
        if k & 1: r = add(r, u, p, a)
        u = add(u, u, p, a)
        k >>= 1
    return r


def jmul(k, u):
    """k times a point of secp256k1, k >= 0 (Jacobian coordinates: one inversion)."""
    X, Y, Z = 0, 1, 0
    x, y = u
    for i in range(k.bit_length() - 1, -1, -1):
        if Z:
            S = 4 * X * Y * Y % P
            M = 3 * X * X % P
            X2 = (M * M - 2 * S) % P
            Y2 = (M * (S - X2) - 8 * pow(Y, 4, P)) % P
            Z = 2 * Y * Z % P
            X, Y = X2, Y2
            if Z == 0: X, Y = 0, 1
        if (k >> i) & 1:
            if Z == 0: X, Y, Z = x, y, 1
            else:
                zz = Z * Z % P
                H = (x * zz - X) % P
                R = (y * zz * Z - Y) % P
                if H == 0:
                    if R == 0:
                        S = 4 * X * Y * Y % P
                        M = 3 * X * X % P
                        X2 = (M * M - 2 * S) % P
                        Y2 = (M * (S - X2) - 8 * pow(Y, 4, P)) % P
                        Z = 2 * Y * Z % P
                        X, Y = X2, Y2
                    else: X, Y, Z = 0, 1, 0
                else:
                    HH = H * H % P
                    V = X * HH % P
                    X3 = (R * R - HH * H - 2 * V) % P
                    Y = (R * (V - X3) - Y * HH * H) % P
                    X, Z = X3, Z * H % P
    if Z == 0: return None
    i = pow(Z, -1, P)
    return (X * i * i % P, Y * i * i * i % P)
