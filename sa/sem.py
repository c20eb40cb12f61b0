"""Semantics of the uninterpreted primitive summaries, used only when looking for a distinguishing
valuation: two graphs that use algebraically equivalent primitive sequences must not be told apart.
Where a primitive's contract leaves freedom (partly reduced results) the freedom is exercised."""
import hashlib

RP = 2**256 - 2**32 - 977
RN = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
RG = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
      0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
# small group with the same algebra (y^2 = x^3 + 7 over F_43, prime order 31; byte strings stay below 2*31),
# so that equations and range corner cases are met by small valuations
TP, TN, TG = 43, 31, None
for _x in range(TP):
    for _y in range(1, TP):
        if TG is None and (_y * _y - _x ** 3 - 7) % TP == 0:
            TG = (_x, _y)
P, N, G = RP, RN, RG
TOY = False
HMAX = 2 * TN      # bound of toy byte strings
_MAP = {RP: TP, RN: TN, RN // 2: TN // 2}


def mode(toy):
    global P, N, G, TOY
    TOY = toy
    P, N, G = (TP, TN, TG) if toy else (RP, RN, RG)
    _mulc.clear()


def small(h, w):
    """toy image of a 256k-bit byte string: each 32-byte big-endian number is below twice the order"""
    r = 0
    for i in range(0, w, 256):
        r |= ((h >> i & 0xffff) % HMAX) << (i + 248)
    return r


def ofl(v):
    r = 0
    for i in range(9):
        r += ((v >> (32 * i)) & 0xffffffff) << (30 * i)
    if TOY:
        r = _MAP.get(r, r)
    return r


def tol(x):
    r = 0
    x &= (1 << 272) - 1
    for i in range(8):
        r |= ((x >> (30 * i)) & 0x3fffffff) << (32 * i)
    r |= (x >> 240) << 256
    return r & ((1 << 288) - 1)


def rev(v, n=32):
    return int.from_bytes((v & ((1 << 8 * n) - 1)).to_bytes(n, 'little'), 'big')


def part(x, m, *key):
    x %= m
    if hashlib.sha256(repr((x, m) + key).encode()).digest()[0] & 1:
        x += m
    return tol(x)


def padd(p, q):
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0:
            return None
        l = 3 * p[0] * p[0] * pow(2 * p[1], -1, P) % P
    else:
        l = (q[1] - p[1]) * pow(q[0] - p[0], -1, P) % P
    x = (l * l - p[0] - q[0]) % P
    return x, (l * (p[0] - x) - p[1]) % P


_mulc = {}


def pmul(k, p):
    key = (k, p)
    if key in _mulc:
        return _mulc[key]
    r = None
    q = p
    n = k
    while n:
        if n & 1:
            r = padd(r, q)
        q = padd(q, q)
        n >>= 1
    if len(_mulc) < 5000:
        _mulc[key] = r
    return r


def pt(v):
    x, y = ofl(v & ((1 << 288) - 1)), ofl(v >> 288)
    if x == 0 and y == 0:
        return None
    return x % P, y % P


def unpt(p):
    if p is None:
        return 0
    return tol(p[0]) | (tol(p[1]) << 288)


def call(name, vals, w):
    """value of f(name, vals), or None when the name has no registered semantics"""
    h = TAB.get(name)
    if h is None:
        return None
    try:
        return h(*vals) & ((1 << w) - 1)
    except (ValueError, ZeroDivisionError, TypeError):
        return None


def _inv(x, m):
    m = ofl(m)
    x = ofl(x) % m
    return tol(pow(x, -1, m) if x else 0)


def _mod(x, m):
    a, b = ofl(x), ofl(m)
    return tol(a - b if a >= b else a)


def _half(x, m):
    a = ofl(x)
    return tol((a + (ofl(m) if a & 1 else 0)) >> 1)


def _lift(x, odd):
    x = rev(x)
    if TOY and x >= P:
        pass
    y = pow(x * x * x + 7, (P + 1) // 4, P)
    if y & 1 != odd & 1:
        y = P - y
    return tol(y)


def _onx(x):
    x = rev(x)
    if x >= P:
        return 0
    c = (x * x * x + 7) % P
    y = pow(c, (P + 1) // 4, P)
    return int(y * y % P == c)


def _onc(x, y):
    x, y = rev(x), rev(y)
    return int(x < P and y < P and not (x == 0 and y == 0) and (y * y - x * x * x - 7) % P == 0)


def _jac(v):
    m = (1 << 288) - 1
    return ofl(v & m) % P, ofl(v >> 288 & m) % P, ofl(v >> 576) % P


def _aff(v):
    x, y, z = _jac(v)
    if z == 0:
        return None
    i = pow(z, -1, P)
    return x * i * i % P, y * i * i * i % P


def _unjac(p, z=1):
    if p is None:
        return tol(1) | tol(1) << 288
    return tol(p[0]) | tol(p[1]) << 288 | tol(1) << 576


def _cneg(c, a, m):
    if c not in (0, 0xffffffff):
        return int.from_bytes(hashlib.sha256(repr((c, a)).encode()).digest(), 'big')
    return tol(2 * ofl(m) - ofl(a)) if c else a


def _norm(v):
    return all((v >> 32 * i) & 0xffffffff < 1 << 30 for i in range(9))


TAB = {
    'bncanon': lambda v, m: (ofl(v) % m) | (_norm(v) and ofl(v) < 2 * m) << 288,
    'bnvalue': lambda v, m: (ofl(v) % m) | _norm(v) << 288,
    'bnreduced': lambda v, m: (ofl(v) % m) | (_norm(v) and ofl(v) < m) << 288,
    'jacx': lambda x, z: tol(rev(x) * rev(z) ** 2 % P),
    'jacy': lambda y, z: tol(rev(y) * rev(z) ** 3 % P),
    'table8': lambda o, *e: e[o // 72],
    'fneg': lambda y: rev((P - rev(y)) % P),
    'gmul': lambda k: unpt(pmul(k % 1000 + 1, G)),
    'jac_affine': lambda v: unpt(_aff(v)),
    'curve_to_jacobian.1': lambda p, m: _unjac(pt(p)),
    'jacobian_to_curve.1': lambda j, m: unpt(_aff(j)),
    'point_jacobian_add.1': lambda p, j, c: _unjac(padd(pt(p), _aff(j))),
    'point_jacobian_double.0': lambda j, c: _unjac(padd(_aff(j), _aff(j))),
    'conditional_negate.1': _cneg,
    'lift': _lift,
    'onx': _onx,
    'oncurve': _onc,
    'bn_be': lambda x: tol(rev(x)),
    'be_bn': lambda x: rev(ofl(x)),
    'bn_multiply': lambda a, b, m: part(ofl(a) * ofl(b), ofl(m), 'mul'),
    'bn_add': lambda a, b: tol(ofl(a) + ofl(b)),
    'bn_addmod': lambda a, b, m: part(ofl(a) + ofl(b), ofl(m), 'addmod'),
    'bn_mod.0': _mod,
    'bn_fast_mod.0': lambda x, m: part(ofl(x), ofl(m), 'fm'),
    'bn_normalize.0': lambda x: tol(ofl(x)),
    'bn_mult_half.0': _half,
    'bn_mult_k.0': lambda x, k, m: part(ofl(x) * k, ofl(m), 'mk'),
    'bn_inverse.0': _inv,
    'bn_sqrt.0': lambda x, m: tol(pow(ofl(x), (ofl(m) + 1) // 4, ofl(m))),
    'bn_addi.0': lambda x, k: tol(ofl(x) + k),
    'bn_subi.0': lambda x, k, m: tol(ofl(x) + ofl(m) - k),
    'bn_subtract.2': lambda a, b: tol(ofl(a) - ofl(b)),
    'bn_subtractmod.2': lambda a, b, m: tol(ofl(a) + 2 * ofl(m) - ofl(b)),
    'bn_rshift.0': lambda x: tol(ofl(x) >> 1),
    'bn_lshift.0': lambda x: tol(ofl(x) << 1),
    'bn_xor.0': lambda a, b: tol(ofl(a) ^ ofl(b)),
    'bn_setbit.0': lambda x, k: tol(ofl(x) | (1 << k)),
    'bn_clearbit.0': lambda x, k: tol(ofl(x) & ~(1 << k)),
    'bn_testbit': lambda x, k: (ofl(x) >> k) & 1,
    'bn_bitcount': lambda x: ofl(x).bit_length(),
    'point_add.2': lambda c, a, b: unpt(padd(pt(a), pt(b))),
    'point_double.1': lambda c, a: unpt(padd(pt(a), pt(a))),
    'point_multiply.3': lambda c, k, p: unpt(pmul(ofl(k) % N, pt(p)) if pt(p) else None),
    'scalar_multiply.2': lambda c, k: unpt(pmul(ofl(k) % N, G)),
    'gen': lambda: rev(G[0]) | rev(G[1]) << 256,
    'bswap': None,
    # predicates
    'bnz': lambda x: int(ofl(x) == 0),
    'bnlt': lambda a, b: int(ofl(a) < ofl(b)),
    'bneq': lambda a, b: int(ofl(a) == ofl(b)),
    'p_point_is_infinity': lambda a: int(pt(a) is None),
    'p_point_is_equal': lambda a, b: int(a == b),
    'p_point_is_negative_of': lambda a, b: int(pt(a) is not None and pt(b) is not None and pt(a)[0] == pt(b)[0] and pt(a)[1] != pt(b)[1]),
}
