from check import *
from checks.ecdsa import crv
from checks.point import S as _
S = 'bignum.cpp'
R = 'value graph on the limbs equals the reference; values are compared modulo the prime, with normalisation and range'
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
OFF = {'@' + n: None for n in 'bn_zero bn_one bn_is_zero bn_is_less bn_is_equal bn_cmov bn_lshift bn_rshift bn_read_be bn_write_be'.split()}


def limbs(name, top=17, consts={}):
    """a normalised number below 2^(240+top)"""
    r = []
    for i in range(9):
        w = 30 if i < 8 else top
        r.append(C(consts[i] & ((1 << w) - 1), 32) if i in consts else zext(sym('%s%d' % (name, i), w), 32))
    return r


def put(I, st, p, l):
    for i, x in enumerate(l):
        I.store(st, at(p, 4 * i), x)


def bnout(o, n=9):
    return lambda v, s, I, a: [('number', cat([I.load(s, at(o, 4 * i), 4) for i in range(n)]))]


def can(o, m, kind='bncanon'):
    """value modulo m; whether it is normalised and below 2m"""
    return lambda v, s, I, a: [('number', f(kind, 296, I.load(s, o, 36), C(m, 256)))]


def prm(L):
    k, fl = crv(L), L.mod.fields('ecdsa_curve')
    return [('prime', at(k, fl['prime'][0]), P), ('order', at(k, fl['order'][0]), N)]


# special limb values reach carries over several limbs and equal upper parts
SPECIAL = [{}, {i: M for i in range(8) for M in (0x3fffffff,)}, {i: 0 for i in range(8)}, {0: 0x3fffffff, 3: 0, 8: 0xffff}, {0: 0}, {8: 0xffff, 7: 0x3fffffff}, {7: 0, 6: 0x3fffffff}]


def kinds():
    for i, x in enumerate(SPECIAL):
        yield x


@obligation('P12', 'big numbers, comparison', S, R)
def _(c):
    L = c.L
    a, b, r, t = L.arg('a'), L.arg('b'), L.arg('r'), L.arg('t')

    def su(la, lb):
        def g(I, st, x):
            put(I, st, a, la)
            put(I, st, b, lb)
            return x
        return g
    A = limbs('a', 30)
    c.equiv('@bn_is_zero', 'spec_bn_zero', [a], RET, setup=su(A, A), models=OFF)
    for k in range(9):
        # everything but limb k equal (zero), or equal above k
        z = [C(0, 32) if i != k else A[k] for i in range(9)]
        c.equiv('@bn_is_zero', 'spec_bn_zero', [a], RET, setup=su(z, z), models=OFF, item='bn_is_zero, only limb %d' % k)
        B = limbs('b', 30)
        e1 = [A[i] if i != k else B[k] for i in range(9)]
        e2 = [A[i] if i > k else B[i] for i in range(9)]
        for n, e in (('only limb', e1), ('limbs up to', e2)):
            c.equiv('@bn_is_equal', 'spec_bn_eq', [a, b], RET, setup=su(A, e), models=OFF, item='bn_is_equal, %s %d' % (n, k))
            c.equiv('@bn_is_less', 'spec_bn_less', [a, b], RET, setup=su(A, e), models=OFF, item='bn_is_less, %s %d' % (n, k))
    B = limbs('b', 30)
    for k in (0, 1):
        c.equiv('@bn_cmov', 'spec_bn_cmov', [r, C(k, 32), a, b], bnout(r), setup=su(A, B), models=OFF, item='bn_cmov %d' % k)


@obligation('P12', 'big numbers, bytes', S, 'limbs are the bits of the byte string')
def _(c):
    L = c.L
    a, d = L.arg('a'), L.arg('d')
    by = [sym('d%d' % i, 8) for i in range(32)]
    A = limbs('a', 16)

    def num(bs):          # little-endian list of bytes -> integer term
        return cat(list(bs))
    for nm, o in (('be', by[::-1]), ('le', by)):
        I, st = L.interp(OFF), State()
        for i in range(32):
            I.store(st, at(d, i), by[i])
        if '@bn_read_' + nm in L.mod.funcs:
            v, s2 = I.call('@bn_read_' + nm, [d, a], st)
            x = zext(num(o), 270)
            for i in range(9):
                c.same('bn_read_%s limb %d' % (nm, i), I.load(s2, at(a, 4 * i), 4), zext(ext(x, 30 * i, 30), 32), TRUE, 'src/utility/trezor/bignum.c bn_read_' + nm)
        if '@bn_write_' + nm in L.mod.funcs:
            I, st = L.interp(OFF), State()
            put(I, st, a, A)
            v, s2 = I.call('@bn_write_' + nm, [a, d], st)
            x = cat([ext(l, 0, 30) for l in A[:8]] + [ext(A[8], 0, 16)])
            for i in range(32):
                k = 31 - i if nm == 'be' else i
                c.same('bn_write_%s byte %d' % (nm, i), I.load(s2, at(d, i), 1), ext(x, 8 * k, 8), TRUE, 'src/utility/trezor/bignum.c bn_write_' + nm)
    for nm, sh in (('bn_lshift', 1), ('bn_rshift', -1)):
        I, st = L.interp(OFF), State()
        A = limbs('a', 29 if sh > 0 else 30)
        put(I, st, a, A)
        v, s2 = I.call('@' + nm, [a], st)
        x = cat([ext(l, 0, 30) for l in A])
        y = cat([C(0, 1), ext(x, 0, 269)]) if sh > 0 else cat([ext(x, 1, 269), C(0, 1)])
        for i in range(9):
            c.same('%s limb %d' % (nm, i), I.load(s2, at(a, 4 * i), 4), zext(ext(y, 30 * i, 30), 32), TRUE, 'src/utility/trezor/bignum.c ' + nm)
    for nm, k in (('bn_zero', 0), ('bn_one', 1)):
        I, st = L.interp(OFF), State()
        v, s2 = I.call('@' + nm, [a], st)
        c.same(nm, I.load(s2, a, 36), C(k, 288), TRUE, 'src/utility/trezor/bignum.c ' + nm)


@obligation('P12', 'big numbers, sums', S, R)
def _(c):
    L = c.L
    a, b, r = L.arg('a'), L.arg('b'), L.arg('r')

    def su(la, lb):
        def g(I, st, x):
            put(I, st, a, la)
            put(I, st, b, lb)
            return x
        return g
    for i, x in enumerate(kinds()):
        for j, y in enumerate(kinds()):
            if i and j and c.tier == 'quick' and i != j:
                continue
            A, B = limbs('a', 17, x), limbs('b', 17, y)
            t = ' (%d,%d)' % (i, j)
            c.equiv('@bn_add', 'spec_bn_add', [a, b], bnout(a), setup=su(A, B), item='bn_add' + t, models=OFF, real=True)
            big = limbs('a', 28, x)
            for nm, p, m in prm(L):
                c.equiv('@bn_subtractmod', 'spec_bn_submod', [a, b, r, p], bnout(r), setup=su(A, B), item='bn_subtractmod %s%s' % (nm, t), models=OFF, real=True)
                c.equiv('@bn_addmod', 'spec_bn_addmod', [a, b, p], can(a, m), setup=su(A, B), item='bn_addmod %s%s' % (nm, t), real=True)
            c.equiv('@bn_subtract', 'spec_bn_sub', [a, b, r], bnout(r), setup=su(limbs('a', 17, x)[:8] + [bor(A[8], C(1 << 17, 32))], B), item='bn_subtract' + t, models=OFF, real=True)
        A = limbs('a', 17, x)
        c.equiv('@bn_addi', 'spec_bn_addi', [a, zext(sym('k', 16), 32)], bnout(a), setup=su(A, A), item='bn_addi (%d)' % i, models=OFF, real=True)
        for nm, p, m in prm(L):
            t = ' %s (%d)' % (nm, i)
            c.equiv('@bn_subi', 'spec_bn_subi', [a, zext(sym('k', 16), 32), p], can(a, m, 'bnvalue'), setup=su(A, A), item='bn_subi' + t, real=True)
            for k in range(5):
                c.equiv('@bn_mult_k', 'spec_bn_multk', [a, C(k, 8), p], can(a, m), setup=su(A, A), item='bn_mult_k %d%s' % (k, t), real=True)
            c.equiv('@bn_mult_half', 'spec_bn_half', [a, p], can(a, m), setup=su(A, A), item='bn_mult_half' + t, models=OFF, real=True, pc=below(A, 2 * m))
            c.equiv('@bn_mod', 'spec_bn_mod', [a, p], can(a, m, 'bnreduced'), setup=su(A, A), item='bn_mod' + t, real=True, pc=below(A, 2 * m))
            c.equiv('@conditional_negate', 'spec_bn_cneg', [C(0xffffffff, 32), a, p], can(a, m), setup=su(A, A), item='conditional_negate' + t, models=OFF, real=True, pc=below(A, 2 * m))
            c.equiv('@conditional_negate', 'spec_bn_cneg', [C(0, 32), a, p], can(a, m), setup=su(A, A), item='conditional_negate, off' + t, models=OFF, real=True, pc=below(A, 2 * m))
            U = [zext(sym('u%d' % n, 31), 32) if n not in x else C(x[n], 32) for n in range(8)] + [zext(sym('u8', 28), 32)]
            c.equiv('@bn_fast_mod', 'spec_bn_fast', [a, p], can(a, m), setup=su(U, U), item='bn_fast_mod' + t, models=OFF, real=True)


def around(m):
    """constants next to the modulus and its double"""
    for d in (-1, 0, 1):
        yield d, {i: (m + d) >> 30 * i & 0x3fffffff for i in range(9)}
    for d in (-2, -1):
        yield m + d, {i: (2 * m + d) >> 30 * i & 0x3fffffff for i in range(9)}


@obligation('P12', 'big numbers, reduction', S, R)
def _(c):
    L = c.L
    a = L.arg('a')
    for nm, p, m in prm(L):
        for d, x in list(around(m)) + [(1, {i: m >> 30 * i & 0x3fffffff for i in range(1, 9)}), (2, {i: m >> 30 * i & 0x3fffffff for i in range(2, 9)})]:
            A = limbs('a', 17, x)

            def su(I, st, z, A=A):
                put(I, st, a, A)
                return z
            t = ' %s %d/%d' % (nm, len(x), d)
            full = {'@bn_is_less': None, '@bn_subtract': None, '@bn_cmov': None}
            c.equiv('@bn_mod', 'spec_bn_modx', [a, p], can(a, m, 'bnreduced'), setup=su, item='bn_mod' + t, real=True, models=full)
            if len(x) == 9:
                c.equiv('@bn_fast_mod', 'spec_bn_fast', [a, p], can(a, m), setup=su, item='bn_fast_mod' + t, models=OFF, real=True)
                c.equiv('@bn_mult_half', 'spec_bn_half', [a, p], can(a, m), setup=su, item='bn_mult_half' + t, models=OFF, real=True)


def below(l, m):
    """normalised number below m (top limb decides, or the last bit of room is left out)"""
    return ult(l[8], C(m >> 240, 32))


@obligation('P12', 'big numbers, products', S, R)
def _(c):
    L = c.L
    a, b, r = L.arg('a'), L.arg('b'), L.arg('r')
    c.item_limit = 60

    def su(la, lb):
        def g(I, st, x):
            put(I, st, a, la)
            put(I, st, b, lb)
            return x
        return g
    for i, x in enumerate(kinds()):
        A, B = limbs('a', 24, x), limbs('b', 24)
        c.equiv('@bn_multiply_long', 'spec_bn_long', [a, b, r], bnout(r, 18), setup=su(A, B), item='bn_multiply_long (%d)' % i, real=True)
    for nm, p, m in prm(L):
        for i in (8, 12, 16):
            W = [zext(sym('w%d' % j, 30), 32) for j in range(18)]
            W[i + 1] = zext(sym('w%d' % (i + 1), 16), 32)

            def s2(I, st, x, W=W):
                put(I, st, r, W)
                return x
            c.equiv('@bn_multiply_reduce_step', 'spec_bn_step', [r, p, C(i, 32)], bnout(r, 18), setup=s2, item='bn_multiply_reduce_step %s %d' % (nm, i), real=True)
        for i, x in enumerate(kinds()):
            c.equiv('@bn_multiply', 'spec_bn_mulx', [a, b, p], can(b, m), setup=su(limbs('a', 17, x), limbs('b', 17)), item='bn_multiply %s (%d)' % (nm, i), real=True, models={'@bn_multiply': None})
        c.equiv('@bn_sqrt', 'spec_bn_sqrt', [a, p], can(a, m, 'bnreduced'), setup=su(limbs('a', 17), limbs('a', 17)), item='bn_sqrt ' + nm, real=True,
                models={'@bn_addi': None, '@bn_rshift': None})
