"""P16: bech32 and segwit addresses"""
from check import *
from lib import data_of
import bytefn as BF
from checks.conv import oneof, byte, NONNULL
S = 'bech32.cpp'
R = 'value graph of the text, of the decoded parts and of the verdict equals the BIP-173 reference, checksum steps compared in the affine domain over GF(2)'
B32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
UP = ''.join(chr(i) for i in range(65, 91))
LOW = UP.lower()
LB = ''.join(x for x in B32 if x.isalpha())


def step(I, a, st, ins):
    return f('polymod', 32, a[0])


MOD = {'@bech32_polymod_step': step}


@obligation('P16', 'checksum step', S, R)
def _(c):
    c.equiv('@bech32_polymod_step', 'spec_polymod_step', [sym('c', 32)], RET, pc=ult(sym('c', 32), C(1 << 30, 32)))


def text(p, s):
    def fill(I, st, a):
        for i, ch in enumerate(s.encode() + b'\0'):
            I.store(st, at(p, i), C(ch, 8))
        return a
    return fill


def groups(d, n):
    def fill(I, st, a):
        for i in range(n):
            I.store(st, at(d, i), cat([sym(("group", i), 5), C(0, 3)]))
        return a
    return fill


def both(*fs):
    def fill(I, st, a):
        for g in fs:
            a = g(I, st, a)
        return a
    return fill


@obligation('P16', 'bech32 encoding', S, R)
def _(c):
    L = c.L
    o, h, d = L.arg('out'), L.arg('hrp'), L.arg('data')
    pc0 = NONNULL(o, h, d)
    for hrp in ('bc', 'tb', 'bcrt', 'lnbc2500u', ''):
        for n in (0, 1, 2, 33, 53) + (() if hrp != 'bc' else (3, 40, 65)):
            pc = pc0
            tot = len(hrp) + n + 8
            c.equiv('@bech32_encode', 'spec_bech32_encode', [o, h, d, C(n, 64)], lambda v, s, I, a: [('result', v), ('text', I.load(s, o, tot))],
                    pc=pc, models=MOD, setup=both(text(h, hrp), groups(d, n)), bytefn=True, bounded=True, item='bech32_encode "%s" with %d groups' % (hrp, n))
    for n in (1, 2, 5):      # a group above 31
        for k in range(n):
            pc = AND(pc0, NOT(ult(byte(c, d, k), C(32, 8))))
            for i in range(k):
                pc = AND(pc, ult(byte(c, d, i), C(32, 8)))
            c.equiv('@bech32_encode', 'spec_bech32_encode', [o, h, d, C(n, 64)], RET, pc=pc, models=MOD, setup=text(h, 'bc'), bytefn=True, bounded=True, item='bech32_encode, group %d of %d above 31' % (k, n))
    for m in (1, 2):      # any prefix
        def fill(I, st, a):
            I.store(st, at(h, m), C(0, 8))
            return a
        pc = pc0
        for i in range(m):
            pc = AND(pc, NOT(eq(byte(c, h, i), C(0, 8))))
        c.equiv('@bech32_encode', 'spec_bech32_encode', [o, h, d, C(2, 64)], lambda v, s, I, a: [('result', v)] + [('character %d' % i, ITE(eq(v, C(1, 32)), I.load(s, at(o, i), 1), C(0, 8))) for i in range(m + 10)],
                pc=pc, models=MOD, setup=both(fill, groups(d, 2)), bytefn=True, bounded=True, item='bech32_encode, prefix of %d characters' % m)


@obligation('P16', 'bech32 encoding size limit', S, R)
def _(c):
    L = c.L
    o, h, d = L.arg('out'), L.arg('hrp'), L.arg('data')

    def fill(I, st, a):
        text(h, 'bc')(I, st, a)
        for i in range(1100):
            I.store(st, at(d, i), C(i % 32, 8))
        return a
    for n in (200, 992, 1000):
        c.equiv('@bech32_encode', 'spec_bech32_encode', [o, h, d, C(n, 64)], RET, pc=NONNULL(o, h, d), models=MOD, setup=fill, bytefn=True, bounded=True, item='bech32_encode with %d groups' % n)


def dec(c, n, sep, kinds, item, concrete=None):
    """input of n characters, the last '1' at sep (None: none)"""
    L = c.L
    hrp, d, dn, p = L.arg('hrp'), L.arg('data'), L.arg('data_len'), L.arg('input')

    def fill(I, st, a):
        I.store(st, at(p, n), C(0, 8))
        if sep is not None:
            I.store(st, at(p, sep), C(ord('1'), 8))
        for i, ch in (concrete or {}).items():
            I.store(st, at(p, i), C(ord(ch), 8))
        I.store(st, dn, C(0, 64))
        return a
    pc = NONNULL(hrp, d, dn, p)
    for i in range(n):
        if i == sep or concrete and i in concrete:
            continue
        b = byte(c, p, i)
        q = kinds(i)
        pc = AND(pc, q(b) if callable(q) else oneof(b, q))
    if pc is FALSE:
        raise Unsupported('vacuous')
    k = n - 7 - sep if sep is not None else 0

    def obs(v, s, I, a):
        r = [('result', v)]
        if sep is not None and k >= 0:
            good = eq(v, C(1, 32))
            r.append(('number of groups', ITE(good, I.load(s, dn, 8), C(0, 64))))
            r += [('prefix character %d' % i, ITE(good, I.load(s, at(hrp, i), 1), C(0, 8))) for i in range(sep + 1)]
            r += [('group %d' % i, ITE(good, I.load(s, at(d, i), 1), C(0, 8))) for i in range(k)]
        return r
    c.equiv('@bech32_decode', 'spec_bech32_decode', [hrp, d, dn, p], obs, pc=pc, models=MOD, setup=fill, bytefn=True, bounded=True, item='bech32_decode, ' + item)


NZ = lambda b: AND(NOT(eq(b, C(0, 8))), NOT(eq(b, C(ord('1'), 8))))
ANY = lambda b: NOT(eq(b, C(0, 8)))


@obligation('P16', 'bech32 decoding, shape', S, R)
def _(c):
    for n in range(0, 12):
        dec(c, n, None, lambda i: NZ, '%d characters without separator' % n)
    for n in (5, 6, 7, 8, 9, 10, 12):
        for sep in range(n):
            if sep == 0 or n - sep - 1 < 6 or n < 8:
                dec(c, n, sep, lambda i: NZ if i > sep else ANY, '%d characters, separator at %d' % (n, sep))


@obligation('P16', 'bech32 decoding', S, R)
def _(c):
    for n, sep in ((8, 1), (9, 1), (9, 2), (10, 2), (14, 2), (14, 4), (42, 2), (62, 2)):
        dec(c, n, sep, lambda i: oneof_low(i, sep), '%d characters, separator at %d, lower case' % (n, sep))
        dec(c, n, sep, lambda i: oneof_up(i, sep), '%d characters, separator at %d, upper case' % (n, sep))


PRINT = ''.join(chr(i) for i in range(33, 127))


def oneof_low(i, sep):
    return B32 if i > sep else ''.join(x for x in PRINT if x not in UP)


def oneof_up(i, sep):
    return B32.upper() if i > sep else UP


@obligation('P16', 'bech32 decoding, mixed case', S, R)
def _(c):
    for n, sep in ((9, 1), (12, 3)):
        for x in range(n):
            for y in range(n):
                if x == sep or y == sep or x == y or abs(x - y) > 3 and (x + y) % 3:
                    continue
                kinds = lambda i: (LOW if i < sep else LB) if i == x else (UP if i < sep else LB.upper()) if i == y else (LOW if i < sep else B32 if i % 2 else B32.upper())
                dec(c, n, sep, kinds, '%d characters, separator at %d, lower case at %d and upper case at %d' % (n, sep, x, y))


@obligation('P16', 'bech32 decoding, foreign characters', S, R)
def _(c):
    ok = B32 + B32.upper() + '1'
    for n, sep in ((9, 1), (14, 3)):
        for x in range(n):
            if x == sep:
                continue
            for half in (0, 1):
                rng_ = (lambda b: ult(b, C(128, 8))) if not half else (lambda b: NOT(ult(b, C(128, 8))))
                bad = lambda b: AND(NOT(eq(b, C(0, 8))), NOT(oneof(b, PRINT if x < sep else ok)), rng_(b))
                dec(c, n, sep, lambda i: bad if i == x else (LOW if i < sep else B32), '%d characters, separator at %d, foreign character %s at %d' % (n, sep, 'above 127' if half else 'below 128', x))


@obligation('P16', 'bech32 decoding size limit', S, R)
def _(c):
    for n in (200, 1001, 1020):
        dec(c, n, 2, lambda i: B32, '%d characters' % n, concrete={i: 'q' for i in range(n) if i != 2})


@obligation('P16', 'regrouping', S, R)
def _(c):
    L = c.L
    o, d, k = L.arg('out'), L.arg('data'), L.arg('len')
    for n in list(range(0, 12)) + [20, 32, 40]:
        m = (8 * n + 4) // 5
        c.equiv('@impl_to5', 'spec_to5w', [o, d, C(n, 64), k], lambda v, s, I, a: [('result', v), ('length', I.load(s, k, 8))] + [('group %d' % i, I.load(s, at(o, i), 1)) for i in range(m + 1)], pc=NONNULL(o, d, k), bounded=True, item='to 5-bit groups, %d bytes' % n)
    for n in list(range(0, 20)) + [32, 33, 52, 53, 64]:
        pc = NONNULL(o, d, k)
        m = 5 * n // 8
        c.equiv('@impl_to8', 'spec_to8', [o, k, d, C(n, 64)], lambda v, s, I, a: [('result', v)] + [('length', I.load(s, k, 8))] + [('byte %d' % i, I.load(s, at(o, i), 1)) for i in range(m)], pc=pc, setup=groups(d, n), bounded=True, item='to bytes, %d groups' % n)


def enc_model(L):
    def m(I, a, st, ins):
        n = a[3]
        if n.op != 'c':
            raise Unsupported('data length')
        d = I.load(st, a[2], n.a[0], ins)
        h = data_of(I, st, a[1], C(5, 64), ins)
        I.store(st, a[0], f('b32text', 8 * 100, h, d), ins)
        return ITE(eq(f('b32ok', 8, h, d), C(0, 8)), C(0, 32), C(1, 32))
    return {'@bech32_encode': m}


@obligation('P16', 'segwit address encoding', S, R)
def _(c):
    L = c.L
    o, h, p = L.arg('out'), L.arg('hrp'), L.arg('prog')
    ver = sym('ver', 32)
    for n in list(range(0, 5)) + [19, 20, 21, 31, 32, 33, 39, 40, 41, 42]:
        c.equiv('@segwit_addr_encode', 'spec_segwit_encode', [o, h, ver, p, C(n, 64)], lambda v, s, I, a: [('result', v), ('text', ITE(eq(v, C(0, 32)), C(0, 800), I.load(s, o, 100)))], pc=AND(NONNULL(o, h, p), ult(ver, C(1 << 31, 32))), models=enc_model(L), bounded=True, item='segwit_addr_encode, program of %d bytes' % n)


def dec_model(n, hrp):
    def m(I, a, st, ins):
        for i, ch in enumerate(hrp.encode() + b'\0'):
            I.store(st, at(a[0], i), C(ch, 8))
        for i in range(n):
            I.store(st, at(a[1], i), cat([sym(("group", i), 5), C(0, 3)]), ins)
        I.store(st, a[2], C(n, 64), ins)
        return ITE(eq(sym('valid', 8), C(0, 8)), C(0, 32), C(1, 32))
    return {'@bech32_decode': m}


@obligation('P16', 'segwit address decoding', S, R)
def _(c):
    L = c.L
    v, p, n, h, t = L.arg('ver'), L.arg('prog'), L.arg('prog_len'), L.arg('hrp'), L.arg('addr')
    for k in list(range(0, 8)) + [32, 33, 34, 52, 53, 54, 64, 65, 66, 70]:
        for hrp, want in (('bc', 'bc'), ('tb', 'tb'), ('bcrt', 'bcrt'), ('bc', 'bcrt'), ('bcrt', 'bc'), ('tb', 'bc')) + tuple((x, x) for x in ('x' * 50, 'x' * 51, 'x' * 53)):
            if (hrp != want or len(hrp) > 4) and k != 33:
                continue
            tot = len(hrp) + 7 + k

            def fill(I, st, a):
                text(h, want)(I, st, a)
                I.store(st, at(t, tot), C(0, 8))
                return a
            pc = NONNULL(v, p, n, h, t)
            for i in range(tot):
                pc = AND(pc, NOT(eq(byte(c, t, i), C(0, 8))))
            m = max(0, (k - 1) * 5 // 8)

            def obs(r, s, I, a):
                g = eq(r, C(1, 32))
                out = [('result', r), ('version', ITE(g, I.load(s, v, 4), C(0, 32))), ('length', ITE(g, I.load(s, n, 8), C(0, 64)))]
                return out + [('byte %d' % i, ITE(g, I.load(s, at(p, i), 1), C(0, 8))) for i in range(min(m, 40))]
            c.equiv('@segwit_addr_decode', 'spec_segwit_decode', [v, p, n, h, t], obs, pc=pc, models=dec_model(k, hrp), setup=fill, bounded=True, item='segwit_addr_decode, %d groups, prefix %s where %s is expected' % (k, hrp, want))


@obligation('P16', 'segwit address length limit', S, R)
def _(c):
    L = c.L
    v, p, n, h, t = L.arg('ver'), L.arg('prog'), L.arg('prog_len'), L.arg('hrp'), L.arg('addr')
    for tot in (90, 91, 100, 500):
        def fill(I, st, a):
            text(h, 'bc')(I, st, a)
            text(t, 'bc1' + 'q' * (tot - 3))(I, st, a)
            return a
        c.equiv('@segwit_addr_decode', 'spec_segwit_decode', [v, p, n, h, t], RET, pc=NONNULL(v, p, n, h, t), setup=fill, bounded=True, item='segwit_addr_decode, %d characters' % tot)
