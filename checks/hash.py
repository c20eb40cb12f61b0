"""P20: SHA-256, SHA-512, RIPEMD-160, HMAC, PBKDF2 and the hash interface"""
from check import *
from checks.conv import NONNULL
S, B = 'hash.cpp', 'hashbig.cpp'
OFF = {'@%s_%s' % (k, x): None for k in ('sha256', 'sha512', 'ripemd160') for x in ('Init', 'Update', 'Final', 'Raw')}
OFF['@ripemd160'] = None


def process(I, a, st, ins):
    """RIPEMD-160 compression function, opaque"""
    off = I.lib.mod.fields('RIPEMD160_CTX')['state'][0]
    p = at(a[0], off)
    I.store(st, p, f('ripemd160_T', 160, I.load(st, p, 20, ins), I.load(st, a[1], 64, ins)), ins)
    return None


OPAQUE = dict(OFF)
OPAQUE['@ripemd160_process'] = process
KW = dict(models=OPAQUE, bounded=True, unroll={None: 5000})
HS = (('256', 64, 32), ('512', 128, 64), ('160', 64, 20))


@obligation('P20', 'compression functions', S, 'value graph of the compression function equals the one of the standard, for every chaining value and block')
def _(c):
    i, m, o = c.L.arg('in'), c.L.arg('m'), c.L.arg('out')
    c.item_limit = 120
    for k, n in (('256', 32), ('512', 64)):
        mo = dict(OFF)
        mo['@sha%s_Transform' % k] = None
        c.equiv('@impl_t' + k, 'spec_t' + k, [i, m, o], MEM(2, n), models=mo, item='SHA-%s block' % k, unroll={None: 100}, bounded=True)
    c.equiv('@impl_t160', 'spec_t160', [i, m], MEM(0, 20), models=OFF, item='RIPEMD-160 block', unroll={None: 100}, bounded=True)


R1 = 'value graph of the digest, over an opaque compression function, equals the padded and chained message of the standard'
for k, bl, dl in HS:
    @obligation('P20', 'padding and chaining, ' + k, S, R1)
    def _(c, k=k, bl=bl, dl=dl):
        d, o = c.L.arg('d'), c.L.arg('out')
        pad = bl - bl // 8
        for n in range(0, 2 * bl + 4):
            c.equiv('@impl_raw' + k, 'spec_raw' + k, [d, C(n, 64), o], MEM(2, dl), item='%d bytes at once' % n, pc=NONNULL(o), **KW)
        for n in (3 * bl - 1, 3 * bl, 4 * bl + pad, 1000, 2051, 4099):
            c.equiv('@impl_raw' + k, 'spec_raw' + k, [d, C(n, 64), o], MEM(2, dl), item='%d bytes at once' % n, pc=NONNULL(o), **KW)
        ns = (0, 1, 3, pad - 1, pad, bl - 1, bl, bl + 1)
        for a in ns:
            for b in ns:
                for e in (0, 1, bl - a % bl, 2 * bl - 1):
                    c.equiv('@impl_' + k, 'spec_' + k, [d, C(a, 64), C(b, 64), C(e, 64), o], MEM(4, dl), item='%d, %d and %d bytes' % (a, b, e), pc=NONNULL(o), **KW)


@obligation('P20', 'long messages', B, R1)
def _(c):
    d, o = c.L.arg('d'), c.L.arg('out')
    for k, bl, dl in HS:
        w = 32 if k == '160' else 64
        if k == '256':
            cs = [[cat([C(0, 16), sym('n', 48)])]] + [[C(v, 64)] for v in (2 ** 32 - 512, 2 ** 32, 2 ** 32 + 512, 2 ** 35, 2 ** 63, 2 ** 61 - 512)]
        elif k == '512':
            cs = [[cat([C(0, 16), sym('n', 48)]), sym('hi', 64)]] + [[C(v, 64), sym('hi', 64)] for v in (2 ** 32, 2 ** 32 - 1024, 2 ** 64 - 1024, 2 ** 63)]
        else:
            cs = [[cat([C(0, 16), sym('n', 16)]), sym('hi', 32)]] + [[C(v, 32), sym('hi', 32)] for v in (2 ** 29 - 64, 2 ** 29, 2 ** 31, 2 ** 32 - 64)]
        for cnt in cs:
            for a, b in ((0, 0), (1, 0), (bl - 9, 1), (bl - 8, 0), (bl - 17, 2), (bl - 1, 1), (bl, 0), (bl + 3, bl)):
                c.equiv('@impl_big' + k, 'spec_big' + k, cnt + [d, C(a, 64), C(b, 64), o], MEM(len(cnt) + 3, dl), item='%s, after %s units, %d and %d bytes' % (k, hex(cnt[0].a[0]) if cnt[0].op == 'c' else 'any number of', a, b), pc=NONNULL(o), **KW)


R2 = 'value graph of the authentication code equals RFC 2104 over the hash function'
for k, bl, dl in HS[:2]:
    @obligation('P20', 'HMAC ' + k, S, R2)
    def _(c, k=k, bl=bl, dl=dl):
        x, d, o = c.L.arg('key'), c.L.arg('d'), c.L.arg('out')
        n = zext(sym('len', 32), 64)
        for kl in list(range(0, bl + 5)) + [2 * bl, 3 * bl + 1]:
            a = [x, C(kl, 64), d, n, o]
            kw = dict(bounded=True, unroll={None: 200})
            c.equiv('@impl_hmac' + k, 'spec_hmac' + k, a, MEM(4, dl), item='%d byte key' % kl, **kw)
            c.equiv('sha%sHmac(unsigned char const*, unsigned long, unsigned char const*, unsigned long, unsigned char*)' % k, 'spec_hmac' + k, a, BOTH(RET, MEM(4, dl)), item='sha%sHmac, %d byte key' % (k, kl), **kw)
            c.equiv('@impl_hmac%sc' % k, 'spec_hmac' + k, a, BOTH(RET, MEM(4, dl)), item='stream object, %d byte key' % kl, **kw)
            a[3] = C(9, 64)
            c.equiv('@impl_hmac%sb' % k, 'spec_hmac' + k, a, BOTH(RET, MEM(4, dl)), item='stream object by pieces, %d byte key' % kl, **kw)


R3 = 'value graph of the derived key, over an opaque compression function, equals RFC 8018'
for k, bl, dl in HS[:2]:
    @obligation('P20', 'PBKDF2 ' + k, S, R3)
    def _(c, k=k, bl=bl, dl=dl):
        p, s, o = c.L.arg('pass'), c.L.arg('salt'), c.L.arg('out')
        for pl, sl, it, kl in ((5, 7, 1, dl), (0, 0, 1, dl), (bl, 8, 2, dl), (bl + 1, 8, 2, dl), (bl - 1, 8, 3, dl), (9, bl - 9, 2, dl), (9, bl - 8, 1, dl), (9, bl, 2, dl), (9, bl - 4, 2, dl),
                               (8, 4, 4, dl + 1), (8, 4, 2, 2 * dl), (8, 4, 1, 3 * dl - 1), (8, 4, 2, 1), (8, 4, 2, dl - 1), (40, 12, 5, dl)):
            c.equiv('@impl_pbkdf2_' + k, 'spec_pbkdf2_' + k, [p, C(pl, 32), s, C(sl, 32), C(it, 32), o, C(kl, 32)], MEM(5, kl), item='password %d, salt %d, %d rounds, %d byte key' % (pl, sl, it, kl), pc=NONNULL(o), **KW)


R4 = 'value graph of the digest and of the result equals the named composition of hash functions'


@obligation('P20', 'interface', S, R4)
def _(c):
    d, e, o, t = c.L.arg('d'), c.L.arg('e'), c.L.arg('out'), c.L.arg('tag')
    n = sym('len', 64)
    for N, dl in (('sha256', 32), ('sha512', 64), ('rmd160', 20), ('hash160', 20), ('doubleSha', 32)):
        n = zext(sym('len', 32), 64) if N == 'rmd160' else sym('len', 64)
        m = zext(sym('len2', 32), 64)
        for v, w in (('u', 'array'), ('c', 'text')):
            c.equiv('@impl_%s_%s' % (N, v), 'spec_' + N, [d, n, o], BOTH(RET, MEM(2, dl)), item='%s of %s' % (N, w))
        c.equiv('@impl_%s_s' % N, 'spec_%s_s' % N, [d, o], BOTH(RET, MEM(1, dl)), item='%s of string' % N)
        c.equiv('@impl_%s_k' % N, 'spec_%s_k' % N, [d, n, sym('x', 8), e, m, o], BOTH(RET, MEM(5, dl)), item='%s object, pieces and single bytes' % N)
        c.equiv('@impl_%s_r' % N, 'spec_%s_r' % N, [d, n, e, m, o], BOTH(RET, MEM(4, dl)), item='%s object used again' % N)
    n = sym('len', 64)
    for v in 'uck':
        c.equiv('@impl_tagged_' + v, 'spec_tagged', [t, d, n, o], BOTH(RET, MEM(3, 32)), item='tagged hash ' + v)
    c.equiv('@impl_tagged_s', 'spec_tagged_s', [t, d, o], BOTH(RET, MEM(2, 32)), item='tagged hash of strings')
