"""P15: text and integer encodings"""
from check import *
from lib import data_of
from checks.hd import spec
import bytefn as BF
S = 'conv.cpp'
R = 'value graph of the output buffer and of the returned length equals the reference encoding, at every listed size'
U, CH, SZ, BY = 'unsigned char const*', 'char const*', 'unsigned long', 'unsigned char*'
NONNULL = lambda *p: AND(*[NOT(eq(x, C(0, 64))) for x in p])


def out(k, n):
    def obs(v, s, I, a):
        return [('result', v)] + ([('output', I.load(s, a[k], n))] if n else [])
    return obs


def codec(c, sig, sp, n, on, pc=TRUE, fill=None, extra=(), item='', obs=None, total=None):
    """sig(in, n, out, on, extra...)"""
    L = c.L
    a, o = L.arg('in'), L.arg('out')
    I, st = L.interp(), State()

    def su(I, st, x):
        if fill:
            fill(I, st, a)
        return x
    pc = AND(BF.canon(pc), NONNULL(a, o))
    c.equiv(sig, sp, [a, C(n, 64), o, C(on, 64)] + list(extra), obs or out(2, max(on, total or 0)), pc=pc, setup=su, bytefn=True, bounded=True, item='%s %s' % (sig.split('(')[0], item or '%d bytes into %d' % (n, on)))


def byte(c, p, k):
    return c.L.interp().load(State(), at(p, k), 1)


HEXS = [0, 1, 2, 3, 7, 20, 32]


@obligation('P15', 'hex and binary digits', S, R)
def _(c):
    L = c.L
    for n in HEXS + [300]:
        for on in sorted({2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 9}):
            if on >= 0:
                codec(c, 'toHex(%s, %s, char*, %s)' % (U, SZ, SZ), 'spec_to_hex', n, on)
    for n in [0, 1, 2, 3, 33]:
        for on in sorted({8 * n - 1, 8 * n, 8 * n + 1}):
            if on >= 0:
                codec(c, 'toBin(%s, %s, char*, %s)' % (U, SZ, SZ), 'spec_to_bin', n, on)
    ch = sym('c', 8)
    c.equiv('hexToVal(char)', 'spec_hex_digit', [ch], RET, bytefn=True)


@obligation('P15', 'hex decoding', S, R)
def _(c):
    for n in range(0, 7):
        for on in range(0, 5):
            codec(c, 'fromHex(%s, %s, %s, %s)' % (CH, SZ, BY, SZ), 'spec_from_hex', n, on)


def oneof(b, cs):
    """byte b is one of the characters cs"""
    tb = bytearray(256)
    for x in cs.encode():
        tb[x] = 1
    return BF.canon(NOT(eq(sel(mk('abytes', 0, bytes(tb)), zext(b, 64), 1), C(0, 8))))


@obligation('P15', 'hex decoding, long valid input', S, R)
def _(c):
    p = c.L.arg('in')
    for n, on in ((40, 20), (41, 20), (64, 32), (64, 40), (66, 32), (130, 65)):
        pc = TRUE
        for i in range(n):
            pc = AND(pc, oneof(byte(c, p, i), '0123456789abcdefABCDEF'))
        codec(c, 'fromHex(%s, %s, %s, %s)' % (CH, SZ, BY, SZ), 'spec_from_hex', n, on, pc=pc, item='%d valid digits into %d' % (n, on))

    def fill(I, st, q):
        for i in range(600):
            if i % 37:
                I.store(st, at(q, i), C(ord('0123456789abcdef'[i % 16]), 8))
    pc = TRUE
    for i in range(0, 600, 37):
        pc = AND(pc, oneof(byte(c, p, i), '0123456789abcdefABCDEF'))
    codec(c, 'fromHex(%s, %s, %s, %s)' % (CH, SZ, BY, SZ), 'spec_from_hex', 600, 300, pc=pc, fill=fill, item='600 valid digits')


@obligation('P15', 'binary decoding', S, R)
def _(c):
    for n, on in ((0, 0), (0, 2), (1, 0), (1, 1), (3, 1), (8, 1), (8, 3), (9, 1), (9, 2), (11, 2), (16, 2), (17, 3), (24, 3)):
        codec(c, 'fromBin(%s, %s, %s, %s)' % (CH, SZ, BY, SZ), 'spec_from_bin', n, on)
    n = 2400

    def fill(I, st, p):
        for i in range(n):
            if i % 151:
                I.store(st, at(p, i), C(48 + (i >> 3) % 2, 8))
    codec(c, 'fromBin(%s, %s, %s, %s)' % (CH, SZ, BY, SZ), 'spec_from_bin', n, 300, fill=fill, item='%d digits' % n)


@obligation('P15', 'integers', S, R)
def _(c):
    L = c.L
    a, v = L.arg('arr'), sym('v', 64)
    for n in range(0, 9):
        for nm, sp in (('littleEndianToInt', 'spec_le_to_int'), ('bigEndianToInt', 'spec_be_to_int')):
            c.equiv('%s(%s, %s)' % (nm, U, SZ), sp, [a, C(n, 64)], RET, item='%s %d bytes' % (nm, n))
        for nm, sp in (('intToLittleEndian', 'spec_int_to_le'), ('intToBigEndian', 'spec_int_to_be')):
            c.equiv('%s(%s, %s, %s)' % (nm, SZ, BY, SZ), sp, [v, a, C(n, 64)], lambda v_, s, I, x: [('bytes', I.load(s, a, n + 1))], item='%s %d bytes' % (nm, n))
    c.equiv('lenVarInt(unsigned long)', 'spec_varint_len', [v], RET)
    n = sym('n', 64)
    I0 = L.interp()
    c.equiv('readVarInt(%s, %s)' % (U, SZ), 'spec_read_varint', [a, n], RET, pc=ult(I0.load(State(), a, 1), C(0xfd, 8)), item='readVarInt, one byte')
    for k in (0xfd, 0xfe, 0xff):
        c.equiv('readVarInt(%s, %s)' % (U, SZ), 'spec_read_varint', [a, n], RET, setup=lambda I, st, x: (I.store(st, a, C(k, 8)), x)[1], item='readVarInt, marker %x' % k)
    c.equiv('writeVarInt(%s, %s, %s)' % (SZ, BY, SZ), 'spec_write_varint', [v, a, n], lambda v_, s, I, x: [('length', v_), ('bytes', I.load(s, a, 10))])


def zcase(c, p, n, z, zero=0):
    pc = TRUE
    if z < n:
        pc = NOT(eq(byte(c, p, z), C(zero, 8)))

    def fill(I, st, q):
        for i in range(z):
            I.store(st, at(q, i), C(zero, 8))
    return pc, fill


def b58len(m, z, num, den):
    return z + m * num // den + 1


def base(nm, sp, num, den, dnum, dden, zero, alpha):
    sizes = [(n, z) for n in range(0, 6) for z in range(0, n + 1)] + [(8, 0), (8, 2), (21, 0), (21, 1), (25, 0), (25, 1)]

    def one(part):
        @obligation('P15', '%s encoding %d' % (nm, part), S, R)
        def _(c):
            for n, z in (sizes + [(38, 0), (34, 0)])[part::4]:
                pc, fill = zcase(c, c.L.arg('in'), n, z)
                need = b58len(n - z, z, num, den)
                for on in {need - 1, need, need + 1, need + 7} if n < 8 else {need + 1}:
                    codec(c, 'to%s(%s, %s, char*, %s)' % (nm, U, SZ, SZ), 'spec_to_%s' % sp, n, on, pc=pc, fill=fill, item='%d bytes, %d leading zeros, room %d' % (n, z, on))

        @obligation('P15', '%s decoding %d' % (nm, part), S, R)
        def _(c):
            ab = mk('abytes', 0, bytes(alpha, 'ascii'))
            for n, z in ([(n, z) for n in range(0, 6) for z in range(0, n + 1)] + [(11, 0), (34, 1), (34, 0), (52, 0)])[part::4]:
                # n digits; the first z are the zero digit, the next one is not, all are in the alphabet
                def fill(I, st, q):
                    for i in range(z):
                        I.store(st, at(q, i), C(ord(zero), 8))
                p = c.L.arg('in')
                pc = TRUE
                if z < n:
                    pc = NOT(eq(byte(c, p, z), C(ord(zero), 8)))
                if True:
                    tb = bytearray(b'\xff' * 256)
                    for k, x in enumerate(alpha.encode() + b'\0'):
                        tb[x] = k
                    for i in range(z, n):
                        b = byte(c, p, i)
                        pc = AND(pc, NOT(eq(b, C(0, 8))), NOT(eq(sel(mk('abytes', 0, bytes(tb)), zext(b, 64), 1), C(255, 8))))
                size = z + (n - z) * dnum // dden + 1
                for on in sorted({max(0, size - 2), size, size + 5}) if n < 8 else (size + 3,):
                    codec(c, 'from%s(%s, %s, %s, %s)' % (nm, CH, SZ, BY, SZ), 'spec_from_%s' % sp, n, on, pc=pc, fill=fill, item='%d digits, %d zero digits, room %d' % (n, z, on))
    for k in range(4):
        one(k)

    @obligation('P15', '%s decoding stops at a foreign character' % nm, S, R)
    def _(c):
        p = c.L.arg('in')
        for n in range(1, 6):
            for l in range(n):
                for z in range(l + 1):
                    def fill(I, st, q):
                        for i in range(z):
                            I.store(st, at(q, i), C(ord(zero), 8))
                    pc = NOT(oneof(byte(c, p, l), alpha))
                    for i in range(z, l):
                        pc = AND(pc, oneof(byte(c, p, i), alpha.replace(zero, '') if i == z else alpha))
                    codec(c, 'from%s(%s, %s, %s, %s)' % (nm, CH, SZ, BY, SZ), 'spec_from_%s' % sp, n, 8, pc=pc, fill=fill, item='%d characters, %d zero digits, foreign one at %d' % (n, z, l))

    @obligation('P15', '%s sizes' % nm, S, R)
    def _(c):
        p = c.L.arg('in')
        for n in (0, 1, 2, 5, 25, 38, 82, 700):
            for z in (0, 1, 3, n):
                if z > n:
                    continue

                def en(pc, fill, sig, spx):
                    c.equiv(sig, spx, [p, C(n, 64)], RET, pc=AND(pc, NONNULL(p)), setup=lambda I, st, x: (fill(I, st, p), x)[1], bytefn=True, bounded=True, item='%s, %d with %d leading zeros' % (sig.split('(')[0], n, z))
                en(*zcase(c, p, n, z), 'to%sLength(%s, %s)' % (nm, U, SZ), 'spec_to_%s_len' % sp)
                en(*zcase(c, p, n, z, ord(zero)), 'from%sLength(%s, %s)' % (nm, CH, SZ), 'spec_from_%s_len' % sp)


base('Base58', 'b58', 183, 134, 361, 493, '1', '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz')
base('Base43', 'b43', 148, 100, 68, 100, '0', '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:')


def frame_models(L):
    """Base58 text as a pure function of the bytes, bytes and their number as functions of the text"""
    def enc(I, a, st, ins):
        d = data_of(I, st, a[0], a[1], ins)
        I.store(st, a[2], f('b58text', 8 * 40, d, a[3]), ins)
        return f('b58len', 64, d, a[3])

    def dec(I, a, st, ins):
        k = sym('decoded', 64)
        v = sym('decoded_bytes', 8 * 40)
        I.store(st, a[2], v, ins)
        return k
    return {L.fn('toBase58(%s, %s, char*, %s)' % (U, SZ, SZ)): enc, L.fn('fromBase58(%s, %s, %s, %s)' % (CH, SZ, BY, SZ)): dec}


@obligation('P15', 'Base58Check checksum', S, R)
def _(c):
    L = c.L
    a, o, n = L.arg('in'), L.arg('out'), sym('n', 64)
    pc = NONNULL(a, o)
    on = sym('room', 64)
    c.equiv('toBase58Check(%s, %s, char*, %s)' % (U, SZ, SZ), 'spec_to_b58check', [a, n, o, on], out(2, 40), pc=pc, models=frame_models(L))
    k = sym('decoded', 64)
    for d in list(range(0, 9)) + [21, 25, 36]:
        c.equiv('fromBase58Check(%s, %s, %s, %s)' % (CH, SZ, BY, SZ), 'spec_from_b58check', [a, n, o, C(36, 64)],
                lambda v, s, I, x: [('result', v), ('payload', ITE(eq(v, C(0, 64)), C(0, 8), I.load(s, o, max(1, d - 4))) if d > 4 else C(0, 8))], pc=AND(pc, eq(k, C(d, 64))), models=frame_models(L), item='fromBase58Check, %d bytes decoded' % d)
    c.equiv('toBase58Check(%s, %s, char*, %s)' % (U, SZ, SZ), 'spec_to_b58check', [C(0, 64), n, o, on], RET, item='toBase58Check(NULL)', models=frame_models(L))
    c.equiv('fromBase58Check(%s, %s, %s, %s)' % (CH, SZ, BY, SZ), 'spec_from_b58check', [C(0, 64), n, o, on], RET, item='fromBase58Check(NULL)', models=frame_models(L))


def b64(part, np, url):
    fl = C((1 if np else 0) | (2 if url else 0), 8)
    nm = ('unpadded' if np else 'padded') + (', url-safe' if url else '')

    @obligation('P15', 'Base64 encoding, ' + nm, S, R)
    def _(c):
        for n in list(range(0, 8)) + [32, 33, 34]:
            need = (n // 3 * 4 + (n % 3 + 1 if n % 3 else 0)) if np else (n + 2) // 3 * 4
            for on in sorted({need - 1, need, need + 1}):
                if on >= 0:
                    codec(c, 'toBase64(%s, %s, char*, %s, unsigned char)' % (U, SZ, SZ), 'spec_to_b64', n, on, extra=[fl])
            p = c.L.arg('in')
            c.equiv('toBase64Length(%s, %s, unsigned char)' % (U, SZ), 'spec_to_b64_len', [p, C(n, 64), fl], RET, item='toBase64Length %d' % n)

    @obligation('P15', 'Base64 decoding, ' + nm, S, R)
    def _(c):
        p = c.L.arg('in')
        alpha = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789' + ('+/-_' if url else '+/')
        for n in range(0, 10):
            c.equiv('fromBase64Length(%s, %s, unsigned char)' % (CH, SZ), 'spec_from_b64_len', [p, C(n, 64), fl], RET, pc=NONNULL(p), item='fromBase64Length %d' % n)
        # l digits of the alphabet, then the end, padding (followed by padding or not) or a foreign character
        for n in list(range(0, 10)) + [24] if not url else (0, 3, 4):
            for l in range(n + 1) if n < 10 else (21, 22, 23, 24):
                pre = TRUE
                for i in range(l):
                    pre = AND(pre, oneof(byte(c, p, i), alpha))
                kinds = [('end', TRUE)] if l == n else [('padding', eq(byte(c, p, l), C(61, 8))), ('foreign', NOT(oneof(byte(c, p, l), alpha + '=')))]
                if l + 1 < n:
                    two = eq(byte(c, p, l + 1), C(61, 8))
                    kinds[:1] = [('two paddings', AND(kinds[0][1], two)), ('one padding', AND(kinds[0][1], NOT(two)))]
                for what, k in kinds:
                    for on in sorted({0, n // 4 * 3 - 1, n // 4 * 3, n // 4 * 3 + 3}) if n < 10 and not url else (n // 4 * 3,):
                        if on >= 0:
                            codec(c, 'fromBase64(%s, %s, %s, %s, unsigned char)' % (CH, SZ, BY, SZ), 'spec_from_b64', n, on, extra=[fl], pc=AND(pre, k), item='%d digits of %d then %s, room %d' % (l, n, what, on))


for _k, (_n, _u) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1))):
    b64(_k, _n, _u)
