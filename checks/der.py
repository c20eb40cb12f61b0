from check import *
S = 'der.cpp'
RULE = 'value graph equals the DER reference, by cases on the integer lengths'


def cls_pc(I, st, p):
    """(index of first non-zero byte, high bit) cases of the 32 bytes at p"""
    b = [I.load(st, at(p, k), 1) for k in range(32)]
    out = []
    pre = TRUE
    for i in range(32):
        hi = NOT(ult(b[i], C(0x80, 8)))
        nz = NOT(eq(b[i], C(0, 8))) if i < 31 else TRUE
        out.append((i, 1, AND(pre, hi)))
        out.append((i, 0, AND(pre, nz, NOT(hi))))
        pre = AND(pre, eq(b[i], C(0, 8)))
    return out


def enc(part):
    @obligation('P10', 'DER encoding, first integer class %d' % part, S, RULE)
    def _(c):
        L = c.L
        g, o = L.arg('sig', 'Signature'), L.arg('out')
        fl = L.mod.fields('Signature')
        I, st = L.interp(), State()
        for i, h, pc in cls_pc(I, st, at(g, fl['r'][0]))[part::16]:
            def obs(v, s, I, a):
                return [('length', v), ('bytes', I.load(s, o, 72))]
            c.equiv('Signature::der(unsigned char*, unsigned long) const', 'spec_der', [g, o, C(72, 64)], obs, pc=pc, sargs=[g, o],
                    item='Signature::der r[%d%s]' % (i, '+' if h else ''), setup=lambda I, st, a: (I.store(st, o, C(0, 72 * 8)), a)[1])


for _k in range(16):
    enc(_k)


def dec_case(c, l1, l2, n, pc, item):
    L = c.L
    g, d, r, s_ = L.arg('sig', 'Signature'), L.arg('der'), L.arg('r'), L.arg('s')
    fl = L.mod.fields('Signature')

    def lens(I, st):
        I.store(st, at(d, 3), l1 if isinstance(l1, T) else C(l1, 8))
        if l2 is not None:
            I.store(st, at(d, 5 + l1), l2 if isinstance(l2, T) else C(l2, 8))

    def su(I, st, a):
        v, s2 = I.call(L.fn('Signature::Signature()'), [g], st)
        st.mem = s2.mem
        lens(I, st)
        return a

    def su2(I, st, a):
        I.specside = True
        lens(I, st)
        return a

    def obs(v, s, I, a):
        if getattr(I, 'specside', False):
            ok = NOT(eq(v, C(0, 32)))
            x, y = I.load(s, r, 32), I.load(s, s_, 32)
        else:
            ok = eq(I.load(s, at(g, fl['status'][0]), 4), C(0, 32))
            x, y = I.load(s, at(g, fl['r'][0]), 32), I.load(s, at(g, fl['s'][0]), 32)
        return [('accepted', ok), ('r', ITE(ok, x, C(0, 256))), ('s', ITE(ok, y, C(0, 256)))]
    c.equiv('Signature::fromDer(unsigned char const*, unsigned long)', 'spec_from_der', [g, d, n], obs, pc=AND(pc, NOT(eq(d, C(0, 64)))), sargs=[d, n, r, s_],
            setup=su, setup2=su2, item='Signature::fromDer ' + item)


GRID = (0, 1, 2, 16, 31, 32, 33)       # the quick tier crosses these with every length, the thorough tier everything


def dec(l1):
    @obligation('P10', 'DER decoding, first integer %d bytes' % l1, S, RULE)
    def _(c):
        n = sym('len', 64)
        for l2 in range(34):
            if c.tier == 'quick' and l1 not in GRID and l2 not in GRID:
                continue
            dec_case(c, l1, l2, n, ult(C(5 + l1 + l2, 64), n), 's of %d bytes' % l2)
        l2 = sym('l2', 8)
        dec_case(c, l1, l2, n, AND(ult(C(100 + l1, 64), n), ult(C(33, 8), l2)), 's too long')


for _k in range(34):
    dec(_k)


@obligation('P10', 'DER decoding, oversized first integer', S, RULE)
def _(c):
    n, l1 = sym('len', 64), sym('l1', 8)
    dec_case(c, l1, None, n, AND(ult(C(300, 64), n), ult(C(33, 8), l1)), 'r too long')


def trunc_(l1, l2):
    @obligation('P10', 'truncated DER, %d and %d byte integers' % (l1, l2), S, RULE)
    def _(c):
        for k in range(6 + l1 + l2):
            dec_case(c, l1, l2, C(k, 64), TRUE, 'cut at %d' % k)


for _a, _b in ((1, 1), (32, 32), (33, 33), (33, 32), (20, 33)):
    trunc_(_a, _b)
