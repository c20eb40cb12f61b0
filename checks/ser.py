"""P17: parsing and serialising of scripts, witnesses, inputs, outputs and transactions"""
from check import *
from checks.conv import NONNULL, oneof, byte
S = 'ser.cpp'
R = 'value graph of status, consumed length and every parsed field equals the reference reader, for every listed layout and split of the data'


def compact(n):
    return [n] if n < 0xfd else [0xfd, n & 255, n >> 8] if n < 65536 else [0xfe] + [n >> 8 * i & 255 for i in range(4)]


X = None      # any byte


def script(n):
    return compact(n) + [X] * n


def txin(n):
    return [X] * 36 + script(n) + [X] * 4


def txout(n):
    return [X] * 8 + script(n)


def witness(*ns):
    r = [len(ns)]
    for n in ns:
        r += script(n)
    return r


def tx(ins, outs, wit=None):
    r = [X] * 4 + ([0, 1] if wit is not None else []) + [len(ins)]
    for n in ins:
        r += txin(n)
    r.append(len(outs))
    for n in outs:
        r += txout(n)
    for w in wit or ():
        r += witness(*w)
    return r + [X] * 4


def parse(c, what, lay, split=None, item='', n=None):
    L = c.L
    b, o = L.arg('data'), L.arg('out')
    n = len(lay) if n is None else n

    def fill(I, st, a):
        for i, v in enumerate(lay[:n]):
            if v is not X:
                I.store(st, at(b, i), C(v, 8))
        limit(I, st, b, n)
        return a

    def obs(v, s, I, a):
        good = eq(I.load(s, o, 1), C(0, 8))
        k = v.a[0] if v.op == 'c' else None
        out = [('record length', v)]
        if k is None:
            out.append(('status', I.load(s, o, 1)))
            return out
        i = 0
        while i < k:
            m = min(16, k - i)
            out.append(('record byte %d' % i, I.load(s, at(o, i), m)))
            i += m
        return out
    k = n if split is None else split
    c.equiv('@impl_' + what, 'spec_' + what, [b, C(n, 64), C(k, 64), o], obs, pc=NONNULL(b, o), setup=fill, bounded=True, leaks=True, item='%s %s%s' % (what, item, '' if split is None else ', split at %d' % split))


@obligation('P17', 'script parsing', S, R)
def _(c):
    for n in (0, 1, 2, 25, 75, 76, 252, 253, 254, 300):
        parse(c, 'script', script(n), item='of %d bytes' % n)
    for n in (0, 1, 3, 252, 253):
        l = script(n)
        for k in sorted({0, 1, 2, 3, 4, len(l) - 1, len(l) // 2}):
            if 0 <= k < len(l):
                parse(c, 'script', l, n=k, item='of %d bytes, cut after %d' % (n, k))
                parse(c, 'script', l, split=k, item='of %d bytes' % n)
    for n, l in (('fd 00fc', [0xfd, 0xfc, 0]), ('fd 0000', [0xfd, 0, 0]), ('fd 0100', [0xfd, 0, 1]), ('fd 01xx', [0xfd, X, 1]), ('fd xx00', [0xfd, X, 0]), ('fe 0000ffff', [0xfe, 255, 255, 0, 0]), ('fe 000000xx', [0xfe, X, 0, 0, 0]), ('fe 0000xxxx', [0xfe, X, X, 0, 0]), ('ff 00000000xxxxxxxx', [0xff, X, X, X, X, 0, 0, 0, 0])):
        if 'fd 01xx' in n:
            continue
        parse(c, 'script', l + [X] * 4, item='with length ' + n)


@obligation('P17', 'witness parsing', S, R)
def _(c):
    for ns in ((), (0,), (1,), (72, 33), (0, 0, 0), (252,), (253,), (1, 253, 2), (0, 71, 72, 105), (300, 257)):
        l = witness(*ns)
        parse(c, 'witness', l + [X], item='with elements %s' % (ns,))
    for ns in ((2,), (0, 3), (3, 0, 1)):
        l = witness(*ns)
        for k in range(len(l)):
            parse(c, 'witness', l, n=k, item='with elements %s, cut after %d' % (ns, k))
            parse(c, 'witness', l, split=k, item='with elements %s' % (ns,))
    l = witness(257, 253)
    for k in (0, 1, 2, 3, 4, 100, 260, 261, 262, 263, 264, 265, 300):
        parse(c, 'witness', l, n=k, item='with elements (257, 253), cut after %d' % k)
        parse(c, 'witness', l, split=k, item='with elements (257, 253)')
    for n in (0xfd, 0xfe, 0xff):
        parse(c, 'witness', [n] + [X] * 12, item='with count byte %02x' % n)
    for n, l in (('fd 00xx', [0xfd, X, 0]), ('fe 0000xxxx', [0xfe, X, X, 0, 0])):
        if 'fd' in n:
            l = [0xfd, 0xfc, 0]
        parse(c, 'witness', [1] + l + [X] * 12, item='with element length ' + n)


@obligation('P17', 'input parsing', S, R)
def _(c):
    for n in (0, 1, 107, 252, 253):
        parse(c, 'txin', txin(n) + [X], item='with script of %d bytes' % n)
    l = txin(2)
    for k in range(len(l)):
        parse(c, 'txin', l, n=k, item='with script of 2 bytes, cut after %d' % k)
        parse(c, 'txin', l, split=k, item='with script of 2 bytes')
    l = txin(260)
    for k in (35, 36, 37, 38, 39, 40, 298, 299, 300, 302):
        parse(c, 'txin', l, split=k, item='with script of 260 bytes')
    parse(c, 'txin', [X] * 36 + [0xfd, 1, 0] + [X] * 10, item='with overlong script length')


@obligation('P17', 'output parsing', S, R)
def _(c):
    for n in (0, 1, 22, 25, 34, 252, 253):
        parse(c, 'txout', txout(n) + [X], item='with script of %d bytes' % n)
    l = txout(3)
    for k in range(len(l)):
        parse(c, 'txout', l, n=k, item='with script of 3 bytes, cut after %d' % k)
        parse(c, 'txout', l, split=k, item='with script of 3 bytes')
    parse(c, 'txout', [X] * 8 + [0xfd, 1, 0] + [X] * 10, item='with overlong script length')


TXS = [
    ((0,), (0,), None), ((3,), (25, 22), None), ((2, 0), (1,), None), ((107, 106, 1), (34, 0, 25), None), ((1,), (), None), ((253,), (254,), None),
    ((0,), (22,), ((71, 33),)), ((23, 0), (22, 1), ((71, 33), ())), ((0, 1), (0,), ((), (2, 0, 1))), ((0,), (1,), ((),)), ((0, 0, 2), (1,), ((1,), (0,), (3, 253))), ((), (1,), ()),
]


@obligation('P17', 'transaction parsing', S, R)
def _(c):
    for ins, outs, wit in TXS:
        parse(c, 'tx', tx(ins, outs, wit) + [X], item='with scripts %s, %s, witnesses %s' % (ins, outs, wit))
    parse(c, 'tx', tx((0,) * 20, (0,) * 12), item='with 20 inputs and 12 outputs')


@obligation('P17', 'malformed transactions', S, R)
def _(c):
    for v in (0xfd, 0xfe, 0xff):
        parse(c, 'tx', [X] * 4 + [v] + [X] * 20, item='with input count byte %02x' % v)
        parse(c, 'tx', [X] * 4 + [0, 1, v] + [X] * 20, item='with marker and input count byte %02x' % v)
        parse(c, 'tx', [X] * 4 + [1] + txin(0) + [v] + [X] * 20, item='with output count byte %02x' % v)
        parse(c, 'tx', tx((0,), (0,), ((),))[:-5] + [v] + [X] * 20, item='with witness count byte %02x' % v)
    for v in (0, 2, 255):
        parse(c, 'tx', [X] * 4 + [0, v, 1] + txin(0) + [1] + txout(0) + witness(2) + [X] * 4, item='with marker and flag %d' % v)
    over = [0xfd, 2, 0]
    parse(c, 'tx', [X] * 4 + [1] + [X] * 36 + over + [X] * 6 + [1] + txout(1) + [X] * 4, item='with overlong input script length')
    parse(c, 'tx', [X] * 4 + [1] + txin(1) + [1] + [X] * 8 + over + [X] * 6, item='with overlong output script length')
    parse(c, 'tx', [X] * 4 + [0, 1, 1] + txin(1) + [1] + txout(1) + [1] + over + [X] * 6, item='with overlong witness element length')


def pieces(kind, lo, hi):
    @obligation('P17', 'transaction in pieces, %s, %d..%d' % (kind, lo, hi - 1), S, R)
    def _(c):
        l = tx((1, 0), (2, 0)) if kind == 'legacy' else tx((1, 0), (2,), ((2, 0), (1,)))
        for k in range(lo, min(hi, len(l))):
            parse(c, 'tx', l, n=k, item='%s, cut after %d' % (kind, k))
            parse(c, 'tx', l, split=k, item=kind)


for _k in range(0, 130, 20):
    pieces('legacy', _k, _k + 20)
    pieces('segwit', _k, _k + 20)


def put(p, lay):
    """a buffer with exactly these bytes"""
    def fill(I, st, a):
        for i, v in enumerate(lay):
            if v is not X:
                I.store(st, at(p, i), C(v, 8))
        limit(I, st, p, len(lay))
        return a
    return fill


def room(p, n):
    def fill(I, st, a):
        limit(I, st, p, n)
        return a
    return fill


def both(*fs):
    def fill(I, st, a):
        for g in fs:
            a = g(I, st, a)
        return a
    return fill


def record(o):
    def obs(v, s, I, a):
        out = [('record length', v)]
        if v.op == 'c':
            for i in range(0, v.a[0], 16):
                out.append(('record byte %d' % i, I.load(s, at(o, i), min(16, v.a[0] - i))))
        return out
    return obs


RS = 'value graph of the written bytes and of their number equals the wire text of the object at that offset and size'


def ser(c, what, lay, ln, off, item, hexa=False):
    L = c.L
    b, o = L.arg('data'), L.arg('out')

    def obs(v, s, I, a):
        return [('result', v)] + [('output byte %d' % i, I.load(s, at(o, i), min(16, ln - i))) for i in range(0, ln, 16)]
    c.equiv(('@impl_hex_' if hexa else '@impl_ser_') + what, 'spec_hex' if hexa else 'spec_ser', [b, C(len(lay), 64), o, C(ln, 64), C(off, 64)], obs, pc=NONNULL(b, o), setup=both(put(b, lay), room(o, ln)), bounded=True, bytefn=hexa, leaks=True,
            item='%s%s %s, %d bytes from %d' % (what, ' as hex' if hexa else '', item, ln, off))


def windows(c, what, lay, item):
    n = len(lay)
    ser(c, what, lay, n, 0, item)
    ser(c, what, lay, n + 3, 0, item)
    for k in range(0, n + 1, 1 if n < 60 else 3 if n < 150 else n // 7):
        ser(c, what, lay, n - k + 2, k, item)
        ser(c, what, lay, k, 0, item)
        ser(c, what, lay, 2, k, item)


@obligation('P17', 'script and witness serialisation', S, RS)
def _(c):
    for n in (0, 1, 3, 75, 252, 253, 300):
        windows(c, 'script', script(n), 'of %d bytes' % n)
    for ns in ((), (0,), (2, 1), (71, 33), (1, 253)):
        windows(c, 'witness', witness(*ns), 'with elements %s' % (ns,))


@obligation('P17', 'input and output serialisation', S, RS)
def _(c):
    for n in (0, 2, 253):
        windows(c, 'txin', txin(n), 'with script of %d bytes' % n)
        windows(c, 'txout', txout(n), 'with script of %d bytes' % n)
    for ln in (0, 1, 2, 3, 20, 100, 101, 102):
        for off in (0, 1, 35, 40):
            ser(c, 'txin', txin(2), ln, off, 'with script of 2 bytes', hexa=True)
        ser(c, 'txout', txout(3), ln, ln % 5, 'with script of 3 bytes', hexa=True)


def txser(j):
    ins, outs, wit = TXS[j]
    if wit is not None and not any(wit):
        return

    @obligation('P17', 'transaction serialisation, scripts %s, %s, witnesses %s' % (ins, outs, wit), S, RS)
    def _(c):
        windows(c, 'tx', tx(ins, outs, wit), 'with scripts %s, %s, witnesses %s' % (ins, outs, wit))


for _j in range(len(TXS)):
    txser(_j)


@obligation('P17', 'transaction serialisation, many inputs or outputs', S, RS)
def _(c):
    l = [X] * 4 + [0xfd, 253, 0] + txin(0) * 253 + [1] + txout(0) + [X] * 4
    for off, ln in ((0, 12), (4, 2), (5, 3), (6, 30)):
        ser(c, 'tx', l, ln, off, 'with 253 inputs')
    l = [X] * 4 + [1] + txin(0) + [0xfd, 1, 1] + txout(0) * 257 + [X] * 4
    for off, ln in ((44, 12), (46, 2), (47, 4), (48, 30), (len(l) - 8, 9)):
        ser(c, 'tx', l, ln, off, 'with 257 outputs')


RC = 'value graph of every field of the copy, taken after the source was overwritten, equals the field of the source before'


def two(c, pre, what, lay, lay2, item):
    L = c.L
    b, b2, o = L.arg('data'), L.arg('data2'), L.arg('out')
    c.equiv('@impl_%s_%s' % (pre, what), 'spec_%s_%s' % (pre, what), [b, C(len(lay), 64), b2, C(len(lay2), 64), o], record(o), pc=NONNULL(b, b2, o), setup=both(put(b, lay), put(b2, lay2)), bounded=True, leaks=True, item='%s %s' % (what, item))


LAY = {'script': [script(n) for n in (0, 3, 253)], 'witness': [witness(*n) for n in ((), (2, 0), (0,), (253, 1))], 'txin': [txin(n) for n in (0, 3)], 'txout': [txout(n) for n in (0, 3)],
       'tx': [tx((1,), (2, 0)), tx((0, 2), (1,), ((2, 0), ())), tx((0,), ())]}


@obligation('P17', 'copies', S, RC)
def _(c):
    for what, ls in LAY.items():
        for i, l in enumerate(ls):
            two(c, 'copy', what, l, [], 'copy of variant %d' % i)
            for j, m in enumerate(ls):
                two(c, 'copy', what, l, m, 'variant %d assigned over variant %d' % (i, j))


@obligation('P17', 'reuse', S, 'value graph of the parsed fields of a reused object equals that of a fresh one')
def _(c):
    for what, ls in LAY.items():
        for i, l in enumerate(ls):
            for j, m in enumerate(ls):
                two(c, 'again', what, l, m, 'variant %d parsed after variant %d' % (i, j))


@obligation('P17', 'building', S, 'value graph of every field equals the reference')
def _(c):
    L = c.L
    b, bi, bo, o = L.arg('data'), L.arg('in'), L.arg('ou'), L.arg('out')
    for i, l in enumerate([[]] + LAY['tx']):
        for n in (0, 2):
            li, lo = txin(n), txout(3 - n)
            c.equiv('@impl_add', 'spec_add', [b, C(len(l), 64), bi, C(len(li), 64), bo, C(len(lo), 64), o], record(o), pc=NONNULL(b, bi, bo, o), setup=both(put(b, l), put(bi, li), put(bo, lo)), bounded=True, item='addInput and addOutput on variant %d, scripts of %d and %d bytes' % (i, n, 3 - n))
    idx, seq = sym('idx', 32), sym('seq', 32)
    for n in (0, 1, 25, 253):
        c.equiv('@impl_mkin', 'spec_mkin', [b, idx, seq, bi, C(n, 64), o], record(o), pc=NONNULL(b, bi, o), bounded=True, item='inputs with script of %d bytes' % n)
        c.equiv('@impl_mkout', 'spec_mkout', [sym('amount', 64), bi, C(n, 64), o], record(o), pc=NONNULL(bi, o), bounded=True, item='outputs with script of %d bytes' % n)
    pc = NONNULL(b, bi, o)
    for i in range(64):
        pc = AND(pc, oneof(byte(c, b, i), '0123456789abcdefABCDEF'))
    c.equiv('@impl_mkin_hex', 'spec_mkin_hex', [b, idx, seq, bi, C(3, 64), o], record(o), pc=pc, setup=put(b, [X] * 64 + [0]), bounded=True, bytefn=True, item='inputs from a hexadecimal id')


@obligation('P17', 'hexadecimal parsing', S, R)
def _(c):
    L = c.L
    b, o = L.arg('data'), L.arg('out')
    H = '0123456789abcdefABCDEF'
    for what, lay in (('txout', txout(2)), ('txin', txin(1))):
        n = 2 * len(lay)

        def fill(I, st, a):
            for i, v in enumerate(lay):
                if v is not X:
                    for k, ch in enumerate('%02x' % v):
                        I.store(st, at(b, 2 * i + k), C(ord(ch), 8))
            return a
        base = NONNULL(b, o)
        for bad in (None, 0, 1, 7, 14, n - 2, n - 1):
            pc = base
            for i in range(n):
                if lay[i // 2] is X:
                    d = oneof(byte(c, b, i), H)
                    pc = AND(pc, NOT(d) if i == bad else d)
            for m in ((n, n - 1, n - 2, 0, 1) if bad is None else (n,)):
                c.equiv('@impl_%s_hex' % what, 'spec_%s_hex' % what, [b, C(m, 64), o], record(o), pc=pc, setup=fill, bounded=True, bytefn=True, item='%s, %d of %d digits%s' % (what, m, n, '' if bad is None else ', digit %d is not hexadecimal' % bad))
