"""P21: reading, writing and copying PSBTs"""
from check import *
from checks.conv import NONNULL
from checks.ser import X, tx, txout, script, compact, put, room, both, record
S = 'psbt.cpp'
R = 'value graph of status, consumed length and every kept field equals the reference reader, for every listed layout and split of the data'


def keys(ok):
    """decoding of SEC points (the subject of the public-key property): abstract, all keys valid or all keys invalid"""
    def unc(I, a, st, ins):
        pre, x = I.load(st, a[1], 1, ins), I.load(st, at(a[1], 1), 32, ins)
        if ok:
            I.store(st, a[2], cat([C(4, 8), x, f('y_of', 256, x, band(pre, C(1, 8)))]), ins)
        return C(ok, 32)

    def read(I, a, st, ins):
        return C(ok, 32)
    return {'@ecdsa_uncompress_pubkey': unc, '@ecdsa_read_pubkey': read}


def callin(I, fn, args, st):
    v, s2 = I.call(fn, args, st)
    st.mem, st.pc, st.tok = s2.mem, s2.pc, s2.tok
    return v


def pair(k, v):
    return compact(len(k)) + k + compact(len(v)) + v


def pk(comp=2):
    return [comp] + [X] * (64 if comp == 4 else 32)


def der(r=32, s=32, rp=0x41, sp=0x42, ht=X):
    def num(n, p):
        return [2, n] + ([0, 0x80 | p] if n == 33 else [p]) + [X] * (n - (2 if n == 33 else 1))
    b = num(r, rp) + num(s, sp)
    return [0x30, len(b)] + b + [ht]


def utx(ins, outs):
    """unsigned transaction: outputs spent are (hash any, index)"""
    r = [X] * 4 + [len(ins)]
    for i in ins:
        r += [X] * 32 + ([i, 0, 0, 0] if i is not X else [X] * 4) + [0] + [X] * 4
    r.append(len(outs))
    for n in outs:
        r += txout(n)
    return r + [X] * 4


def psbt(t, ins, outs, glob=()):
    r = [0x70, 0x73, 0x62, 0x74, 0xff, 1, 0] + compact(len(t)) + t
    for p in glob:
        r += p
    r.append(0)
    for s in list(ins) + list(outs):
        for p in s:
            r += p
        r.append(0)
    return r


def read(c, lay, item, split=None, n=None, ok=1, link=None):
    L = c.L
    b, o = L.arg('data'), L.arg('out')
    n = len(lay) if n is None else n

    def su(I, st, a):
        a = put(b, lay[:n])(I, st, a)
        if link:                       # the hash spent by an input is that of the attached transaction
            dst, src, m = link
            h = L.arg('hash')
            callin(I, '@spec_txhash', [at(b, src), C(m, 64), h], st)
            I.store(st, at(b, dst), I.load(st, h, 32))
        return a
    k = n if split is None else split
    c.equiv('@impl_psbt', 'spec_psbt', [b, C(n, 64), C(k, 64), o], record(o), pc=NONNULL(b, o), setup=su, models=keys(ok), bounded=True, leaks=True,
            item=item + ('' if ok else ', points invalid') + ('' if split is None else ', split at %d' % split) + ('' if n == len(lay) else ', cut after %d' % n))


T1 = utx((0,), (22,))
D = lambda n, t=6, comp=2: pair([t] + pk(comp), [X] * 4 * (n + 1))
SIG = lambda comp=2, **kw: pair([2] + pk(comp), der(**kw))
WU = lambda n=22: pair([1], txout(n))



def combos():
    T2 = utx((0, 1), (22, 25))
    yield 'empty', psbt(T1, [[]], [[]])
    yield 'no outputs', psbt(utx((0,), ()), [[WU()]], [])
    yield 'two of everything', psbt(T2, [[WU(), D(2)], [pair([4], [X] * 22), D(1), D(0)]], [[D(1, 2)], [pair([1], [X] * 3), D(2, 2)]])
    yield 'many derivations', psbt(T2, [[D(3), D(1, comp=3), D(5, comp=4)], [D(1)]], [[], [D(3, 2), D(1, 2, 3), D(2, 2, 4)]])
    yield 'many signatures', psbt(T2, [[SIG()], [SIG(r=33), SIG(3, s=31), SIG(4, r=33, s=33)]], [[], []])
    yield 'unknown keys', psbt(T2, [[pair([9, 1], [X] * 3), WU(), pair([3], [1, 0, 0, 0])], [pair([7], [X] * 5), pair([8], [X] * 2), pair([0xfc, X, X], [X])]], [[pair([3, X], []), D(1, 2)], [pair([0xff], [X])]], glob=[pair([1] + [X] * 78, [X] * 8), pair([2], [X])])
    yield 'repeated scripts', psbt(T1, [[pair([4], [X] * 3), pair([4], [X] * 2), pair([5], [X]), pair([5], [X] * 4), WU(3), WU(1)]], [[pair([0], [X] * 3), pair([0], [X] * 1), pair([1], [X] * 3), pair([1], [X] * 4)]])
    yield 'empty scripts', psbt(T1, [[pair([4], []), pair([5], []), WU(0)]], [[pair([0], []), pair([1], [])]])
    for n in (252, 253, 300):
        yield 'scripts of %d bytes' % n, psbt(T1, [[pair([4], [X] * n), pair([5], [X] * n), WU(n)]], [[pair([0], [X] * n), pair([1], [X] * n)]])
    for n in (62, 63):
        yield 'path of %d elements' % n, psbt(T1, [[D(n)]], [[D(n, 2)]])
    for n in (0, 190, 193, 194, 240):
        yield 'transaction of %d bytes' % (60 + n), psbt(utx((X,), (n,)), [[WU(1)]], [[D(0, 2)]])


for _n, _l in combos():
    @obligation('P21', 'reading, ' + _n, S, R)
    def _(c, n=_n, l=_l):
        read(c, l + [X, X], n)


@obligation('P21', 'reading, every field', S, R)
def _(c):
    for name, p in (('witness output', WU()), ('redeem script', pair([4], [X] * 22)), ('witness script', pair([5], [X] * 105)), ('derivation', D(5)), ('signature', SIG()), ('signature by uncompressed key', SIG(4))):
        read(c, psbt(T1, [[p]], [[]]), 'input with ' + name)
    for name, p in (('redeem script', pair([0], [X] * 22)), ('witness script', pair([1], [X] * 105)), ('derivation', D(5, 2)), ('derivation of uncompressed key', D(1, 2, 4))):
        read(c, psbt(T1, [[]], [[p]]), 'output with ' + name)


@obligation('P21', 'reading, many derivations', S, R)
def _(c):
    read(c, psbt(T1, [[D(0)] * 12], [[]]), '12 derivations of an input')
    read(c, psbt(T1, [[]], [[D(0, 2)] * 12]), '12 derivations of an output')


@obligation('P21', 'attached transactions', S, R)
def _(c):
    for t, nm in ((tx((2,), (25, 22, 1)), 'legacy'), (tx((0, 1), (3, 0), ((2, 1), ())), 'segwit'), (tx((3,), (260,)), 'of more than 252 bytes'), (tx((1,), (179,)), 'of 252 bytes')):
        nout = {'legacy': 3, 'segwit': 2}.get(nm, 1)
        for idx in range(nout + 1):
            for other in (0, 1):                 # second input of two
                u = utx((idx,), (1,)) if not other else utx((5, idx), (1,))
                p = pair([0], t)
                sec = [[p]] if not other else [[WU(2)], [p]]
                l = psbt(u, sec, [[]])
                head = len(psbt(u, [], [])) + (0 if not other else len(WU(2)) + 1)
                src = head + len(p) - len(t)
                dst = 5 + 2 + len(compact(len(u))) + 5 + (41 if other else 0)
                read(c, l, '%s, output %d of %d spent by input %d' % (nm, idx, nout, other), link=(dst, src, len(t)))
                if idx == 0:
                    read(c, l, '%s, of any hash, input %d' % (nm, other))
    t = tx((2,), (25, 22))
    for cut in (0, 3, len(t) - 1):
        read(c, psbt(T1, [[pair([0], t[:cut])]], [[]]), 'cut after %d bytes' % cut)
    # the later one of two counts
    l = psbt(T1, [[WU(4), pair([0], t)]], [[]])
    read(c, l, 'after a witness output', link=(13, len(psbt(T1, [], [])) + len(WU(4)) + 3, len(t)))
    l = psbt(T1, [[pair([0], t), WU(4)]], [[]])
    read(c, l, 'before a witness output', link=(13, len(psbt(T1, [], [])) + 3, len(t)))


def bad():
    g = psbt(T1, [[]], [[]])
    for i in range(5):
        for v in (0, g[i] ^ 1, g[i] ^ 0x80):
            yield 'magic byte %d is %02x' % (i, v), g[:i] + [v] + g[i + 1:]
    yield 'first key is not the transaction', g[:6] + [1] + g[7:]
    yield 'first key has two bytes', g[:5] + [2, 0, X] + g[7:]
    yield 'first key is empty', g[:5] + [0] + g[7:]
    yield 'transaction cut', [0x70, 0x73, 0x62, 0x74, 0xff, 1, 0, len(T1) - 1] + T1[:-1] + [0, 0, 0]
    yield 'transaction empty', [0x70, 0x73, 0x62, 0x74, 0xff, 1, 0, 0, 0, 0, 0]
    yield 'transaction with bad count', [0x70, 0x73, 0x62, 0x74, 0xff, 1, 0, 10] + [X] * 4 + [0xfd] + [X] * 5 + [0, 0, 0]
    yield 'overlong key length', psbt(T1, [[[0xfd, 1, 0, 9, 0]]], [[]])
    yield 'overlong value length', psbt(T1, [[[1, 9, 0xfd, 1, 0, 0]]], [[]])
    yield 'overlong length of the first key', g[:5] + [0xfd, 1, 0, 0] + g[7:]
    yield 'overlong length of the first value', g[:7] + [0xfd, g[7], 0] + g[8:]
    for t in (0, 1, 4, 5):
        yield 'two-byte key of input field %d' % t, psbt(T1, [[pair([t, X], txout(1))]], [[]])
    for t in (0, 1):
        yield 'two-byte key of output field %d' % t, psbt(T1, [[]], [[pair([t, X], [X])]])
    for m in (0, 4, 8, 9):
        yield 'witness output cut after %d bytes' % m, psbt(T1, [[pair([1], txout(2)[:m])]], [[]])
    yield 'witness output with overlong length', psbt(T1, [[pair([1], [X] * 8 + [0xfd, 1, 0, X])]], [[]])
    for m in (0, 1, 31, 32, 34, 64, 66):
        k = ([2] + [X] * 80)[:m]
        yield 'signature key with %d bytes' % m, psbt(T1, [[pair([2] + k, der())]], [[]])
        yield 'derivation key with %d bytes' % m, psbt(T1, [[pair([6] + k, [X] * 8)]], [[]])
        yield 'output derivation key with %d bytes' % m, psbt(T1, [[]], [[pair([2] + k, [X] * 8)]])
    for v in (0, 1, 4, 5, 0x82):
        yield 'signature key of 33 bytes with prefix %d' % v, psbt(T1, [[pair([2, v] + [X] * 32, der())]], [[]])
        yield 'derivation key of 33 bytes with prefix %d' % v, psbt(T1, [[pair([6, v] + [X] * 32, [X] * 8)]], [[]])
        yield 'output derivation key of 33 bytes with prefix %d' % v, psbt(T1, [[]], [[pair([2, v] + [X] * 32, [X] * 8)]])
    for m in (0, 1, 3, 5, 6, 7, 9, 15):
        yield 'derivation value of %d bytes' % m, psbt(T1, [[pair([6] + pk(), [X] * m)]], [[]])
        yield 'output derivation value of %d bytes' % m, psbt(T1, [[]], [[pair([2] + pk(), [X] * m)]])
    d = der()
    for nm, v in (('empty', []), ('cut', d[:-3]), ('wrong tag', [0x31] + d[1:]), ('wrong total', d[:1] + [d[1] + 1] + d[2:]), ('smaller total', d[:1] + [d[1] - 1] + d[2:]), ('negative', d[:4] + [0x80] + d[5:]), ('padded', der(rp=0x41)[:4] + [0, 0x7f] + d[6:]), ('wrong integer tag', d[:2] + [3] + d[3:])):
        yield 'signature %s' % nm, psbt(T1, [[pair([2] + pk(), v)]], [[]])


BAD = list(bad())
for _k in range(0, len(BAD), 8):
    @obligation('P21', 'malformed %d..' % _k, S, R)
    def _(c, k=_k):
        for n, l in BAD[k:k + 8]:
            read(c, l + [0], n)


@obligation('P21', 'invalid points', S, R)
def _(c):
    for comp in (2, 3, 4):
        for nm, l in (('signature', psbt(T1, [[SIG(comp)]], [[]])), ('derivation', psbt(T1, [[D(1, 6, comp)]], [[]])), ('output derivation', psbt(T1, [[]], [[D(1, 2, comp)]]))):
            read(c, l, '%s, prefix %d' % (nm, comp), ok=0)


PIECES = [('small', psbt(utx((0,), (1,)), [[pair([4], [X] * 2), pair([9], [X])]], [[pair([0], [X])]])),
          ('with keys', psbt(utx((0,), (1,)), [[WU(1), D(1), SIG()]], [[D(0, 2)]], glob=[pair([2], [X])])),
          ('with long script', psbt(utx((0,), (0,)), [[pair([5], [X] * 253)]], [[]]))]


def pieces(nm, l, lo, hi):
    @obligation('P21', 'in pieces, %s, %d..%d' % (nm, lo, hi - 1), S, R)
    def _(c):
        for k in range(lo, hi):
            if nm != 'with keys' or k % 2 == 0 or c.tier != 'quick':
                read(c, l, nm, split=k)
            if nm != 'with keys' or k % 5 == 0:
                read(c, l, nm, n=k)


for _n, _l in PIECES:
    _ks = list(range(len(_l)))
    if _n == 'with long script':
        _ks = list(range(66, 82)) + [len(_l) - 2, len(_l) - 1]
    for _k in range(0, len(_l), 20):
        _in = [k for k in _ks if _k <= k < _k + 20]
        if _in:
            pieces(_n, _l, _in[0], _in[-1] + 1)


def two(c, pre, a, b, item):
    L = c.L
    p, q, o = L.arg('data'), L.arg('data2'), L.arg('out')
    c.equiv('@impl_%s_psbt' % pre, 'spec_%s_psbt' % pre, [p, C(len(a), 64), q, C(len(b), 64), o], record(o), pc=NONNULL(p, q, o), setup=both(put(p, a), put(q, b)), models=keys(1), bounded=True, leaks=pre == 'again', item=item)


FULL = [psbt(T1, [[]], [[]]), psbt(utx((0, 1), (1, 2)), [[WU(3), D(2), D(0), SIG()], [pair([4], [X] * 3), pair([5], [X] * 2), SIG(), SIG(4, r=33), D(1)]], [[D(1, 2), D(2, 2)], [pair([0], [X] * 2), pair([1], [X] * 3)]]),
        psbt(utx((0,), ()), [[D(1)]], []), psbt(utx((0,), (1,)), [[pair([5], [X] * 2)]], [[pair([0], [X])]])]


@obligation('P21', 'copies', S, 'value graph of every field of the copy, taken after the source was overwritten, equals the field of the source before')
def _(c):
    for i, a in enumerate(FULL):
        two(c, 'copy', a, [], 'copy of variant %d' % i)
        for j, b in enumerate(FULL):
            two(c, 'copy', a, b, 'variant %d assigned over variant %d' % (i, j))


@obligation('P21', 'reuse', S, 'value graph of the fields of a reused object equals that of a fresh one')
def _(c):
    for i, a in enumerate(FULL):
        for j, b in enumerate(FULL):
            two(c, 'again', a, b, 'variant %d read after variant %d' % (i, j))


RS = 'value graph of the written bytes and of their number equals the reference text at that offset and size'


def write(c, lay, ln, off, item):
    L = c.L
    b, o = L.arg('data'), L.arg('out')

    def obs(v, s, I, a):
        return [('result', v)] + [('output byte %d' % i, I.load(s, at(o, i), min(16, ln - i))) for i in range(0, ln, 16)]
    c.equiv('@impl_ser_psbt', 'spec_ser_psbt', [b, C(len(lay), 64), o, C(ln, 64), C(off, 64)], obs, pc=NONNULL(b, o), setup=both(put(b, lay), room(o, ln)), models=keys(1), bounded=True, item='%s, %d bytes from %d' % (item, ln, off))


SER = [('without signatures', psbt(utx((0, 1), (1, 0)), [[], []], [[], []])), ('with a signature', psbt(utx((0,), (1,)), [[SIG()]], [[]])),
       ('with signatures of two inputs', psbt(utx((0, 1), (0,)), [[SIG(r=33), SIG(3)], [SIG(4, s=33)]], [[]])), ('with a long transaction', psbt(utx((0,), (200,)), [[SIG()]], [[]])), ('with nothing to write of it', psbt(T1, [[WU(), D(1)]], [[D(1, 2)]]))]


def wr(nm, l, lo, hi, step):
    @obligation('P21', 'writing, %s, %d..%d' % (nm, lo, hi - 1), S, RS)
    def _(c):
        n = len(l)
        L = c.L
        b = L.arg('data')
        if lo == 0:
            c.equiv('@impl_len_psbt', 'spec_len_psbt', [b, C(n, 64)], RET, pc=NONNULL(b), setup=put(b, l), models=keys(1), bounded=True, item=nm + ', length')
            write(c, l, n, 0, nm)
            write(c, l, n + 3, 0, nm)
        for k in range(lo, min(hi, n + 1), step if c.tier == 'quick' else 2):
            write(c, l, n - k + 2, k, nm)
            write(c, l, k, 0, nm)
            write(c, l, 3, k, nm)


for _n, _l in SER:
    _st = 4 if len(_l) < 130 else 26 if 'long' in _n else 9
    for _k in range(0, len(_l), 60):
        wr(_n, _l, _k, _k + 60, _st)
