"""P22: signing a PSBT, its fee and the ownership of its outputs"""
from check import *
from checks.conv import NONNULL
from checks.ser import X, txout, put, both, record
from checks.psbt import S, callin, psbt, utx, pair, pk, keys, SIG
from checks.sign import signer, PKH, WPKH, FIRST
from checks.hd import PRV, PUB, fields
from lib import at_
R = 'value graph of the signed PSBT and of the returned count equals the reference: right keys, right digest, right place, nothing else changed'


def children(c):
    """child derivation as a pure function of the parent's fields (its definition is the subject of another property)"""
    L = c.L

    def mk(cls, ctor, sig):
        fk = fields(L, cls)
        m = dict(PRV if cls == 'HDPrivateKey' else PUB)
        po = fk['pubKey'][0] + fields(L, 'PublicKey')['point'][0] if cls == 'HDPrivateKey' else fk['point'][0]
        parts = sorted((fk[v][0], fk[v][1]) for v in m.values() if v != 'point')

        def model(I, a, st, ins):
            seen = [given(I.load(st, at_(a[1], o), w, ins), st.pc) for o, w in parts + [(po, 32), (po + 32, 32)]]
            key = cat(seen + [zext(x, 32) if x.w == 1 else x for x in a[2:]])
            callin(I, L.fn(ctor), [a[0]], st)
            for o, w in parts:
                I.store(st, at_(a[0], o), f('child.%s.%d' % (cls[2:5], o), 8 * w, key), ins)
            I.store(st, at_(a[0], po), f('child.x', 256, key), ins)
            I.store(st, at_(a[0], po + 32), f('child.y', 256, key), ins)
            return C(0, 8)
        return {L.fn(sig): model}
    r = mk('HDPrivateKey', 'HDPrivateKey::HDPrivateKey()', 'HDPrivateKey::child(unsigned int, bool) const')
    r.update(mk('HDPublicKey', 'HDPublicKey::HDPublicKey()', 'HDPublicKey::child(unsigned int) const'))
    k = keys(1)
    unc0 = k['@ecdsa_uncompress_pubkey']

    def unc(I, a, st, ins):
        """decompression of the compressed form of a known point gives that point"""
        pre, x = I.load(st, a[1], 1, ins), I.load(st, at(a[1], 1), 32, ins)
        y = f('child.y', 256, *x.a[1:]) if x.op == 'f' and x.a[0] == 'child.x' else ROOT.get(x)
        if y is None:
            return unc0(I, a, st, ins)
        odd = lambda t: band(t, C(1, 8))
        I.store(st, a[2], cat([C(4, 8), x, ITE(eq(odd(pre), odd(ext(y, 248, 8))), y, f('mirrored', 256, y))]), ins)
        return C(1, 32)
    k['@ecdsa_uncompress_pubkey'] = unc
    r.update(k)
    return r


ROOT = {}


def H(n, low=None):
    """hardened index"""
    return [n & 255, n >> 8, 0, 0x80]


def path(*p):
    r = []
    for x in p:
        r += H(int(x[:-1])) if x.endswith("'") else [X, X, X, 0x12] if x == '*' else [int(x), 0, 0, 0]
    return r


def D(*p, t=6):
    return pair([t] + pk(), [X] * 4 + path(*p))


def sign(c, lay, how, item, first=FIRST[0], cls='HDPrivateKey', what='psign', extra=(), obs=None):
    L = c.L
    b, k, h, o = L.arg('data'), L.arg('root', cls), L.arg('how'), L.arg('out')
    fk = fields(L, cls)
    po = fk['pubKey'][0] + fields(L, 'PublicKey')['point'][0] if cls == 'HDPrivateKey' else fk['point'][0]
    co = fk['pubKey'][0] + fields(L, 'PublicKey')['compressed'][0] if cls == 'HDPrivateKey' else fk['compressed'][0]

    def su(I, st, a):
        put(b, lay)(I, st, a)
        put(h, list(how))(I, st, a)
        I.store(st, at(k, co), C(1, 8))
        ROOT[I.load(st, at(k, po), 32)] = I.load(st, at(k, po + 32), 32)
        return a
    mo = children(c)
    mo.update(signer(*first))
    args = [b, C(len(lay), 64), k, h] + (list(extra) or [o])
    c.equiv('@impl_' + what, 'spec_' + what, args, obs or record(o), pc=NONNULL(b, h, o), setup=su, models=mo, bounded=True, item=item)


WU = lambda s: pair([1], [X] * 8 + [len(s)] + s)
SH = [0xa9, 20] + [X] * 20 + [0x87]
WSH = [0, 32] + [X] * 32
MS = [0x51, 0x21] + [X] * 33 + [0x51, 0xae]
RED = lambda s: pair([4], s)
WIT = lambda s: pair([5], s)
P = ("84'", "1'", "0'", '0', '*')


def kinds():
    yield 'P2PKH', [WU(PKH)]
    yield 'P2WPKH', [WU(WPKH)]
    yield 'P2SH-P2WPKH', [WU(SH), RED(WPKH)]
    yield 'P2WSH', [WU(WSH), WIT(MS)]
    yield 'P2SH-P2WSH', [WU(SH), RED(WSH), WIT(MS)]
    yield 'P2SH', [WU(SH), RED(MS)]
    yield 'bare script', [WU(MS)]
    yield 'nearly P2WPKH', [WU([0, 20] + [X] * 19)]
    yield 'nearly P2SH-P2WPKH', [WU(SH), RED([0x51, 20] + [X] * 20)]
    yield 'one-byte scripts', [WU(SH), RED([X]), WIT([X])]
    yield 'no spent output', []


@obligation('P22', 'script types', S, R)
def _(c):
    for i, (n, p) in enumerate(kinds()):
        sign(c, psbt(utx((0,), (22,)), [p + [D(*P)]], [[]]), [1], n, FIRST[i % 4])


W = [WU(WPKH)]
T3 = utx((0, 1, 2), (22, 25))


@obligation('P22', 'which keys sign', S, R)
def _(c):
    t = utx((0,), (22,))
    for h in range(0, 8):
        if h:
            sign(c, psbt(t, [W + [D(*P)]], [[]]), [h], 'derivation of kind %d' % h)
    for hs in ((1, 1), (2, 1), (1, 5), (6, 1), (1, 7), (3, 4)):
        sign(c, psbt(t, [[WU(WSH), WIT(MS), D(*P), D("48'", "1'", '7', '*')]], [[]]), hs, 'derivations of kinds %d, %d' % hs)
    sign(c, psbt(t, [[WU(WSH), WIT(MS)] + [D('0', '*')] * 3], [[]]), (1, 2, 1), 'derivations of kinds 1, 2, 1')
    sign(c, psbt(t, [[WU(WPKH), D(*P), SIG()]], [[]]), (1,), 'after a foreign signature')
    sign(c, psbt(t, [W], [[D(*P, t=2)]]), (), 'no derivation')


@obligation('P22', 'paths', S, R)
def _(c):
    t = utx((0,), (22,))
    for p in ((), ('0',), ('*',), ("0'",), ("0'", '1'), ('1', "0'"), ("1'", "2'"), ("1'", '5', "2'", '*'), ("44'", "0'", "0'", '1', '2'), ('1', '2', '3', '4', '5', '6', '7')):
        sign(c, psbt(t, [W + [D(*p)]], [[]]), [1], 'm/' + '/'.join(p))


def two(nm, a, b):
    @obligation('P22', 'paths of two inputs, ' + nm, S, R)
    def _(c):
        t = utx((0, 1), (22,))
        for hs in ((1, 1), (2, 1), (6, 1), (1, 6)):
            sign(c, psbt(t, [W + [D(*a)], [WU(PKH), D(*b)]], [[]]), hs, 'm/%s and m/%s, kinds %d, %d' % ('/'.join(a), '/'.join(b), *hs))


two('same account', ("84'", "0'", "0'", '0', '1'), ("84'", "0'", "0'", '1', '*'))
two('other account', ("84'", "0'", "0'", '0', '1'), ("84'", "0'", "1'", '0', '1'))
two('other purpose', ("84'", "0'", "0'", '0', '1'), ("44'", "0'", "0'", '0', '1'))
two('shorter', ("84'", "0'", "0'", '0', '1'), ("84'", "0'"))
two('account key itself', ("84'", "0'", "0'", '0', '1'), ("84'", "0'", "0'"))
two('nothing', ("84'", "0'", '0', '1'), ())
two('first is root', (), ("84'", "0'", '0'))
two('longer account', ("84'", '0', '1'), ("84'", "0'", "0'", '1'))
two('no hardened part', ('1', '2'), ("1'", '2'))


@obligation('P22', 'several inputs', S, R)
def _(c):
    l = psbt(T3, [[WU(PKH), D(*P)], [WU(WSH), WIT(MS), D(*P), D(*P)], [WU(SH), RED(WPKH), D("84'", "1'", "0'", '1', '*')]], [[], [D(*P, t=2)]])
    for hs in ((1, 1, 1, 1), (1, 2, 1, 6), (2, 1, 7, 1), (1, 1, 1, 2)):
        sign(c, l, hs, 'three inputs, kinds %s' % (hs,))
    sign(c, psbt(T3, [[], W, W + [D(*P)]], [[], []]), (1,), 'only the last of three')


RF = 'value graph of the returned fee equals the reference'


@obligation('P22', 'fee', S, RF)
def _(c):
    L = c.L
    b = L.arg('data')
    A = lambda n=1: pair([1], txout(n))
    for nm, l in (('one input', psbt(utx((0,), (1, 2)), [[A()]], [[], []])), ('two inputs', psbt(utx((0, 1), (1,)), [[A()], [A(3)]], [[]])), ('three inputs', psbt(T3, [[A()], [A()], [A()]], [[], []])), ('no outputs', psbt(utx((0,), ()), [[A()]], [])), ('second unknown', psbt(utx((0, 1), (1,)), [[A()], []], [[]])), ('first unknown', psbt(utx((0, 1), (1,)), [[], [A()]], [[]]))):
        c.equiv('@impl_fee', 'spec_fee', [b, C(len(l), 64)], RET, pc=NONNULL(b), setup=put(b, l), models=keys(1), bounded=True, item='fee, ' + nm)


@obligation('P22', 'ownership of outputs', S, 'value graph of the answer equals the reference')
def _(c):
    t = utx((0,), (22, 25))
    for cls, what in (('HDPrivateKey', 'mine_prv'), ('HDPublicKey', 'mine_pub')):
        ps = ((), ('0', '*'), ('1',)) + ((("84'", '1', '*'),) if cls == 'HDPrivateKey' else ())
        for p in ps:
            for h in (1, 6, 7):
                for num in range(4):
                    l = psbt(t, [[]], [[], [D(*p, t=2)]])
                    sign(c, l, [h], '%s, m/%s, kind %d, output %d' % (cls, '/'.join(p), h, num), cls=cls, what=what, extra=[C(num, 8)], obs=RET)
        for hs in ((1, 6), (6, 1), (6, 7), (1, 1)):
            for num in range(2):
                l = psbt(t, [[]], [[D('0', '1', t=2), D('*', t=2)], []])
                sign(c, l, hs, '%s, kinds %s, output %d' % (cls, hs, num), cls=cls, what=what, extra=[C(num, 8)], obs=RET)
        for num in (2, 3, 128, 255):
            sign(c, psbt(t, [[]], [[D('0', t=2)], [D('1', t=2)]]), (1, 1), '%s, output %d of two' % (cls, num), cls=cls, what=what, extra=[C(num, 8)], obs=RET)
        sign(c, psbt(t, [[]], [[D('0', '*', t=2)], [D('1', '*', t=2)]]), (0, 0), '%s, any key' % cls, cls=cls, what=what, extra=[C(1, 8)], obs=RET)
    sign(c, psbt(t, [[]], [[], [D("84'", '1', t=2)]]), (1,), 'hardened path below a public key', cls='HDPublicKey', what='mine_pub', extra=[C(1, 8)], obs=RET)
