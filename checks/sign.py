"""P18: signing the inputs of a transaction"""
from check import *
from lib import data_of
from checks.conv import NONNULL
from checks.ser import X, tx, put, both, record
S = 'sign.cpp'
R = 'value graph of the signed transaction and of the returned signature equals the reference: right digest, right key, scriptSig and witness of the script type, nothing else changed'
TYPES = {'P2WPKH': 0, 'P2WSH': 1, 'P2SH_P2WPKH': 2, 'P2SH_P2WSH': 3}         # codes of the wrappers in sign.cpp


def signer(r0, s0):
    """ECDSA (the subject of another property) as a function of secret and digest; first bytes of r and s by case"""
    def m(I, a, st, ins):
        x, h = I.load(st, a[1], 32, ins), I.load(st, a[2], 32, ins)
        I.store(st, a[3], cat([C(r0, 8), f('sig_r', 248, x, h), C(s0, 8), f('sig_s', 248, x, h)]), ins)
        I.store(st, a[4], f('sig_id', 8, x, h), ins)
        return C(0, 32)
    return {'@ecdsa_sign_digest': m}


def sign(c, what, lay, idx, script, rn, extra, first, comp, item):
    L = c.L
    b, k, rs, o = L.arg('data'), L.arg('key', 'PrivateKey'), L.arg('redeem'), L.arg('out')
    fl = L.mod.fields('PrivateKey')
    fp = L.mod.fields('PublicKey')

    def su(I, st, a):
        put(b, lay)(I, st, a)
        put(rs, script)(I, st, a)
        I.store(st, at(k, fl['pubKey'][0] + fp['compressed'][0]), C(comp, 8))
        return a
    args = [b, C(len(lay), 64), C(idx, 8), k, rs, C(rn, 64), o] + list(extra)
    c.equiv('@impl_' + what, 'spec_' + what, args, record(o), pc=NONNULL(b, rs, o), setup=su, models=signer(*first), bounded=True, item=item)


PKH = [0x76, 0xa9, 20] + [X] * 20 + [0x88, 0xac]
WPKH = [0, 20] + [X] * 20
TXL = [tx((0,), (22,)), tx((3, 0), (25, 1)), tx((1, 2, 0), ()), tx((0, 2), (1,), ((2, 0), (1,)))]
FIRST = ((0x41, 0x42), (0x91, 0x43), (0x44, 0x7f), (0xff, 0x7f))


def scripts():
    yield 'P2PKH', PKH
    yield 'P2WPKH', WPKH
    yield 'almost P2PKH', [0x76, 0xa9, 20] + [X] * 20 + [0x88, 0xad]
    yield '1 byte', [X]
    for n in (35, 75, 76, 105, 255, 256):
        yield '%d bytes' % n, [0x51] + [X] * (n - 1)


for _n, _s in scripts():
    @obligation('P18', 'legacy input, script ' + _n, S, R)
    def _(c, n=_n, s=_s):
        for i, l in enumerate(TXL if n in ('P2PKH', '35 bytes') else TXL[1:2]):
            for idx in range(l[4] or l[6]):
                for comp in (1, 0):
                    sign(c, 'sign', l, idx, s, len(s), (), FIRST[(i + idx + comp) % 4], comp, 'signInput(%d) of transaction %d, script %s, %s key' % (idx, i, n, 'compressed' if comp else 'uncompressed'))

    @obligation('P18', 'segwit input, script ' + _n, S, R)
    def _(c, n=_n, s=_s):
        types = {'P2WPKH': 'P2WPKH P2SH_P2WPKH'}.get(n, 'P2WSH P2SH_P2WSH').split()
        for i, l in enumerate(TXL if n in ('P2WPKH', '35 bytes') else TXL[1:2]):
            for idx in range(l[4] or l[6]):
                for ty in types:
                    sign(c, 'signw', l, idx, s, len(s), (sym('amount', 64), C(TYPES[ty], 32)), FIRST[(i + idx) % 4], 1, 'signSegwitInput(%d) of transaction %d, script %s as %s' % (idx, i, n, ty))


@obligation('P18', 'key only', S, R)
def _(c):
    for i, l in enumerate(TXL):
        for idx in range(l[4] or l[6]):
            for comp in (1, 0):
                sign(c, 'sign_pkh', l, idx, [], 0, (), FIRST[(i + idx) % 4], comp, 'signInput(%d) of transaction %d, %s key only' % (idx, i, 'compressed' if comp else 'uncompressed'))
            for ty in ('P2WPKH', 'P2SH_P2WPKH'):
                sign(c, 'signw_key', l, idx, [], 0, (sym('amount', 64), C(TYPES[ty], 32)), FIRST[(i + idx) % 4], 1, 'signSegwitInput(%d) of transaction %d, key only, %s' % (idx, i, ty))
