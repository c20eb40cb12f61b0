"""P23: descriptor checksums"""
from check import *
import sem
from checks.conv import oneof, byte, NONNULL
S = 'desc.cpp'
R = 'value graph of the checksum text and of the result equals the BIP-380 reference, checksum steps compared in the affine domain over GF(2)'
IN = '0123456789()[],\'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#"\\ '
FN = '@_Z18descriptorChecksumPKcmPcm'
MOD = {'@_Z7PolyModmi': lambda I, a, st, ins: f('descmod', 64, a[0], a[1])}


@obligation('P23', 'checksum step', S, R)
def _(c):
    v = sym('v', 32)
    c.equiv('@_Z7PolyModmi', 'spec_desc_step', [sym('c', 64), v], RET, pc=AND(ult(sym('c', 64), C(1 << 40, 64)), ult(v, C(32, 32))))


def obs(o, cap):
    return lambda v, s, I, a: [('result', v)] + [('character %d' % i, I.load(s, at(o, i), 1)) for i in range(cap)]


def span(p, text, n):
    def fill(I, st, a):
        for i in range(n):
            if text is not None and text[i] is not None:
                I.store(st, at(p, i), C(ord(text[i]), 8))
        return a
    return fill


@obligation('P23', 'checksum of any descriptor', S, R)
def _(c):
    L = c.L
    p, o = L.arg('span'), L.arg('out')
    for n in (0, 1, 2, 3, 4, 5, 6, 7, 9, 13) + ((20, 40) if c.tier == 'thorough' else ()):
        pc = NONNULL(p, o)
        for i in range(n):
            pc = AND(pc, oneof(byte(c, p, i), IN))
        c.equiv(FN, 'spec_desc', [p, C(n, 64), o, C(9, 64)], obs(o, 9), pc=pc, models=MOD, bytefn=True, bounded=True, item='descriptorChecksum of %d characters' % n)


@obligation('P23', 'checksum of long descriptors', S, R)
def _(c):
    L = c.L
    p, o = L.arg('span'), L.arg('out')
    t = "wsh(sortedmulti(2,[de ad/48'/0'/0'/2'#\"]xpub661MyMwAqRbcF{`~}/<0;1>/*,xpubZzQq\\J^|_!?&+$@%))"
    for n in (14, 30, 31, 32, len(t)):
        for w in ((), (0, 1), (n - 1,), (n // 2, n // 2 + 1)):
            tx = [None if i in w else t[i] for i in range(n)]
            pc = NONNULL(p, o)
            for i in w:
                pc = AND(pc, oneof(byte(c, p, i), IN))
            c.equiv(FN, 'spec_desc', [p, C(n, 64), o, C(10, 64)], obs(o, 10), pc=pc, models=MOD, setup=span(p, tx, n), bytefn=True, bounded=True,
                    item='descriptorChecksum of %d characters, any at %s' % (n, list(w)))


@obligation('P23', 'refused characters', S, R)
def _(c):
    L = c.L
    p, o = L.arg('span'), L.arg('out')
    for n in (1, 2, 3, 4, 7):
        for k in range(n):
            pc = AND(NONNULL(p, o), NOT(oneof(byte(c, p, k), IN)))
            for i in range(n):
                if i != k:
                    pc = AND(pc, oneof(byte(c, p, i), IN))
            c.equiv(FN, 'spec_desc', [p, C(n, 64), o, C(9, 64)], obs(o, 9), pc=pc, models=MOD, bytefn=True, bounded=True, item='descriptorChecksum of %d characters, character %d outside the alphabet' % (n, k))


@obligation('P23', 'output size', S, R)
def _(c):
    L = c.L
    p, o = L.arg('span'), L.arg('out')
    for cap in (0, 1, 7, 8, 9, 20):
        pc = NONNULL(p, o)
        for i in range(4):
            pc = AND(pc, oneof(byte(c, p, i), IN))

        def fill(I, st, a, cap=cap):
            limit(I, st, o, cap)
            limit(I, st, p, 4)
            return a
        c.equiv(FN, 'spec_desc', [p, C(4, 64), o, C(cap, 64)], obs(o, cap), pc=pc, models=MOD, setup=fill, bytefn=True, bounded=True, item='descriptorChecksum into %d bytes' % cap)
