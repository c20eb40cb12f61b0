from check import *
import sem
S = 'schnorr.cpp'
RULE = 'value graph equals the BIP-340 reference over hash, bignum and point primitives'


def fld(L, cls, n):
    return L.mod.fields(cls)[n]


def call(I, st, name, args):
    pc = st.pc
    v, s2 = I.call(name, args, st)
    return v, s2


def mkpriv(c, key, comp=None):
    """a private key built by its public constructor"""
    L = c.L

    def su(I, st, a):
        o = I.new_obj(st, 'st', C(L._csize('PrivateKey'), 64), 'pk')
        p = mkptr(o, C(0, 64))
        v, s2 = I.call(L.fn('PrivateKey::PrivateKey(unsigned char const*, bool, Network const*)'), [p, key, comp if comp is not None else TRUE, L.arg('net', 'Network')], st)
        st.mem = s2.mem
        st.pc = s2.pc
        return [p if x is key else x for x in a]
    return su


@obligation('P07', 'Schnorr signing', S, RULE)
def _(c):
    L = c.L
    sem.HMAX = sem.TN
    key, m, out = L.arg('key'), L.arg('msg'), L.arg('out')
    ro, so = fld(L, 'SchnorrSignature', 'r')[0], fld(L, 'SchnorrSignature', 's')[0]

    def obs(v, s, I, a):
        if a[1] is key:
            return [('r', I.load(s, out, 32)), ('s', I.load(s, at(out, 32), 32))]
        return [('r', I.load(s, at(out, ro), 32)), ('s', I.load(s, at(out, so), 32))]
    c.equiv('PrivateKey::schnorr_sign(unsigned char const*) const', 'spec_schnorr_sign', [out, key, m], obs, setup=mkpriv(c, key), models=L.sec_models(),
            setup2=lambda I, st, a: a)


@obligation('P07', 'Schnorr verification', S, RULE)
def _(c):
    L = c.L
    sem.HMAX = sem.TN
    pk, m, sig = L.arg('pub', 'PublicKey'), L.arg('msg'), L.arg('sig', 'SchnorrSignature')
    po = fld(L, 'PublicKey', 'point')[0]
    st = State()
    I = L.interp()
    pc = atom('oncurve', I.load(st, at(pk, po), 32), I.load(st, at(pk, po + 32), 32))
    pc = AND(pc, atom('onx', I.load(st, at(pk, po), 32)))
    ro, so = fld(L, 'SchnorrSignature', 'r')[0], fld(L, 'SchnorrSignature', 's')[0]
    assert so == ro + 32
    c.equiv('PublicKey::schnorr_verify(SchnorrSignature, unsigned char const*) const', 'spec_schnorr_verify', [pk, sig, m], RET, pc=pc, models=L.sec_models(),
            sargs=[pk, at(sig, ro), m])
