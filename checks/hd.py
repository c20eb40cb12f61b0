from check import *
import sem
S = 'hd.cpp'
RULE = 'value graph equals the BIP-32 reference over HMAC, hash160, scalar and point primitives'
F = ['secret', 'chain', 'point', 'depth', 'fp', 'num', 'type', 'net']
PRV = dict(secret='num', chain='chainCode', depth='depth', fp='parentFingerprint', num='childNumber', type='type', net='network')
PUB = dict(chain='chainCode', point='point', depth='depth', fp='parentFingerprint', num='childNumber', type='type', net='network')
NAMES = dict(secret='private scalar', chain='chain code', point='public point', depth='depth', fp='parent fingerprint', num='child number', type='script type', net='network')


def fields(L, cls):
    return L.mod.fields(cls)


def xobs(c, cls, out, only=None):
    """observable fields of an extended key object, and the same of the reference record"""
    L = c.L
    fx = fields(L, 'XKey')
    fk = fields(L, cls)
    m = PRV if cls == 'HDPrivateKey' else PUB

    def loc(n):
        if n == 'point' and cls == 'HDPrivateKey':
            return fk['pubKey'][0] + fields(L, 'PublicKey')['point'][0]
        return fk[m[n]][0]
    names = [n for n in F if n in m or n == 'point']

    def obs(v, s, I, a):
        r = []
        for n in names:
            w = fx[n][1]
            if a and a[0] is SPECSIDE:
                pass
            off = fx[n][0] if getattr(I, 'specside', False) else loc(n)
            r.append((NAMES[n], I.load(s, at(out, off), w)))
        return r
    return obs


SPECSIDE = object()


def spec(su=None):
    def f_(I, st, a):
        I.specside = True
        return su(I, st, a) if su else a
    return f_


@obligation('P08', 'private child derivation', S, RULE)
def _(c):
    L = c.L
    out, k = L.arg('out'), L.arg('parent', 'HDPrivateKey')
    idx, h = sym('index', 32), NOT(eq(sym('hardened', 8), C(0, 8)))
    c.equiv('HDPrivateKey::child(unsigned int, bool) const', 'spec_ckd_priv', [out, k, idx, h], xobs(c, 'HDPrivateKey', out), setup=lambda I, st, a: a, setup2=spec(), models=L.sec_models())


@obligation('P08', 'hardened shorthand', S, RULE)
def _(c):
    L = c.L
    out, k = L.arg('out'), L.arg('parent', 'HDPrivateKey')
    idx = sym('index', 32)
    c.equiv('HDPrivateKey::hardenedChild(unsigned int) const', 'spec_ckd_priv', [out, k, idx], xobs(c, 'HDPrivateKey', out), setup=lambda I, st, a: a, sargs=[out, k, idx, TRUE], setup2=spec(), models=L.sec_models())


@obligation('P08', 'public child derivation', S, RULE)
def _(c):
    L = c.L
    out, k = L.arg('out'), L.arg('parent', 'HDPublicKey')
    idx = sym('index', 32)
    co = fields(L, 'HDPublicKey')['compressed'][0]
    I0 = L.interp()
    pc = eq(I0.load(State(), at(k, co), 1), C(1, 8))
    c.equiv('HDPublicKey::child(unsigned int) const', 'spec_ckd_pub', [out, k, idx], xobs(c, 'HDPublicKey', out), pc=pc, setup=lambda I, st, a: a, setup2=spec(), models=L.sec_models())


@obligation('P08', 'master key from seed', S, RULE)
def _(c):
    L = c.L
    k, sd, n, net = L.arg('key', 'HDPrivateKey'), L.arg('seed'), sym('n', 64), L.arg('net', 'Network')
    c.equiv('HDPrivateKey::fromSeed(unsigned char const*, unsigned long, Network const*)', 'spec_master', [k, sd, n, net], xobs(c, 'HDPrivateKey', k), setup=lambda I, st, a: a, setup2=spec(), models=L.sec_models())


@obligation('P08', 'extended public key of a private key', S, RULE)
def _(c):
    L = c.L
    out, k = L.arg('out'), L.arg('key', 'HDPrivateKey')
    c.equiv('HDPrivateKey::xpub() const', 'spec_neuter', [out, k], xobs(c, 'HDPublicKey', out), setup=lambda I, st, a: a, setup2=spec())


def opaque_child(c, cls):
    """child derivation as a pure function of the parent's fields (its definition is a separate obligation)"""
    L = c.L
    sig = L.fn('HDPrivateKey::child(unsigned int, bool) const' if cls == 'HDPrivateKey' else 'HDPublicKey::child(unsigned int) const')
    fk = fields(L, cls)
    names = [('num', 32)] if cls == 'HDPrivateKey' else []
    m = dict(PRV if cls == 'HDPrivateKey' else PUB)
    parts = sorted((fk[v][0], fk[v][1]) for v in m.values())
    if cls == 'HDPrivateKey':
        po = fk['pubKey'][0] + fields(L, 'PublicKey')['point'][0]
        parts.append((po, 64))
    n = L._csize(cls)

    def model(I, a, st, ins):
        st_in = cat([given(I.load(st, at_any(a[1], o), w, ins), st.pc) for o, w in parts])
        for o, w in parts:
            I.store(st, at_any(a[0], o), f('%s.%d' % ('child', o), 8 * w, st_in, *a[2:]), ins)
        return C(0, 8)
    return {sig: model}, parts


def at_any(p, off):
    import lib
    return lib.at_(p, off)


def derive_(cls, sig, spec_, item):
    @obligation('P08', item, S, RULE)
    def _(c):
        L = c.L
        out, k, ix, n = L.arg('out', cls), L.arg('parent', cls), L.arg('idx'), sym('n', 64)
        mo, parts = opaque_child(c, cls)

        def obs(v, s, I, a):
            return [('field at %d' % o, I.load(s, at(out, o), w)) for o, w in parts]
        c.equiv(sig, spec_, [out, k, ix, n], obs, models=mo)


derive_('HDPrivateKey', 'HDPrivateKey::derive(unsigned int*, unsigned long) const', 'spec_derive_prv', 'private path derivation')
derive_('HDPublicKey', 'HDPublicKey::derive(unsigned int*, unsigned long) const', 'spec_derive_pub', 'public path derivation')


def path_(cls, sig, spec_, item):
    @obligation('P08', item, S, RULE)
    def _(c):
        L = c.L
        out, k, path = L.arg('out', cls), L.arg('parent', cls), L.arg('path')
        mo, parts = opaque_child(c, cls)

        def derive(I, a, st, ins):
            st_in = cat([given(I.load(st, at_any(a[1], o), w, ins), st.pc) for o, w in parts])
            ls = I.ptr_leaves(st, a[2])
            if len(ls) != 1:
                raise Unsupported('index array')
            arr = I.obj(st, ls[0][1]).array()
            for o, w in parts:
                I.store(st, at_any(a[0], o), f('derive.%d' % o, 8 * w, st_in, arr, ls[0][2], a[3]), ins)
            return C(0, 8)
        mo[L.fn(cls + '::derive(unsigned int*, unsigned long) const')] = derive

        def obs(v, s, I, a):
            return [('field at %d' % o, I.load(s, at(out, o), w)) for o, w in parts]
        c.equiv(sig, spec_, [out, k, path], obs, models=mo, unroll={L.fn(sig): 0, '@' + spec_: 0})


path_('HDPrivateKey', 'HDPrivateKey::derive(char const*) const', 'spec_path_prv', 'private path strings')
path_('HDPublicKey', 'HDPublicKey::derive(char const*) const', 'spec_path_pub', 'public path strings')
