from check import *

S = 'ecdsa.cpp'
RULE = 'value graph equals the SEC 1 / RFC 6979 reference over the bignum and point primitives'


def crv(L):
    return mkptr(('g', '@secp256k1'), C(0, 64))


def rnd(I, a, st, ins):
    m = given(I.load(st, a[1], 36, ins), st.pc)
    I.store(st, a[0], f('randk', 288, m), ins)
    return C(0, 8)


RND = {'@generate_k_random': rnd, '@generate_k_random_ref': rnd}


@obligation('P04', 'nonce generator init', S, RULE)
def _(c):
    L = c.L
    a = [L.arg('key'), L.arg('hash'), L.arg('state')]
    c.equiv('@init_rfc6979', 'spec_drbg_init', a, lambda v, s, I, a: [('state', I.load(s, a[2], 64))])


@obligation('P04', 'nonce generator step', S, RULE)
def _(c):
    L = c.L
    a = [L.arg('out'), L.arg('state')]
    c.equiv('@generate_rfc6979', 'spec_drbg_next', a, lambda v, s, I, a: [('output', I.load(s, a[0], 32)), ('state', I.load(s, a[1], 64))])


@obligation('P04', 'signature', S, RULE)
def _(c):
    L = c.L
    x, h, sig, by = L.arg('key'), L.arg('hash'), L.arg('sig'), L.arg('by')
    import interp
    c.equiv('@ecdsa_sign_digest', 'spec_sign', [crv(L), x, h, sig, by, C(0, 64)],
            lambda v, s, I, a: [('result', v), ('signature', I.load(s, sig, 64)), ('recovery id', I.load(s, by, 1))],
            pc=NOT(eq(by, C(0, 64))), sargs=[x, h, sig, by], models=RND, unroll={'@ecdsa_sign_digest': 0, '@spec_sign': 0})


@obligation('P05', 'digest verification', S, RULE)
def _(c):
    L = c.L
    p, g, h = L.arg('pub'), L.arg('sig'), L.arg('hash')
    c.equiv('@ecdsa_verify_digest', 'spec_verify', [crv(L), p, g, h],
            lambda v, s, I, a: [('accepted', eq(v, C(0, 32)) if len(a) == 4 else NOT(eq(v, C(0, 32))))], sargs=[p, g, h])


@obligation('P05', 'PublicKey verification', S, RULE)
def _(c):
    L = c.L
    p, g, h = L.arg('pub', 'PublicKey'), L.arg('sig', 'Signature'), L.arg('hash')
    c.equiv('PublicKey::verify(Signature, unsigned char const*) const', 'spec_pk_verify', [p, g, h], RET)


@obligation('P06', 'read public key', S, RULE)
def _(c):
    L = c.L
    p, q = L.arg('pub'), L.arg('pt')
    c.equiv('@ecdsa_read_pubkey', 'spec_read_pubkey', [crv(L), p, q],
            lambda v, s, I, a: [('valid', v)] + [('point', ITE(eq(v, C(0, 32)), C(0, 576), I.load(s, q, 72)))], sargs=[p, q])
    c.equiv('@ecdsa_validate_pubkey', 'spec_validate', [crv(L), q], RET, sargs=[q])


@obligation('P06', 'public key of a secret', S, RULE)
def _(c):
    L = c.L
    x, o = L.arg('key'), L.arg('out')
    for n in ('33', '65'):
        c.equiv('@ecdsa_get_public_key' + n, 'spec_pubkey' + n, [crv(L), x, o], lambda v, s, I, a: [('bytes', I.load(s, o, int(n)))], sargs=[x, o])


@obligation('P06', 'key recovery', S, RULE)
def _(c):
    L = c.L
    p, g, h = L.arg('pub'), L.arg('sig'), L.arg('hash')
    c.equiv('@ecdsa_recover_pub_from_sig', 'spec_recover', [crv(L), p, g, h, sym('recid', 32)],
            lambda v, s, I, a: [('result', v), ('key', I.load(s, p, 65))], sargs=[p, g, h, sym('recid', 32)])


@obligation('P04', 'signing with a key object', S, RULE)
def _(c):
    L = c.L
    o, k, h = L.arg('o', 'Signature'), L.arg('key', 'PrivateKey'), L.arg('hash')
    fl = L.mod.fields('Signature')

    def su2(I, st, a):
        I.specside = True
        return a

    def obs(v, s, I, a):
        sp = getattr(I, 'specside', False)
        return [(n, I.load(s, at(o, p if sp else fl[n][0]), w)) for n, p, w in (('r', 0, 32), ('s', 32, 32), ('index', 64, 1))]
    c.equiv('PrivateKey::sign(unsigned char const*) const', 'spec_pk_sign', [o, k, h], obs, setup=lambda I, st, a: a, setup2=su2, models=RND, unroll={'@ecdsa_sign_digest': 0, '@spec_sign': 0, '@spec_pk_sign': 0})
