#include "ec.h"
#include "utility/trezor/rfc6979.h"
struct Drbg { uint8_t k[32], v[32]; };
static void drbg_round(Drbg &d, uint8_t tag, const uint8_t *x, const uint8_t *h) {
    uint8_t m[97];
    memcpy(m, d.v, 32); m[32] = tag; memcpy(m + 33, x, 32); memcpy(m + 65, h, 32);
    hmac256(d.k, 32, m, 97, d.k);
    hmac256(d.k, 32, d.v, 32, d.v);
}
SPEC void spec_drbg_init(const uint8_t *x, const uint8_t *h, rfc6979_state *s) {
    Drbg d; memset(d.k, 0, 32); memset(d.v, 1, 32);
    drbg_round(d, 0, x, h); drbg_round(d, 1, x, h);
    memcpy(s->k, d.k, 32); memcpy(s->v, d.v, 32);
}
static void drbg_next(Drbg &d, uint8_t *t) {
    hmac256(d.k, 32, d.v, 32, d.v);
    memcpy(t, d.v, 32);
    uint8_t m[33]; memcpy(m, d.v, 32); m[32] = 0;
    hmac256(d.k, 32, m, 33, d.k);
    hmac256(d.k, 32, d.v, 32, d.v);
}
SPEC void spec_drbg_next(uint8_t *t, rfc6979_state *s) {
    Drbg d; memcpy(d.k, s->k, 32); memcpy(d.v, s->v, 32);
    drbg_next(d, t);
    memcpy(s->k, d.k, 32); memcpy(s->v, d.v, 32);
}
// deterministic ECDSA, low-S; `blind` is the side-channel blinding factor (cancels)
SPEC void generate_k_random_ref(bignum256 *k, const bignum256 *m);
SPEC int spec_sign(const uint8_t *x, const uint8_t *h, uint8_t *sig, uint8_t *rec) {
    Drbg d; memset(d.k, 0, 32); memset(d.v, 1, 32);
    drbg_round(d, 0, x, h); drbg_round(d, 1, x, h);
    bignum256 z; bn_read_be(h, &z);
    for (int i = 0; i < 10000; i++) {
        uint8_t t[32]; drbg_next(d, t);
        bignum256 k; bn_read_be(t, &k);
        if (bn_is_zero(&k)) continue;
        if (!bn_is_less(&k, &CRV->order)) continue;
        curve_point R; scalar_multiply(CRV, &k, &R);
        uint8_t id = R.y.val[0] & 1;
        if (!bn_is_less(&R.x, &CRV->order)) { bn_subtract(&R.x, &CRV->order, &R.x); id += 2; }
        if (bn_is_zero(&R.x)) continue;
        bignum256 s, b;
        generate_k_random_ref(&b, &CRV->order);
        bn_multiply(&b, &k, &CRV->order);
        bn_inverse(&k, &CRV->order);
        bn_read_be(x, &s);
        bn_multiply(&R.x, &s, &CRV->order);
        bn_add(&s, &z);
        bn_multiply(&k, &s, &CRV->order);
        bn_multiply(&b, &s, &CRV->order);
        bn_mod(&s, &CRV->order);
        if (bn_is_zero(&s)) continue;
        if (bn_is_less(&CRV->order_half, &s)) { bn_subtract(&CRV->order, &s, &s); id ^= 1; }
        bn_write_be(&R.x, sig); bn_write_be(&s, sig + 32);
        *rec = id;
        return 0;
    }
    return -1;
}
SPEC int spec_verify(const uint8_t *pub, const uint8_t *sig, const uint8_t *h) {   // 1 = valid
    curve_point Q, R;
    if (!read_sec(pub, &Q)) return 0;
    bignum256 r, s, z, u1, u2;
    bn_read_be(sig, &r); bn_read_be(sig + 32, &s); bn_read_be(h, &z);
    if (bn_is_zero(&r) || bn_is_zero(&s)) return 0;
    if (!bn_is_less(&r, &CRV->order) || !bn_is_less(&s, &CRV->order)) return 0;
    bn_inverse(&s, &CRV->order);
    u1 = z; bn_multiply(&s, &u1, &CRV->order); bn_mod(&u1, &CRV->order);
    u2 = r; bn_multiply(&s, &u2, &CRV->order); bn_mod(&u2, &CRV->order);
    if (bn_is_zero(&u1)) return 0;
    scalar_multiply(CRV, &u1, &R);
    point_multiply(CRV, &u2, &Q, &Q);
    point_add(CRV, &Q, &R);
    bn_mod(&R.x, &CRV->order);
    return bn_is_equal(&R.x, &r) ? 1 : 0;
}
SPEC int spec_read_pubkey(const uint8_t *pub, curve_point *q) { return read_sec(pub, q); }
SPEC int spec_validate(const curve_point *q) { return on_curve(q) ? 1 : 0; }
static size_t sec_of(const ECPoint *p, uint8_t *o) {
    if (!p->compressed) { o[0] = 4; memcpy(o + 1, p->point, 64); return 65; }
    o[0] = (p->point[63] & 1) ? 3 : 2; memcpy(o + 1, p->point, 32); return 33;
}
SPEC bool spec_pk_verify(const PublicKey *p, const Signature *sg, const uint8_t *h) {
    uint8_t sec[65], rs[64];
    sec_of(p, sec);
    memcpy(rs, sg->r, 32); memcpy(rs + 32, sg->s, 32);
    return spec_verify(sec, rs, h) == 1;
}
SPEC void spec_pubkey33(const uint8_t *x, uint8_t *o) {
    bignum256 k; curve_point R; bn_read_be(x, &k); scalar_multiply(CRV, &k, &R);
    o[0] = (R.y.val[0] & 1) ? 3 : 2; bn_write_be(&R.x, o + 1);
}
SPEC void spec_pubkey65(const uint8_t *x, uint8_t *o) {
    bignum256 k; curve_point R; bn_read_be(x, &k); scalar_multiply(CRV, &k, &R);
    o[0] = 4; bn_write_be(&R.x, o + 1); bn_write_be(&R.y, o + 33);
}
SPEC int spec_recover(uint8_t *pub, const uint8_t *sig, const uint8_t *h, int id) {   // 0 = recovered
    bignum256 r, s, e; curve_point P, E;
    bn_read_be(sig, &r); bn_read_be(sig + 32, &s);
    if (bn_is_zero(&r) || bn_is_zero(&s)) return 1;
    if (!bn_is_less(&r, &CRV->order) || !bn_is_less(&s, &CRV->order)) return 1;
    P.x = r;
    if (id & 2) { bn_add(&P.x, &CRV->order); if (!bn_is_less(&P.x, &CRV->prime)) return 1; }
    lift(id & 1, &P.x, &P.y);
    if (!on_curve(&P)) return 1;
    bn_read_be(h, &e);
    bn_subtractmod(&CRV->order, &e, &e, &CRV->order); bn_fast_mod(&e, &CRV->order); bn_mod(&e, &CRV->order);
    bn_inverse(&r, &CRV->order);
    point_multiply(CRV, &s, &P, &P);
    scalar_multiply(CRV, &e, &E);
    point_add(CRV, &E, &P);
    point_multiply(CRV, &r, &P, &P);
    pub[0] = 4; bn_write_be(&P.x, pub + 1); bn_write_be(&P.y, pub + 33);
    return 0;
}
SPEC void spec_pk_sign(uint8_t *o, const PrivateKey *k, const uint8_t *h) { memset(o, 0, 65); spec_sign(k->num, h, o, o + 64); }
