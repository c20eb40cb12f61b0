#include "ec.h"
static void tagged(SHA256_CTX *c, const char *tag, size_t n) {
    uint8_t t[32]; sha256_Raw((const uint8_t *)tag, n, t);
    sha256_Init(c); sha256_Update(c, t, 32); sha256_Update(c, t, 32);
}
static void mulG(const uint8_t *k, uint8_t *xy) {
    bignum256 b; curve_point R; bn_read_be(k, &b); scalar_multiply(CRV, &b, &R);
    bn_write_be(&R.x, xy); bn_write_be(&R.y, xy + 32);
}
static void negate(uint8_t *k) { bignum256 a, b; bn_read_be(k, &a); bn_subtract(&CRV->order, &a, &b); bn_mod(&b, &CRV->order); bn_write_be(&b, k); }
static void challenge(const uint8_t *r, const uint8_t *px, const uint8_t *m, uint8_t *e) {
    SHA256_CTX c; tagged(&c, "BIP0340/challenge", 17);
    sha256_Update(&c, r, 32); sha256_Update(&c, px, 32); sha256_Update(&c, m, 32); sha256_Final(&c, e);
}
// BIP-340 signing without auxiliary randomness: the nonce hashes the (even-y) secret, the x-only key and the message
SPEC void spec_schnorr_sign(uint8_t *sig, const uint8_t *key, const uint8_t *m) {
    uint8_t d[32], k[32], P[64], R[64], e[32];
    memcpy(d, key, 32); mulG(d, P);
    if (P[63] & 1) negate(d);
    SHA256_CTX c; tagged(&c, "BIP0340/nonce", 13);
    sha256_Update(&c, d, 32); sha256_Update(&c, P, 32); sha256_Update(&c, m, 32); sha256_Final(&c, k);
    mulG(k, R);
    if (R[63] & 1) negate(k);
    challenge(R, P, m, e);
    bignum256 s, t; bn_read_be(e, &s); bn_read_be(d, &t);
    bn_multiply(&t, &s, &CRV->order); bn_mod(&s, &CRV->order);
    bn_read_be(k, &t); bn_addmod(&t, &s, &CRV->order); bn_mod(&t, &CRV->order);
    memcpy(sig, R, 32); bn_write_be(&t, sig + 32);
}
static void enc(const uint8_t *xy, bool comp, uint8_t *o) {
    if (comp) { o[0] = (xy[63] & 1) ? 3 : 2; memcpy(o + 1, xy, 32); } else { o[0] = 4; memcpy(o + 1, xy, 64); }
}
SPEC bool spec_schnorr_verify(const PublicKey *pk, const uint8_t *sig, const uint8_t *m) {
    curve_point P, R, S; uint8_t sec[65], xy[64], e[32], ep[64];
    sec[0] = 2; memcpy(sec + 1, sig, 32);
    if (!ecdsa_read_pubkey(CRV, sec, &R)) return false;                                 // R = lift_x(r)
    bignum256 s; bn_read_be(sig + 32, &s);
    if (!bn_is_less(&s, &CRV->order)) return false;
    memcpy(xy, pk->point, 64);
    if (xy[63] & 1) { sec[0] = 2; memcpy(sec + 1, xy, 32); if (!ecdsa_read_pubkey(CRV, sec, &P)) return false; bn_write_be(&P.y, xy + 32); }
    challenge(sig, xy, m, e);
    bignum256 k; bn_read_be(e, &k);
    bn_read_be(xy, &P.x); bn_read_be(xy + 32, &P.y);
    if (memcmp(xy, GeneratorPoint.point, 64) == 0) scalar_multiply(CRV, &k, &S); else point_multiply(CRV, &k, &P, &S);
    bn_write_be(&S.x, ep); bn_write_be(&S.y, ep + 32);
    uint8_t want[64], zero[64] = {0}, rxy[64];
    bn_write_be(&R.x, rxy); bn_write_be(&R.y, rxy + 32);
    if (memcmp(ep, zero, 64) == 0) memcpy(want, rxy, 64);
    else if (memcmp(rxy, zero, 64) == 0) memcpy(want, ep, 64);
    else {
        enc(ep, pk->compressed, sec); ecdsa_read_pubkey(CRV, sec, &S);
        enc(rxy, true, sec); ecdsa_read_pubkey(CRV, sec, &R);
        point_add(CRV, &S, &R);
        bn_write_be(&R.x, want); bn_write_be(&R.y, want + 32);
    }
    uint8_t got[64]; mulG(sig + 32, got);
    return memcmp(got, want, 64) == 0;
}
