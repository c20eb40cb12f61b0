// SEC 1 / RFC 6979 / BIP-340 reference on top of the bignum and point primitives
#pragma once
#include "spec.h"
static const ecdsa_curve *const CRV = &secp256k1;

static void hmac256(const uint8_t *k, size_t kl, const uint8_t *a, size_t al, uint8_t *out) {   // kl <= 64
    uint8_t pad[64];
    for (size_t i = 0; i < 64; i++) pad[i] = (i < kl ? k[i] : 0) ^ 0x36;
    SHA256_CTX c; uint8_t in[32];
    sha256_Init(&c); sha256_Update(&c, pad, 64); sha256_Update(&c, a, al); sha256_Final(&c, in);
    for (size_t i = 0; i < 64; i++) pad[i] = (i < kl ? k[i] : 0) ^ 0x5c;
    sha256_Init(&c); sha256_Update(&c, pad, 64); sha256_Update(&c, in, 32); sha256_Final(&c, out);
}
// y^2 == x^3 + 7 with both coordinates below p
static bool on_curve(const curve_point *q) {
    if (point_is_infinity(q)) return false;
    if (!bn_is_less(&q->x, &CRV->prime)) return false;
    if (!bn_is_less(&q->y, &CRV->prime)) return false;
    bignum256 l = q->y, r = q->x;
    bn_multiply(&q->y, &l, &CRV->prime);
    bn_mod(&l, &CRV->prime);
    bn_multiply(&q->x, &r, &CRV->prime);
    bn_subi(&r, 0, &CRV->prime);
    bn_multiply(&q->x, &r, &CRV->prime);
    bn_addmod(&r, &CRV->b, &CRV->prime);
    bn_mod(&r, &CRV->prime);
    return bn_is_equal(&r, &l);
}
static void lift(uint8_t odd, const bignum256 *x, bignum256 *y) {
    *y = *x;
    bn_multiply(x, y, &CRV->prime);
    bn_subi(y, 0, &CRV->prime);
    bn_multiply(x, y, &CRV->prime);
    bn_add(y, &CRV->b);
    bn_sqrt(y, &CRV->prime);
    if ((y->val[0] & 1) != (odd & 1u)) bn_subtract(&CRV->prime, y, y);
}
static int read_sec(const uint8_t *s, curve_point *q) {
    if (s[0] == 4) { bn_read_be(s + 1, &q->x); bn_read_be(s + 33, &q->y); return on_curve(q); }
    if (s[0] == 2 || s[0] == 3) { bn_read_be(s + 1, &q->x); lift(s[0], &q->x, &q->y); return on_curve(q); }
    return 0;
}
