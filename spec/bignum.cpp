// 256-bit arithmetic on nine 30-bit limbs. Each function is stated on the limbs; the observables are the values modulo the prime
// and the normalisation, so that another algorithm with the same meaning is not told apart.
#include "ec.h"
typedef uint32_t L9[9];
#define M30 0x3fffffffu
SPEC int spec_bn_zero(const bignum256 *a) { uint32_t r = 0; for (int i = 0; i < 9; i++) r |= a->val[i]; return r == 0; }
SPEC int spec_bn_eq(const bignum256 *a, const bignum256 *b) { uint32_t r = 0; for (int i = 0; i < 9; i++) r |= a->val[i] ^ b->val[i]; return r == 0; }
SPEC int spec_bn_less(const bignum256 *a, const bignum256 *b) {
    uint32_t l = 0, g = 0;
    for (int i = 8; i >= 0; i--) { l = (l << 1) | (a->val[i] < b->val[i]); g = (g << 1) | (a->val[i] > b->val[i]); }
    return l > g;
}
SPEC void spec_bn_cmov(bignum256 *r, int c, const bignum256 *t, const bignum256 *f) { for (int i = 0; i < 9; i++) r->val[i] = c ? t->val[i] : f->val[i]; }
SPEC void spec_bn_add(bignum256 *a, const bignum256 *b) { uint32_t c = 0; for (int i = 0; i < 9; i++) { c += a->val[i] + b->val[i]; a->val[i] = c & M30; c >>= 30; } }
SPEC void spec_bn_addi(bignum256 *a, uint32_t b) { uint32_t c = b; for (int i = 0; i < 9; i++) { c += a->val[i]; a->val[i] = c & M30; c >>= 30; } }
SPEC void spec_bn_subi(bignum256 *a, uint32_t b, const bignum256 *p) { a->val[0] -= b; bn_add(a, p); }
SPEC void spec_bn_sub(const bignum256 *a, const bignum256 *b, bignum256 *r) { uint32_t c = 1; for (int i = 0; i < 9; i++) { c += M30 + a->val[i] - b->val[i]; r->val[i] = c & M30; c >>= 30; } }
SPEC void spec_bn_submod(const bignum256 *a, const bignum256 *b, bignum256 *r, const bignum256 *p) {
    uint32_t c = 1; for (int i = 0; i < 9; i++) { c += M30 + a->val[i] + 2u * p->val[i] - b->val[i]; r->val[i] = c & M30; c >>= 30; }
}
SPEC void spec_bn_addmod(bignum256 *a, const bignum256 *b, const bignum256 *p) { for (int i = 0; i < 9; i++) a->val[i] += b->val[i]; bn_fast_mod(a, p); }
SPEC void spec_bn_multk(bignum256 *a, uint8_t k, const bignum256 *p) { for (int i = 0; i < 9; i++) a->val[i] = k * a->val[i]; bn_fast_mod(a, p); }
SPEC void spec_bn_half(bignum256 *x, const bignum256 *p) {
    uint32_t odd = -(x->val[0] & 1), c = (x->val[0] + (p->val[0] & odd)) >> 1;
    for (int j = 0; j < 8; j++) { uint32_t n = x->val[j + 1] + (p->val[j + 1] & odd); c += (n & 1) << 29; x->val[j] = c & M30; c >>= 30; c += n >> 1; }
    x->val[8] = c;
}
SPEC void spec_bn_mod(bignum256 *x, const bignum256 *p) { bignum256 t; bn_subtract(x, p, &t); if (!bn_is_less(x, p)) *x = t; }
SPEC void spec_bn_fast(bignum256 *x, const bignum256 *p) {
    uint64_t q = x->val[8] >> 16, t = 0x2000000000000000ull;
    for (int j = 0; j < 9; j++) {
        t += x->val[j] - p->val[j] * q; x->val[j] = t & M30; t >>= 30; t += 0x1FFFFFFF80000000ull;
    }
}
SPEC void spec_bn_long(const bignum256 *a, const bignum256 *b, uint32_t *r) {
    uint64_t t = 0;
    for (int i = 0; i < 17; i++) {
        for (int j = 0; j < 9; j++) if (i >= j && i - j < 9) t += a->val[j] * (uint64_t)b->val[i - j];
        r[i] = t & M30; t >>= 30;
    }
    r[17] = t;
}
SPEC void spec_bn_step(uint32_t *r, const bignum256 *p, uint32_t i) {
    uint32_t q = (r[i] >> 16) + (r[i + 1] << 14);
    uint64_t t = 0x2000000000000000ull;
    for (uint32_t j = 0; j < 9; j++) { t += r[i - 8 + j] - p->val[j] * (uint64_t)q; r[i - 8 + j] = t & M30; t >>= 30; t += 0x1FFFFFFF80000000ull; }
    t += r[i + 1]; r[i + 1] = t & M30;
}
extern "C" void bn_multiply_long(const bignum256 *k, const bignum256 *x, uint32_t res[18]);
extern "C" void bn_multiply_reduce(bignum256 *x, uint32_t res[18], const bignum256 *prime);
SPEC void spec_bn_mul(const bignum256 *k, bignum256 *x, const bignum256 *p) { uint32_t r[18]; bn_multiply_long(k, x, r); bn_multiply_reduce(x, r, p); }
SPEC void spec_bn_cneg(uint32_t c, bignum256 *a, const bignum256 *p) {
    uint32_t t = 1;
    for (int j = 0; j < 9; j++) { t += M30 + 2 * p->val[j] - a->val[j]; a->val[j] = (t & M30 & c) | (a->val[j] & ~c); t >>= 30; }
}
SPEC void spec_bn_sqrt(bignum256 *x, const bignum256 *p) {     // x^((p+1)/4)
    L9 e; uint32_t c = 1;
    for (int i = 0; i < 9; i++) { c += p->val[i]; e[i] = c & M30; c >>= 30; }
    for (int i = 0; i < 9; i++) e[i] = (e[i] >> 2) | (i < 8 ? (e[i + 1] & 3) << 28 : 0);
    bignum256 r; bn_one(&r);
    for (int i = 0; i < 254; i++) {
        if (e[i / 30] >> (i % 30) & 1) bn_multiply(x, &r, p);
        bn_multiply(x, x, p);
    }
    bn_mod(&r, p);
    *x = r;
}
SPEC void spec_bn_mulx(const bignum256 *k, bignum256 *x, const bignum256 *p) {
    uint32_t r[18];
    spec_bn_long(k, x, r);
    for (int i = 16; i >= 8; i--) spec_bn_step(r, p, i);
    for (int i = 0; i < 9; i++) x->val[i] = r[i];
}
SPEC void spec_bn_modx(bignum256 *x, const bignum256 *p) { bignum256 t; spec_bn_sub(x, p, &t); if (!spec_bn_less(x, p)) *x = t; }
