// affine and Jacobian group law of y^2 = x^3 + 7 over the field primitives, fixed-window multiplication
#include "ec.h"
struct Jac { bignum256 x, y, z; };
extern "C" {
void conditional_negate(uint32_t cond, bignum256 *a, const bignum256 *prime);
void curve_to_jacobian(const curve_point *p, Jac *jp, const bignum256 *prime);
void jacobian_to_curve(const Jac *jp, curve_point *p, const bignum256 *prime);
void point_jacobian_add(const curve_point *p1, Jac *p2, const ecdsa_curve *curve);
void point_jacobian_double(Jac *p, const ecdsa_curve *curve);
}
#define FP (&CRV->prime)
static bignum256 mul(bignum256 a, const bignum256 &b) { bn_multiply(&b, &a, FP); return a; }
static bignum256 sub(const bignum256 &a, const bignum256 &b) { bignum256 r; bn_subtractmod(&a, &b, &r, FP); return r; }
static bignum256 fast(bignum256 a) { bn_fast_mod(&a, FP); return a; }
static bignum256 full(bignum256 a) { bn_fast_mod(&a, FP); bn_mod(&a, FP); return a; }
static bignum256 inv(bignum256 a) { bn_inverse(&a, FP); return a; }
static bignum256 sum(bignum256 a, const bignum256 &b) { bn_add(&a, &b); return a; }
static bignum256 times(bignum256 a, uint8_t k) { bn_mult_k(&a, k, FP); return a; }
static bignum256 half(bignum256 a) { bn_mult_half(&a, FP); return a; }

SPEC int spec_is_inf(const curve_point *p) { return bn_is_zero(&p->x) && bn_is_zero(&p->y); }
SPEC int spec_is_eq(const curve_point *p, const curve_point *q) { return bn_is_equal(&p->x, &q->x) && bn_is_equal(&p->y, &q->y); }
SPEC int spec_is_neg(const curve_point *p, const curve_point *q) { return bn_is_equal(&p->x, &q->x) && !bn_is_zero(&p->y) && !bn_is_equal(&p->y, &q->y); }
SPEC void spec_double(curve_point *p) {
    if (point_is_infinity(p)) return;
    if (bn_is_zero(&p->y)) { bn_zero(&p->x); bn_zero(&p->y); return; }
    bignum256 d = inv(times(p->y, 2));
    bignum256 n = times(mul(p->x, p->x), 3); bn_subi(&n, 0, FP);
    bignum256 l = mul(n, d), x2 = p->x; bn_lshift(&x2);
    bignum256 x = full(sub(mul(l, l), x2)), y = full(sub(mul(l, sub(p->x, x)), p->y));
    p->x = x; p->y = y;
}
SPEC void spec_add(const curve_point *p, curve_point *q) {
    if (point_is_infinity(p)) return;
    if (point_is_infinity(q)) { *q = *p; return; }
    if (point_is_equal(p, q)) { point_double(CRV, q); return; }
    if (point_is_negative_of(p, q)) { bn_zero(&q->x); bn_zero(&q->y); return; }
    bignum256 l = mul(inv(sub(q->x, p->x)), sub(q->y, p->y)), s = p->x;
    bn_addmod(&s, &q->x, FP);
    bignum256 x = full(sub(mul(l, l), s)), y = full(sub(mul(l, sub(p->x, x)), p->y));
    q->x = x; q->y = y;
}
SPEC void spec_jac(const curve_point *p, const bignum256 *z, Jac *j) {
    bignum256 z2 = mul(*z, *z);
    j->x = mul(z2, p->x); j->y = mul(mul(z2, *z), p->y); j->z = *z;
}
SPEC void spec_unjac(const Jac *j, curve_point *p) {
    bignum256 i = inv(j->z), i2 = mul(i, i), x = mul(j->x, i2), y = mul(j->y, mul(i2, i));
    bn_mod(&x, FP); bn_mod(&y, FP); p->x = x; p->y = y;
}
SPEC void spec_jac_double(Jac *p) {     // m = 3x^2/2, x3 = m^2 - 2xy^2, y3 = m(xy^2 - x3) - y^4, z3 = yz
    bignum256 zz = times(mul(mul(p->z, p->z), mul(p->z, p->z)), 0);
    bignum256 m = half(sub(times(mul(p->x, p->x), 3), zz)), yy = mul(p->y, p->y), xyy = mul(p->x, yy), d = xyy;
    bn_lshift(&d);
    bignum256 x = fast(sub(mul(m, m), fast(d))), y = fast(sub(mul(m, sub(xyy, x)), mul(yy, yy))), z = mul(p->z, p->y);
    p->x = x; p->y = y; p->z = z;
}
SPEC void spec_jac_add(const curve_point *q, Jac *p) {
    bignum256 zz = mul(p->z, p->z), x1 = mul(q->x, zz), y1 = mul(q->y, mul(p->z, zz));
    bignum256 h = fast(sub(x1, p->x)), r = sub(y1, p->y), xs = sum(x1, p->x), ys = sum(y1, p->y);
    if (bn_is_equal(&h, FP)) { r = times(mul(p->x, p->x), 3); h = ys; }
    bignum256 hh = mul(h, h), hx = mul(xs, hh), hy = mul(ys, mul(hh, h));
    bignum256 x = fast(sub(mul(r, r), hx));
    bignum256 y = fast(half(sub(mul(r, sub(sub(hx, x), x)), hy))), z = mul(h, p->z);
    p->x = x; p->y = y; p->z = z;
}
// k odd or made odd by subtracting the order, plus 2^256
static bool odd(const bignum256 *k, uint32_t *a) {
    uint32_t m = (k->val[0] & 1) ? 0 : 0xffffffffu, t = 1, any = 0;
    for (int j = 0; j < 8; j++) { any |= k->val[j]; t += 0x3fffffff + k->val[j] - (CRV->order.val[j] & m); a[j] = t & 0x3fffffff; t >>= 30; }
    any |= k->val[8];
    a[8] = t + 0xffff + k->val[8] - (CRV->order.val[8] & m);
    return any != 0;
}
SPEC void spec_pmul(const bignum256 *k, const curve_point *p, curve_point *r) {
    uint32_t a[9];
    if (!odd(k, a)) { bn_zero(&r->x); bn_zero(&r->y); return; }
    curve_point t[8]; t[0] = *p; t[7] = *p; point_double(CRV, &t[7]);
    for (int i = 1; i < 8; i++) { t[i] = t[7]; point_add(CRV, &t[i - 1], &t[i]); }
    uint32_t b = a[8] >> 12, s = (b >> 4) - 1; Jac j;
    b = (b ^ s) & 15;
    curve_to_jacobian(&t[b >> 1], &j, FP);
    for (int i = 62; i >= 0; i--) {
        for (int n = 0; n < 4; n++) point_jacobian_double(&j, CRV);
        int w = 4 * i / 30, o = 4 * i % 30;
        b = a[w] >> o;
        if (o > 25 && w < 8) b |= a[w + 1] << (30 - o);
        b &= 31;
        uint32_t n = (b >> 4) - 1;
        b = (b ^ n) & 15;
        conditional_negate(s ^ n, &j.z, FP);
        point_jacobian_add(&t[b >> 1], &j, CRV);
        s = n;
    }
    conditional_negate(s, &j.z, FP);
    jacobian_to_curve(&j, r, FP);
}
SPEC void spec_smul(const bignum256 *k, curve_point *r) {
    uint32_t a[9];
    if (!odd(k, a)) { bn_zero(&r->x); bn_zero(&r->y); return; }
    Jac j; uint32_t b = a[0] & 31;
    b = (b ^ ((b >> 4) - 1)) & 15;
    curve_to_jacobian(&CRV->cp[0][b >> 1], &j, FP);
    for (int i = 1; i < 64; i++) {
        for (int n = 0; n < 8; n++) a[n] = (a[n] >> 4) | ((a[n + 1] & 0xf) << 26);
        a[8] >>= 4;
        b = a[0] & 31;
        b = (b ^ ((b >> 4) - 1)) & 15;
        conditional_negate((b & 1) - 1, &j.y, FP);
        point_jacobian_add(&CRV->cp[i][b >> 1], &j, CRV);
    }
    conditional_negate(((a[0] >> 4) & 1) - 1, &j.y, FP);
    jacobian_to_curve(&j, r, FP);
}
SPEC void spec_copy(const curve_point *p, curve_point *q) { memcpy(q, p, sizeof(*q)); }
SPEC void spec_set_inf(curve_point *p) { bn_zero(&p->x); bn_zero(&p->y); }
