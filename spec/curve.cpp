// SEC 1 public key objects, scalar arithmetic modulo the group order, point group operations, WIF
#include "ec.h"
#include "Conversion.h"
#include <new>
static const uint8_t ZERO[64] = {0};
static size_t enc(const uint8_t *xy, bool comp, uint8_t *o) {
    if (comp) { o[0] = (xy[63] & 1) ? 3 : 2; memcpy(o + 1, xy, 32); return 33; }
    o[0] = 4; memcpy(o + 1, xy, 64); return 65;
}
static void wr(const curve_point *q, uint8_t *xy) { bn_write_be(&q->x, xy); bn_write_be(&q->y, xy + 32); }
struct Pt { uint8_t xy[64]; uint8_t comp; uint8_t net_[7]; };
// parsing of a SEC key: 1 = valid
SPEC int spec_from_sec(Pt *o, const uint8_t *s, size_t n) {
    if (n < 1 || s[0] < 2 || s[0] > 4) return 0;
    if (n < (s[0] == 4 ? 65u : 33u)) return 0;
    curve_point q;
    if (!ecdsa_read_pubkey(CRV, s, &q)) return 0;
    wr(&q, o->xy); o->comp = s[0] != 4;
    return 1;
}
SPEC size_t spec_sec(const ECPoint *p, uint8_t *o) { return enc(p->point, p->compressed, o); }
SPEC bool spec_pt_valid(const ECPoint *p) { uint8_t s[65]; curve_point q; enc(p->point, p->compressed, s); return p->status == PARSING_DONE && ecdsa_read_pubkey(CRV, s, &q); }
// group
static void add_(const uint8_t *A, bool ca, const uint8_t *B, bool cb, uint8_t *o) {
    if (memcmp(A, ZERO, 64) == 0) { memcpy(o, B, 64); return; }
    if (memcmp(B, ZERO, 64) == 0) { memcpy(o, A, 64); return; }
    uint8_t s[65]; curve_point x, y;
    enc(A, ca, s); ecdsa_read_pubkey(CRV, s, &x);
    enc(B, cb, s); ecdsa_read_pubkey(CRV, s, &y);
    point_add(CRV, &x, &y);
    wr(&y, o);
}
static void neg_(const uint8_t *A, uint8_t *o) {
    if (memcmp(A, ZERO, 64) == 0) { memcpy(o, A, 64); return; }
    uint8_t s[33]; curve_point q;
    s[0] = (A[63] & 1) ? 2 : 3; memcpy(s + 1, A, 32);
    ecdsa_read_pubkey(CRV, s, &q); wr(&q, o);
}
SPEC void spec_pt_add(Pt *o, const ECPoint *a, const ECPoint *b) { add_(a->point, a->compressed, b->point, b->compressed, o->xy); }
SPEC void spec_pt_neg(Pt *o, const ECPoint *a) { neg_(a->point, o->xy); o->comp = a->compressed; }
SPEC void spec_pt_sub(Pt *o, const ECPoint *a, const ECPoint *b) { uint8_t n[64]; neg_(b->point, n); add_(a->point, a->compressed, n, b->compressed, o->xy); }
SPEC void spec_pt_mul(Pt *o, const ECScalar *k, const ECPoint *p) {
    bignum256 d; curve_point q, r; bn_read_be(k->num, &d);
    if (memcmp(p->point, GeneratorPoint.point, 64) == 0) scalar_multiply(CRV, &d, &r);
    else { bn_read_be(p->point, &q.x); bn_read_be(p->point + 32, &q.y); point_multiply(CRV, &d, &q, &r); }
    wr(&r, o->xy); o->comp = p->compressed;
}
SPEC bool spec_pt_eq(const ECPoint *a, const ECPoint *b) { return memcmp(a->point, b->point, 64) == 0; }
SPEC bool spec_pt_less(const ECPoint *a, const ECPoint *b) {   // BIP-67: lexicographic order of the SEC encodings
    uint8_t x[65] = {0}, y[65] = {0}; enc(a->point, a->compressed, x); enc(b->point, b->compressed, y);
    return memcmp(x, y, 65) < 0;
}
// scalars
SPEC void spec_sc_add(uint8_t *o, const ECScalar *x, const ECScalar *y) {
    bignum256 a, b; bn_read_be(x->num, &a); bn_read_be(y->num, &b); bn_addmod(&a, &b, &CRV->order); bn_mod(&a, &CRV->order); bn_write_be(&a, o);
}
SPEC void spec_sc_neg(uint8_t *o, const ECScalar *x) {
    bignum256 a, b; bn_read_be(x->num, &a); bn_subtract(&CRV->order, &a, &b); bn_mod(&b, &CRV->order); bn_write_be(&b, o);
}
SPEC void spec_sc_sub(uint8_t *o, const ECScalar *x, const ECScalar *y) {
    uint8_t t[32]; spec_sc_neg(t, y); bignum256 a, b; bn_read_be(x->num, &a); bn_read_be(t, &b); bn_addmod(&a, &b, &CRV->order); bn_mod(&a, &CRV->order); bn_write_be(&a, o);
}
SPEC void spec_sc_mul(uint8_t *o, const ECScalar *x, const ECScalar *y) {
    bignum256 a, b; bn_read_be(x->num, &a); bn_read_be(y->num, &b); bn_multiply(&b, &a, &CRV->order); bn_mod(&a, &CRV->order); bn_write_be(&a, o);
}
SPEC void spec_sc_div(uint8_t *o, const ECScalar *x, const ECScalar *y) {
    bignum256 a, b; bn_read_be(x->num, &a); bn_read_be(y->num, &b); bn_inverse(&b, &CRV->order); bn_multiply(&b, &a, &CRV->order); bn_mod(&a, &CRV->order); bn_write_be(&a, o);
}
SPEC void spec_sc_addi(uint8_t *o, const ECScalar *x, const uint32_t *i) { bignum256 a; bn_read_be(x->num, &a); bn_addi(&a, *i); bn_mod(&a, &CRV->order); bn_write_be(&a, o); }
SPEC void spec_sc_subi(uint8_t *o, const ECScalar *x, const uint32_t *i) { bignum256 a; bn_read_be(x->num, &a); bn_subi(&a, *i, &CRV->order); bn_mod(&a, &CRV->order); bn_write_be(&a, o); }
SPEC bool spec_sc_less(const ECScalar *x, const ECScalar *y) { bignum256 a, b; bn_read_be(x->num, &a); bn_read_be(y->num, &b); return bn_is_less(&a, &b); }
SPEC bool spec_sc_eq(const ECScalar *x, const ECScalar *y) { return memcmp(x->num, y->num, 32) == 0; }
SPEC bool spec_sc_valid(const ECScalar *x) { return memcmp(x->num, ZERO, 32) != 0; }
SPEC void spec_sc_int(uint8_t *o, uint32_t i) { memset(o, 0, 28); o[28] = i >> 24; o[29] = i >> 16; o[30] = i >> 8; o[31] = i; }
SPEC int spec_sc_parse(uint8_t *o, const uint8_t *d) {
    if (memcmp(d, ZERO, 32) == 0) return 0;
    bignum256 a; bn_read_be(d, &a); bn_mod(&a, &CRV->order); bn_write_be(&a, o); return 1;
}
// private keys
struct Key { uint8_t secret[32]; uint8_t xy[64]; uint8_t comp; uint8_t pad[7]; const Network *net; };
static void pubof(Key *k) { bignum256 b; curve_point R; bn_read_be(k->secret, &b); scalar_multiply(CRV, &b, &R); wr(&R, k->xy); }
SPEC void spec_key(Key *o, const uint8_t *d, bool comp, const Network *net) { memcpy(o->secret, d, 32); pubof(o); o->comp = comp; o->net = net; }
SPEC void spec_key_sc(Key *o, const ECScalar *s) { memcpy(o->secret, s->num, 32); pubof(o); o->comp = 1; o->net = &DEFAULT_NETWORK; }
SPEC size_t spec_wif(const PrivateKey *k, char *t, size_t n) {
    uint8_t p[34]; p[0] = k->network->wif; memcpy(p + 1, k->num, 32); p[33] = 1;
    return toBase58Check(p, k->pubKey.compressed ? 34 : 33, t, n);
}
SPEC int spec_from_wif(Key *o, const uint8_t *p, size_t n) {   // payload of n bytes
    if (n != 33 && n != 34) return 0;
    if (n == 34 && p[33] != 1) return 0;
    if (p[0] == 0x80) o->net = &Mainnet; else if (p[0] == 0xEF) o->net = &Testnet; else return 0;
    bignum256 b; bn_read_be(p + 1, &b);
    if (bn_is_zero(&b) || !bn_is_less(&b, &CRV->order)) return 0;
    memcpy(o->secret, p + 1, 32); pubof(o); o->comp = n == 34;
    return 1;
}
SPEC void spec_ecdh(PrivateKey *k, const PublicKey *p, uint8_t *out, bool hash) {
    Pt m; spec_pt_mul(&m, k, p);
    if (hash) sha256_Raw(m.xy, 64, out); else memcpy(out, m.xy, 32);
}

// header-only operators of the library, instantiated
#define IMPL extern "C" __attribute__((used))
IMPL bool impl_pt_eq(const ECPoint *a, const ECPoint *b) { return *a == *b; }
IMPL bool impl_pt_ne(const ECPoint *a, const ECPoint *b) { return *a != *b; }
IMPL bool impl_pt_lt(const ECPoint *a, const ECPoint *b) { return *a < *b; }
IMPL bool impl_pt_gt(const ECPoint *a, const ECPoint *b) { return *a > *b; }
IMPL bool impl_pt_ge(const ECPoint *a, const ECPoint *b) { return *a >= *b; }
IMPL bool impl_pt_le(const ECPoint *a, const ECPoint *b) { return *a <= *b; }
IMPL bool impl_sc_eq(const ECScalar *a, const ECScalar *b) { return *a == *b; }
IMPL bool impl_sc_ne(const ECScalar *a, const ECScalar *b) { return *a != *b; }
IMPL bool impl_sc_lt(const ECScalar *a, const ECScalar *b) { return *a < *b; }
IMPL bool impl_sc_gt(const ECScalar *a, const ECScalar *b) { return *a > *b; }
IMPL bool impl_sc_ge(const ECScalar *a, const ECScalar *b) { return *a >= *b; }
IMPL bool impl_sc_le(const ECScalar *a, const ECScalar *b) { return *a <= *b; }
IMPL bool impl_sc_valid(const ECScalar *a) { return a->ECScalar::isValid(); }
IMPL void impl_sc_int(ECScalar *o, uint32_t i) { new (o) ECScalar(i); }
IMPL void impl_sc_parse(ECScalar *o, const uint8_t *d) { new (o) ECScalar(d, 32); }
IMPL void impl_pk_sec(PublicKey *o, const uint8_t *d) { new (o) PublicKey(d); }
IMPL bool impl_pt_even(const ECPoint *a) { return a->isEven(); }
IMPL size_t impl_pt_x(const ECPoint *a, uint8_t *o, size_t n) { return a->x(o, n); }
IMPL size_t impl_pt_from_x(ECPoint *o, const uint8_t *d, size_t n) { new (o) ECPoint(); return o->from_x(d, n); }
SPEC int spec_from_x(Pt *o, const uint8_t *x, size_t n) { uint8_t s[33]; s[0] = 2; memcpy(s + 1, x, 32); return n < 32 ? 0 : spec_from_sec(o, s, 33); }
