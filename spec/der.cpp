// DER (X.690) encoding of ECDSA signatures: SEQUENCE { INTEGER r, INTEGER s }, minimal non-negative integers
#include "spec.h"
static size_t put(uint8_t *o, size_t n, const uint8_t *v) {
    size_t i = 31;
    for (size_t k = 0; k < 31; k++) if (v[k]) { i = k; break; }
    size_t l = 32 - i;
    o[n++] = 2;
    if (v[i] & 0x80) { o[n++] = l + 1; o[n++] = 0; } else o[n++] = l;
    for (size_t k = 0; k < l; k++) o[n + k] = v[i + k];
    return n + l;
}
SPEC size_t spec_der(const Signature *g, uint8_t *o) {
    size_t n = 2;
    n = put(o, n, g->r); n = put(o, n, g->s);
    o[0] = 0x30; o[1] = n - 2;
    return n;
}
// strict parser: accepts exactly the minimal encodings of at most 32-byte integers spanning len bytes
static size_t get(const uint8_t *d, size_t len, size_t at, uint8_t *v) {   // returns new position, 0 = bad
    memset(v, 0, 32);
    if (at + 2 > len || d[at] != 2) return 0;
    size_t l = d[at + 1];
    at += 2;
    if (l == 0 || l > 33 || at + l > len) return 0;
    if (d[at] & 0x80) return 0;                                            // negative
    if (l > 1 && d[at] == 0 && !(d[at + 1] & 0x80)) return 0;              // not minimal
    if (l == 33) { if (d[at] != 0) return 0; for (size_t k = 0; k < 32; k++) v[k] = d[at + 1 + k]; }
    else for (size_t k = 0; k < l; k++) v[32 - l + k] = d[at + k];
    return at + l;
}
SPEC int spec_from_der(const uint8_t *d, size_t len, uint8_t *r, uint8_t *s) {
    if (len < 2 || d[0] != 0x30) return 0;
    if (d[1] > 70) return 0;
    size_t n = get(d, len, 2, r);
    if (!n) return 0;
    n = get(d, len, n, s);
    if (!n) return 0;
    return n == (size_t)d[1] + 2;
}
