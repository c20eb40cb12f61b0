// signing an input of a transaction (BIP-143, BIP-16, P2PKH): digest, signature, scriptSig and witness
#include "ser.cpp"
#include "tx.cpp"
static size_t sec_(const PublicKey *p, uint8_t *o) {
    if (p->compressed) { o[0] = 2 + (p->point[63] & 1); memcpy(o + 1, p->point, 32); return 33; }
    o[0] = 4; memcpy(o + 1, p->point, 64); return 65;
}
static void h160(const uint8_t *d, size_t n, uint8_t *o) { uint8_t t[32]; sha256_Raw(d, n, t); ripemd160(t, 32, o); }
struct Buf { uint8_t b[900]; size_t n; Buf() { n = 0; } void add(const uint8_t *p, size_t k) { for (size_t i = 0; i < k; i++) b[n++] = p[i]; } void u8(uint8_t v) { b[n++] = v; } };
static void pushdata(Buf &o, const uint8_t *p, size_t n) {
    if (n >= 76) o.u8(n > 255 ? 77 : 76);
    o.u8((uint8_t)n);
    if (n > 255) o.u8((uint8_t)(n >> 8));
    o.add(p, n);
}
static void element(Buf &o, const uint8_t *p, size_t n) { if (n < 0xfd) o.u8(n); else { o.u8(0xfd); o.u8((uint8_t)n); o.u8((uint8_t)(n >> 8)); } o.add(p, n); }
static size_t dersig(const uint8_t *s, uint8_t *d) {       // r and s with a non-zero first byte
    size_t n = 2;
    for (int j = 0; j < 2; j++) {
        const uint8_t *q = s + 32 * j;
        bool pad = q[0] >= 0x80;
        d[n++] = 2; d[n++] = 32 + pad;
        if (pad) d[n++] = 0;
        for (int i = 0; i < 32; i++) d[n++] = q[i];
    }
    d[0] = 0x30; d[1] = n - 2;
    d[n++] = 1;            // SIGHASH_ALL
    return n;
}
static int canon_(uint8_t, uint8_t[64]) { return 1; }
static void setscript(Script &s, const Buf &b) { s.clear(); one(s, b.b, b.n); }
static bool is_pkh(const uint8_t *b, size_t n) { return n == 25 && b[0] == 0x76 && b[1] == 0xa9 && b[2] == 20 && b[23] == 0x88 && b[24] == 0xac; }
static bool is_wpkh(const uint8_t *b, size_t n) { return n == 22 && b[0] == 0 && b[1] == 20; }
#define TYPE(t) ((t) == 0 ? P2WPKH : (t) == 1 ? P2WSH : (t) == 2 ? P2SH_P2WPKH : P2SH_P2WSH)
SPEC size_t impl_sign(const uint8_t *b, size_t n, uint8_t idx, const PrivateKey *k, const uint8_t *rs, size_t rn, uint8_t *out) {
    Tx t;
    Rd r(b, n);
    fill(r, t);
    Script s;
    one(s, rs, rn);
    Signature g = t.signInput(idx, *k, s);
    Out o(out);
    put(o, t);
    o.raw(g.r, 32);
    o.raw(g.s, 32);
    return o.n;
}
SPEC size_t impl_sign_pkh(const uint8_t *b, size_t n, uint8_t idx, const PrivateKey *k, const uint8_t *, size_t, uint8_t *out) {
    Tx t;
    Rd r(b, n);
    fill(r, t);
    Signature g = t.signInput(idx, *k);
    Out o(out);
    put(o, t);
    o.raw(g.r, 32);
    o.raw(g.s, 32);
    return o.n;
}
SPEC size_t spec_sign(const uint8_t *b, size_t n, uint8_t idx, const PrivateKey *k, const uint8_t *rs, size_t rn, uint8_t *out) {
    Tx t;
    Rd r(b, n);
    fill(r, t);
    Script s;
    one(s, rs, rn);
    uint8_t h[32], g[65], i, d[80], sec[65];
    spec_sigHash(&t, h, idx, &s, 1);
    ecdsa_sign_digest(&secp256k1, k->num, h, g, &i, canon_);
    Buf o2;
    size_t m = dersig(g, d);
    pushdata(o2, d, m);
    m = sec_(&k->pubKey, sec);
    pushdata(o2, sec, m);
    if (!is_pkh(rs, rn)) pushdata(o2, rs, rn);
    setscript(t.txIns[idx].scriptSig, o2);
    Out o(out);
    put(o, t);
    o.raw(g, 64);
    return o.n;
}
SPEC size_t spec_sign_pkh(const uint8_t *b, size_t n, uint8_t idx, const PrivateKey *k, const uint8_t *, size_t, uint8_t *out) {
    uint8_t s[25] = {0x76, 0xa9, 20}, sec[65];
    size_t m = sec_(&k->pubKey, sec);
    h160(sec, m, s + 3);
    s[23] = 0x88;
    s[24] = 0xac;
    return spec_sign(b, n, idx, k, s, 25, out);
}
SPEC size_t impl_signw(const uint8_t *b, size_t n, uint8_t idx, const PrivateKey *k, const uint8_t *rs, size_t rn, uint8_t *out, uint64_t amount, int type) {
    Tx t;
    Rd r(b, n);
    fill(r, t);
    Script s;
    one(s, rs, rn);
    Signature g = t.signSegwitInput(idx, *k, s, amount, TYPE(type));
    Out o(out);
    put(o, t);
    o.raw(g.r, 32);
    o.raw(g.s, 32);
    return o.n;
}
SPEC size_t impl_signw_key(const uint8_t *b, size_t n, uint8_t idx, const PrivateKey *k, const uint8_t *, size_t, uint8_t *out, uint64_t amount, int type) {
    Tx t;
    Rd r(b, n);
    fill(r, t);
    Signature g = t.signSegwitInput(idx, *k, amount, TYPE(type));
    Out o(out);
    put(o, t);
    o.raw(g.r, 32);
    o.raw(g.s, 32);
    return o.n;
}
SPEC size_t spec_signw(const uint8_t *b, size_t n, uint8_t idx, const PrivateKey *k, const uint8_t *rs, size_t rn, uint8_t *out, uint64_t amount, int type) {
    Tx t;
    Rd r(b, n);
    fill(r, t);
    uint8_t h[32], g[65], i, d[80], sec[65];
    size_t sn = sec_(&k->pubKey, sec);
    bool w = is_wpkh(rs, rn);
    Script code;
    if (w) {
        uint8_t s[25] = {0x76, 0xa9, 20};
        h160(sec, sn, s + 3);
        s[23] = 0x88;
        s[24] = 0xac;
        one(code, s, 25);
    } else one(code, rs, rn);
    spec_sigHashSegwit(&t, h, idx, &code, amount, 1);
    ecdsa_sign_digest(&secp256k1, k->num, h, g, &i, canon_);
    Buf sg, wi;
    if (type >= 2) {
        if (w) pushdata(sg, rs, rn);
        else {
            uint8_t p[34] = {0, 32};
            sha256_Raw(rs, rn, p + 2);
            pushdata(sg, p, 34);
        }
    }
    size_t m = dersig(g, d);
    element(wi, d, m);
    element(wi, sec, sn);
    if (!w) element(wi, rs, rn);
    setscript(t.txIns[idx].scriptSig, sg);
    Witness &z = t.txIns[idx].witness;
    z.clear();
    z.numElements = w ? 2 : 3;
    z.witnessLen = wi.n;
    z.witnessArray = (uint8_t *)calloc(wi.n, 1);
    memcpy(z.witnessArray, wi.b, wi.n);
    Out o(out);
    put(o, t);
    o.raw(g, 64);
    return o.n;
}
SPEC size_t spec_signw_key(const uint8_t *b, size_t n, uint8_t idx, const PrivateKey *k, const uint8_t *, size_t, uint8_t *out, uint64_t amount, int type) {
    uint8_t s[22] = {0, 20}, sec[65];
    size_t m = sec_(&k->pubKey, sec);
    h160(sec, m, s + 2);
    return spec_signw(b, n, idx, k, s, 22, out, amount, type);
}
