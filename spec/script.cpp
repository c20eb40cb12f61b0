// standard output scripts (BIP-11/16/67/141), data pushes, addresses (Base58Check / BIP-173)
#include "ec.h"
#include "Conversion.h"
#include <new>
extern "C" {
#include "utility/segwit_addr.h"
}
static size_t sec_(const PublicKey *p, uint8_t *o) {
    if (p->compressed) { o[0] = (p->point[63] & 1) ? 3 : 2; memcpy(o + 1, p->point, 32); return 33; }
    o[0] = 4; memcpy(o + 1, p->point, 64); return 65;
}
static void h160(const uint8_t *d, size_t n, uint8_t *o) { uint8_t t[32]; sha256_Raw(d, n, t); ripemd160(t, 32, o); }
static void keyhash(const PublicKey *p, uint8_t *o) { uint8_t s[65]; size_t n = sec_(p, s); h160(s, n, o); }
struct Out { uint64_t len; uint8_t b[11000]; };
static void p2pkh(Out *o, const uint8_t *h) { o->len = 25; o->b[0] = 0x76; o->b[1] = 0xa9; o->b[2] = 20; memcpy(o->b + 3, h, 20); o->b[23] = 0x88; o->b[24] = 0xac; }
static void p2sh(Out *o, const uint8_t *h) { o->len = 23; o->b[0] = 0xa9; o->b[1] = 20; memcpy(o->b + 2, h, 20); o->b[22] = 0x87; }
static void p2w(Out *o, int ver, const uint8_t *h, size_t n) { o->len = n + 2; o->b[0] = ver ? 0x50 + ver : 0; o->b[1] = n; memcpy(o->b + 2, h, n); }
SPEC void spec_pkh(Out *o, const PublicKey *p) { uint8_t h[20]; keyhash(p, h); p2pkh(o, h); }
SPEC void spec_wpkh(Out *o, const PublicKey *p) { uint8_t h[20]; keyhash(p, h); p2w(o, 0, h, 20); }
SPEC void spec_sh(Out *o, const Script *s) { uint8_t h[20]; h160(s->scriptArray, s->scriptLen, h); p2sh(o, h); }
SPEC void spec_wsh(Out *o, const Script *s) { uint8_t h[32]; sha256_Raw(s->scriptArray, s->scriptLen, h); p2w(o, 0, h, 32); }
SPEC void spec_pubkey_script(Out *o, const PublicKey *p, int type) { o->len = 0; if (type == P2PKH) spec_pkh(o, p); if (type == P2WPKH) spec_wpkh(o, p); }
SPEC void spec_script_script(Out *o, const Script *s, int type) { o->len = 0; if (type == P2SH) spec_sh(o, s); if (type == P2WSH) spec_wsh(o, s); }
SPEC void spec_multi(Out *o, uint8_t m, const PublicKey *k, uint8_t n) {
    o->len = 0;
    if (m < 1 || m > n || n > 16) return;
    size_t l = 0;
    o->b[l++] = 0x50 + m;
    for (size_t i = 0; i < n; i++) { uint8_t s[65]; size_t z = sec_(&k[i], s); o->b[l++] = z; memcpy(o->b + l, s, z); l += z; }
    o->b[l++] = 0x50 + n; o->b[l++] = 0xae;
    o->len = l;
}
static bool less_(const uint8_t *a, const uint8_t *b) { return memcmp(a, b, 33) < 0; }
SPEC void spec_sortedmulti2(Out *o, uint8_t m, const PublicKey *k) {   // compressed keys, lexicographic order (BIP-67)
    uint8_t a[65], b[65]; sec_(&k[0], a); sec_(&k[1], b);
    bool sw = less_(b, a);
    o->len = 0;
    if (m < 1 || m > 2) return;
    o->b[0] = 0x50 + m; o->b[1] = 33; memcpy(o->b + 2, sw ? b : a, 33); o->b[35] = 33; memcpy(o->b + 36, sw ? a : b, 33); o->b[69] = 0x52; o->b[70] = 0xae; o->len = 71;
}
SPEC int spec_type(const Script *s) {
    const uint8_t *a = s->scriptArray;
    switch (s->scriptLen) {
    case 25: return a[0] == 0x76 && a[1] == 0xa9 && a[2] == 20 && a[23] == 0x88 && a[24] == 0xac ? P2PKH : UNKNOWN_TYPE;
    case 23: return a[0] == 0xa9 && a[1] == 20 && a[22] == 0x87 ? P2SH : UNKNOWN_TYPE;
    case 22: return a[0] == 0 && a[1] == 20 ? P2WPKH : UNKNOWN_TYPE;
    case 34: return a[0] == 0 && a[1] == 32 ? P2WSH : UNKNOWN_TYPE;
    }
    return UNKNOWN_TYPE;
}
// data pushes: bytes appended to what is there; a script or witness above 10000 bytes is dropped
static void app(Out *o, const uint8_t *d, size_t n) { memcpy(o->b + o->len, d, n); o->len += n; }
SPEC void spec_push_code(Out *o, uint8_t c) { app(o, &c, 1); }
SPEC void spec_push_bytes(Out *o, const uint8_t *d, size_t n) { app(o, d, n); }
SPEC void spec_push_key(Out *o, const PublicKey *p) { uint8_t s[66]; size_t n = sec_(p, s + 1); s[0] = n; app(o, s, n + 1); }
SPEC void spec_push_sig(Out *o, const Signature *s, int t) { uint8_t d[77]; size_t n = s->der(d + 1, 75); d[0] = n + 1; d[n + 1] = t; app(o, d, n + 2); }
SPEC void spec_push_script(Out *o, const Script *s) {
    size_t n = s->scriptLen, k = 0; uint8_t h[3];
    if (n >= 76) h[k++] = n > 255 ? 77 : 76;
    h[k++] = n; if (n > 255) h[k++] = n >> 8;
    app(o, h, k); app(o, s->scriptArray, n);
}
SPEC void spec_wit_data(Out *o, const uint8_t *d, size_t n) {
    uint8_t h[3]; size_t k = 1;
    if (n < 0xfd) h[0] = n; else { h[0] = 0xfd; h[1] = n; h[2] = n >> 8; k = 3; }
    app(o, h, k); app(o, d, n);
}
SPEC void spec_wit_key(Out *o, const PublicKey *p) { uint8_t s[65]; size_t n = sec_(p, s); spec_wit_data(o, s, n); }
SPEC void spec_wit_sig(Out *o, const Signature *s, int t) { uint8_t d[76]; size_t n = s->der(d, 75); d[n] = t; spec_wit_data(o, d, n + 1); }
SPEC void spec_wit_script(Out *o, const Script *s) { spec_wit_data(o, s->scriptArray, s->scriptLen); }
// addresses
static size_t b58(uint8_t ver, const uint8_t *h, char *o) {
    uint8_t a[21]; char t[40] = {0}; a[0] = ver; memcpy(a + 1, h, 20);
    toBase58Check(a, 21, t, sizeof t); size_t l = strlen(t); memcpy(o, t, l); return l;
}
static size_t b32(const char *hrp, const uint8_t *h, size_t n, char *o) { char t[76] = {0}; segwit_addr_encode(t, hrp, 0, h, n); size_t l = strlen(t); memcpy(o, t, l); return l; }
SPEC size_t spec_address(const Script *s, char *o, size_t len, const Network *net) {
    memset(o, 0, len);
    uint8_t h[32];
    switch (spec_type(s)) {
    case P2PKH: memcpy(h, s->scriptArray + 3, 20); return b58(net->p2pkh, h, o);
    case P2SH: memcpy(h, s->scriptArray + 2, 20); return b58(net->p2sh, h, o);
    case P2WPKH: memcpy(h, s->scriptArray + 2, 20); return b32(net->bech32, h, 20, o);
    case P2WSH: memcpy(h, s->scriptArray + 2, 32); return b32(net->bech32, h, 32, o);
    }
    return 0;
}
SPEC int spec_legacy(const PublicKey *p, char *o, size_t len, const Network *net) {
    uint8_t a[21]; a[0] = net->p2pkh; keyhash(p, a + 1); memset(o, 0, len); return toBase58Check(a, 21, o, len);
}
SPEC int spec_nested(const PublicKey *p, char *o, size_t len, const Network *net) {
    uint8_t a[21], s[22]; s[0] = 0; s[1] = 20; keyhash(p, s + 2); a[0] = net->p2sh; h160(s, 22, a + 1); memset(o, 0, len); return toBase58Check(a, 21, o, len);
}
SPEC void spec_segwit(const PublicKey *p, char *o, size_t len, const Network *net) {
    uint8_t h[20]; keyhash(p, h); memset(o, 0, len); if (len >= 76) segwit_addr_encode(o, net->bech32, 0, h, 20);
}
extern "C" __attribute__((used)) void impl_from_address(Script *o, const char *a) { new (o) Script(a); }
extern "C" __attribute__((used)) bool impl_script_eq(const Script *a, const Script *b) { return *a == *b; }
static bool pre(const char *a, const char *h) { size_t n = strlen(h); return memcmp(a, h, n) == 0 && a[n] == '1'; }
SPEC void spec_from_address(Out *o, const char *a) {
    o->len = 0;
    size_t len = strlen(a);
    if (len > 100) return;
    const char *hrp = pre(a, "bc") ? "bc" : pre(a, "tb") ? "tb" : pre(a, "bcrt") ? "bcrt" : 0;
    if (hrp) {
        int ver = 0; uint8_t prog[40]; size_t n = 0;
        if (segwit_addr_decode(&ver, prog, &n, hrp, a) != 1) return;
        p2w(o, ver, prog, n);
    } else {
        uint8_t p[21];
        if (fromBase58Check(a, len, p, 21) != 21) return;
        if (p[0] == 0 || p[0] == 0x6f) p2pkh(o, p + 1);
        else if (p[0] == 5 || p[0] == 0xc4) p2sh(o, p + 1);
    }
}
SPEC bool spec_key_less(const PublicKey *x, const PublicKey *y) { uint8_t a[65], b[65]; sec_(x, a); sec_(y, b); return less_(a, b); }
SPEC void spec_multi_order(Out *o, uint8_t m, const PublicKey *k, const uint8_t *perm, uint8_t n) {   // keys in the given order
    o->len = 0;
    if (m < 1 || m > n) return;
    size_t l = 0;
    o->b[l++] = 0x50 + m;
    for (size_t i = 0; i < n; i++) { uint8_t s[65]; sec_(&k[perm[i]], s); size_t z = k[perm[i]].compressed ? 33 : 65; o->b[l++] = z; memcpy(o->b + l, s, z); l += z; }
    o->b[l++] = 0x50 + n; o->b[l++] = 0xae;
    o->len = l;
}
