// BIP-32 reference on top of HMAC-SHA512, hash160 and the scalar/point primitives
#include <new>
#include <stdlib.h>
#include "ec.h"
#include "Conversion.h"
struct XKey { uint8_t secret[32], chain[32], point[64]; uint8_t depth; uint8_t fp[4]; uint32_t num; uint32_t type; const Network *net; };

static void hmac512(const uint8_t *k, size_t kl, const uint8_t *a, size_t al, uint8_t *out) {
    uint8_t key[128] = {0};
    if (kl > 128) sha512_Raw(k, kl, key); else memcpy(key, k, kl);
    uint8_t pad[128], in[64];
    for (size_t i = 0; i < 128; i++) pad[i] = key[i] ^ 0x36;
    SHA512_CTX c;
    sha512_Init(&c); sha512_Update(&c, pad, 128); sha512_Update(&c, a, al); sha512_Final(&c, in);
    for (size_t i = 0; i < 128; i++) pad[i] = key[i] ^ 0x5c;
    sha512_Init(&c); sha512_Update(&c, pad, 128); sha512_Update(&c, in, 64); sha512_Final(&c, out);
}
static void pubpoint(const uint8_t *k, uint8_t *xy) {
    bignum256 b; curve_point R; bn_read_be(k, &b); scalar_multiply(CRV, &b, &R);
    bn_write_be(&R.x, xy); bn_write_be(&R.y, xy + 32);
}
static void ser(const uint8_t *xy, uint8_t *o) { o[0] = 2 + (xy[63] & 1); memcpy(o + 1, xy, 32); }
static void h160(const uint8_t *d, size_t n, uint8_t *o) { uint8_t t[32]; sha256_Raw(d, n, t); ripemd160(t, 32, o); }
static void be32(uint32_t v, uint8_t *o) { o[0] = v >> 24; o[1] = v >> 16; o[2] = v >> 8; o[3] = v; }

SPEC void spec_fingerprint(const uint8_t *xy, uint8_t *out) { uint8_t s[33], h[20]; ser(xy, s); h160(s, 33, h); memcpy(out, h, 4); }

// purpose / coin / script levels select the script type and network of the child (BIP-44/45/48/49/84)
static void path_meaning(uint8_t depth, uint32_t type, uint32_t index, XKey *o) {
    if (index < 0x80000000u) return;
    uint32_t n = index - 0x80000000u;
    if (depth == 0) {
        if (n == 44) o->type = P2PKH;
        if (n == 45) o->type = P2SH;
        if (n == 48) o->type = MULTISIG;
        if (n == 49) o->type = P2SH_P2WPKH;
        if (n == 84) o->type = P2WPKH;
    }
    if (depth == 1) { if (n == 1) o->net = &Testnet; if (n == 0) o->net = &Mainnet; }
    if (depth == 3 && type == MULTISIG) { if (n == 1) o->type = P2SH_P2WSH; if (n == 2) o->type = P2WSH; }
}
SPEC void spec_ckd_priv(XKey *out, const HDPrivateKey *p, uint32_t index, bool hardened) {
    if (hardened && index < 0x80000000u) index += 0x80000000u;
    uint8_t data[37], I[64];
    if (index >= 0x80000000u) { data[0] = 0; memcpy(data + 1, p->num, 32); } else ser(p->pubKey.point, data);
    be32(index, data + 33);
    hmac512(p->chainCode, 32, data, 37, I);
    bignum256 a, b; uint8_t t[32];
    bn_read_be(I, &a); bn_mod(&a, &CRV->order); bn_write_be(&a, t);
    bn_read_be(t, &a); bn_read_be(p->num, &b);
    bn_addmod(&a, &b, &CRV->order); bn_mod(&a, &CRV->order);
    bn_write_be(&a, out->secret);
    memcpy(out->chain, I + 32, 32);
    pubpoint(out->secret, out->point);
    out->depth = p->depth + 1;
    spec_fingerprint(p->pubKey.point, out->fp);
    out->num = index;
    out->type = p->type; out->net = p->network;
    path_meaning(p->depth, p->type, index, out);
}
static void padd(const uint8_t *A, const uint8_t *B, uint8_t *o) {   // both neutral-free operands are decoded from their SEC form
    static const uint8_t zero[64] = {0};
    if (memcmp(A, zero, 64) == 0) { memcpy(o, B, 64); return; }
    if (memcmp(B, zero, 64) == 0) { memcpy(o, A, 64); return; }
    uint8_t s[33]; curve_point x, y;
    ser(A, s); ecdsa_read_pubkey(CRV, s, &x);
    ser(B, s); ecdsa_read_pubkey(CRV, s, &y);
    point_add(CRV, &x, &y);
    bn_write_be(&y.x, o); bn_write_be(&y.y, o + 32);
}
SPEC void spec_ckd_pub(XKey *out, const HDPublicKey *p, uint32_t index) {
    if (index >= 0x80000000u) {   // no hardened child of a public key: the invalid key
        memset(out->point, 0, 64); memset(out->chain, 0, 32); out->depth = 0; memset(out->fp, 0, 4);
        out->num = 0; out->type = UNKNOWN_TYPE; out->net = &DEFAULT_NETWORK; return;
    }
    uint8_t data[37], I[64], t[32], q[64];
    ser(p->point, data); be32(index, data + 33);
    hmac512(p->chainCode, 32, data, 37, I);
    bignum256 a; bn_read_be(I, &a); bn_mod(&a, &CRV->order); bn_write_be(&a, t);
    pubpoint(t, q);
    padd(q, p->point, out->point);
    memcpy(out->chain, I + 32, 32);
    out->depth = p->depth + 1;
    spec_fingerprint(p->point, out->fp);
    out->num = index; out->type = p->type; out->net = p->network;
}
SPEC void spec_master(XKey *out, const uint8_t *seed, size_t n, const Network *net) {
    uint8_t I[64];
    hmac512((const uint8_t *)"Bitcoin seed", 12, seed, n, I);
    memcpy(out->secret, I, 32); memcpy(out->chain, I + 32, 32);
    pubpoint(out->secret, out->point);
    out->depth = 0; memset(out->fp, 0, 4); out->num = 0; out->type = UNKNOWN_TYPE; out->net = net;
}
SPEC void spec_neuter(XKey *out, const HDPrivateKey *p) {
    memcpy(out->point, p->pubKey.point, 64); memcpy(out->chain, p->chainCode, 32);
    out->depth = p->depth; memcpy(out->fp, p->parentFingerprint, 4); out->num = p->childNumber; out->type = p->type; out->net = p->network;
}
// 78-byte extended key payloads (BIP-32 / SLIP-132)
static const char *prvver(const Network *n, uint32_t t) {
    return (const char *)(t == P2WPKH ? n->zprv : t == P2SH_P2WPKH ? n->yprv : t == P2WSH ? n->Zprv : t == P2SH_P2WSH ? n->Yprv : n->xprv);
}
static const char *pubver(const Network *n, uint32_t t) {
    return (const char *)(t == P2WPKH ? n->zpub : t == P2SH_P2WPKH ? n->ypub : t == P2WSH ? n->Zpub : t == P2SH_P2WSH ? n->Ypub : n->xpub);
}
static void payload(uint8_t *o, const char *ver, uint8_t depth, const uint8_t *fp, uint32_t num, const uint8_t *cc) {
    memcpy(o, ver, 4); o[4] = depth; memcpy(o + 5, fp, 4); be32(num, o + 9); memcpy(o + 13, cc, 32);
}
SPEC void spec_xprv_payload(const HDPrivateKey *k, uint8_t *o) {
    payload(o, prvver(k->network, k->type), k->depth, k->parentFingerprint, k->childNumber, k->chainCode);
    o[45] = 0; memcpy(o + 46, k->num, 32);
}
SPEC void spec_xpub_payload(const HDPublicKey *k, uint8_t *o) {
    payload(o, pubver(k->network, k->type), k->depth, k->parentFingerprint, k->childNumber, k->chainCode);
    ser(k->point, o + 45);
}
SPEC void spec_xpub_payload_of_prv(const HDPrivateKey *k, uint8_t *o) {
    payload(o, pubver(k->network, k->type), k->depth, k->parentFingerprint, k->childNumber, k->chainCode);
    ser(k->pubKey.point, o + 45);
}
SPEC void spec_derive_prv(HDPrivateKey *out, const HDPrivateKey *p, const uint32_t *idx, size_t n) {
    new (out) HDPrivateKey(*p);
    for (size_t i = 0; i < n; i++) *out = out->child(idx[i], false);
}
SPEC void spec_derive_pub(HDPublicKey *out, const HDPublicKey *p, const uint32_t *idx, size_t n) {
    new (out) HDPublicKey(*p);
    for (size_t i = 0; i < n; i++) if (idx[i] >= 0x80000000u) { new (out) HDPublicKey(); return; } else *out = out->child(idx[i]);
}

static const char PATHCHARS[] = "0123456789/'h";
// path strings: [m[/]] n['|h] / ... [/]
SPEC void spec_path_prv(HDPrivateKey *out, const HDPrivateKey *p, const char *path) {
    size_t len = strlen(path), at = 0;
    if (path[0] == 'm') { at = len < 2 ? len : 2; len -= at; }
    if (len > 0 && path[at + len - 1] == '/') len--;
    if (len == 0) { new (out) HDPrivateKey(*p); return; }
    const char *s = path + at;
    size_t n = 1;
    for (size_t i = 0; i < len; i++) {
        if (strchr(PATHCHARS, s[i]) == NULL) { new (out) HDPrivateKey(); return; }
        if (s[i] == '/') n++;
    }
    uint32_t *v = (uint32_t *)calloc(n, 4);
    size_t c = 0;
    for (size_t i = 0; i < len; i++) {
        if (s[i] == '/') { c++; continue; }
        if (v[c] >= 0x80000000u) { new (out) HDPrivateKey(); return; }
        uint32_t d = strchr(PATHCHARS, s[i]) - PATHCHARS;
        if (d >= 10) v[c] += 0x80000000u;   // ' or h
        else {
            if (v[c] > (0xffffffffu - d) / 10) { new (out) HDPrivateKey(); return; }
            v[c] = v[c] * 10 + d;
        }
    }
    new (out) HDPrivateKey(p->derive(v, n));
}

static const char PUBCHARS[] = "0123456789/";
SPEC void spec_path_pub(HDPublicKey *out, const HDPublicKey *p, const char *path) {
    size_t len = strlen(path), at = 0;
    if (path[0] == 'm') { at = len < 2 ? len : 2; len -= at; }
    if (len > 0 && path[at + len - 1] == '/') len--;
    if (len == 0) { new (out) HDPublicKey(*p); return; }
    const char *s = path + at;
    size_t n = 1;
    for (size_t i = 0; i < len; i++) {
        if (strchr(PUBCHARS, s[i]) == NULL) { new (out) HDPublicKey(); return; }
        if (s[i] == '/') n++;
    }
    uint32_t *v = (uint32_t *)calloc(n, 4);
    size_t c = 0;
    for (size_t i = 0; i < len; i++) {
        if (s[i] == '/') { if (v[c] >= 0x80000000u) { new (out) HDPublicKey(); return; } c++; continue; }
        uint32_t d = strchr(PUBCHARS, s[i]) - PUBCHARS;
        if (v[c] > (0xffffffffu - d) / 10) { new (out) HDPublicKey(); return; }
        v[c] = v[c] * 10 + d;
    }
    new (out) HDPublicKey(p->derive(v, n));
}

// parsing of the 78-byte payload (version bytes of SLIP-132)
struct Ver { uint32_t prv, pub; uint32_t type; };
static const Ver MAIN[5] = {{0x0488ade4, 0x0488b21e, UNKNOWN_TYPE}, {0x049d7878, 0x049d7cb2, P2SH_P2WPKH}, {0x04b2430c, 0x04b24746, P2WPKH},
                            {0x0295b005, 0x0295b43f, P2SH_P2WSH}, {0x02aa7a99, 0x02aa7ed3, P2WSH}};
static const Ver TEST[5] = {{0x04358394, 0x043587cf, UNKNOWN_TYPE}, {0x044a4e28, 0x044a5262, P2SH_P2WPKH}, {0x045f18bc, 0x045f1cf6, P2WPKH},
                            {0x024285b5, 0x024289ef, P2SH_P2WSH}, {0x02575048, 0x02575483, P2WSH}};
static uint32_t rd32(const uint8_t *p) { return ((uint32_t)p[0] << 24) | ((uint32_t)p[1] << 16) | ((uint32_t)p[2] << 8) | p[3]; }
static bool version(uint32_t v, bool prv, XKey *o) {
    for (int i = 0; i < 5; i++) if (v == (prv ? MAIN[i].prv : MAIN[i].pub)) { o->type = MAIN[i].type; o->net = &Mainnet; return true; }
    for (int i = 0; i < 5; i++) if (v == (prv ? TEST[i].prv : TEST[i].pub)) { o->type = TEST[i].type; o->net = &Testnet; return true; }
    return false;
}
static void common(XKey *o, const uint8_t *p) { o->depth = p[4]; memcpy(o->fp, p + 5, 4); o->num = rd32(p + 9); memcpy(o->chain, p + 13, 32); }
SPEC int spec_xprv_parse(XKey *o, const uint8_t *p) {
    static const uint8_t zero[32] = {0};
    if (!version(rd32(p), true, o)) return 0;
    common(o, p);
    if (p[45] != 0) return 0;
    if (memcmp(p + 46, zero, 32) == 0) return 0;
    bignum256 n; bn_read_be(p + 46, &n); bn_mod(&n, &CRV->order); bn_write_be(&n, o->secret);
    pubpoint(o->secret, o->point);
    return memcmp(o->secret, zero, 32) != 0;
}
SPEC int spec_xpub_parse(XKey *o, const uint8_t *p) {
    if (!version(rd32(p), false, o)) return 0;
    common(o, p);
    uint8_t xy[65];
    if (p[45] != 2 && p[45] != 3) return 0;
    curve_point q;
    if (!ecdsa_read_pubkey(CRV, p + 45, &q)) return 0;
    bn_write_be(&q.x, o->point); bn_write_be(&q.y, o->point + 32);
    return 1;
}
SPEC size_t spec_xprv_text(const HDPrivateKey *k, char *o, size_t n) { uint8_t p[78]; spec_xprv_payload(k, p); return toBase58Check(p, 78, o, n); }
SPEC size_t spec_xpub_text(const HDPublicKey *k, char *o, size_t n) { uint8_t p[78]; spec_xpub_payload(k, p); return toBase58Check(p, 78, o, n); }
SPEC size_t spec_xpub_text_of_prv(const HDPrivateKey *k, char *o, size_t n) { uint8_t p[78]; spec_xpub_payload_of_prv(k, p); return toBase58Check(p, 78, o, n); }
