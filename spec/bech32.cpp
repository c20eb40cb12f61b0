#include "spec.h"
#include <string.h>
extern "C" {
#include "utility/segwit_addr.h"
uint32_t bech32_polymod_step(uint32_t pre);
}
// BIP173
static const char B32[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";

SPEC uint32_t spec_polymod_step(uint32_t c) {
    static const uint32_t gen[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
    uint32_t top = c >> 25;
    uint32_t r = (c & 0x1ffffff) << 5;
    for (int i = 0; i < 5; i++)
        if ((top >> i) & 1) r ^= gen[i];
    return r;
}
static uint32_t feed(uint32_t c, uint8_t v) { return bech32_polymod_step(c) ^ v; }

SPEC uint8_t spec_b32_digit(uint8_t c) {
    static const char both[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7lQPZRY9X8GF2TVDW0S3JN54KHCE6MUA7L";
    const char *p = strchr(both, c);
    if (c == 0 || p == NULL) return 255;
    return (p - both) & 31;
}

SPEC int spec_bech32_encode(char *o, const char *hrp, const uint8_t *d, size_t n) {
    size_t h = 0;
    uint32_t c = 1;
    for (; hrp[h]; h++) {
        uint8_t ch = hrp[h];
        if (ch < 33 || ch > 126 || (ch >= 'A' && ch <= 'Z')) return 0;
        c = feed(c, ch >> 5);
    }
    if (h + 7 + n > MAX_BECH32_SIZE) return 0;
    c = feed(c, 0);
    for (size_t i = 0; i < h; i++) {
        c = feed(c, hrp[i] & 31);
        o[i] = hrp[i];
    }
    o[h] = '1';
    for (size_t i = 0; i < n; i++) {
        if (d[i] >= 32) return 0;
        c = feed(c, d[i]);
        o[h + 1 + i] = B32[d[i]];
    }
    for (int i = 0; i < 6; i++) c = feed(c, 0);
    c ^= 1;
    for (int i = 0; i < 6; i++) o[h + 1 + n + i] = B32[(c >> (25 - 5 * i)) & 31];
    o[h + 7 + n] = 0;
    return 1;
}

// data bytes and hrp are only meaningful when the result is 1
SPEC int spec_bech32_decode(char *hrp, uint8_t *d, size_t *n, const char *s) {
    size_t len = strlen(s);
    if (len < 8 || len > MAX_BECH32_SIZE) return 0;
    size_t sep = len;
    for (size_t i = 0; i < len; i++)
        if (s[i] == '1') sep = i;
    if (sep == len || sep < 1 || len - sep - 1 < 6) return 0;
    bool lower = false, upper = false;
    uint32_t c = 1;
    for (size_t i = 0; i < sep; i++) {
        uint8_t ch = s[i];
        if (ch < 33 || ch > 126) return 0;
        if (ch >= 'a' && ch <= 'z') lower = true;
        if (ch >= 'A' && ch <= 'Z') {
            upper = true;
            ch += 32;
        }
        hrp[i] = ch;
        c = feed(c, ch >> 5);
    }
    hrp[sep] = 0;
    c = feed(c, 0);
    for (size_t i = 0; i < sep; i++) c = feed(c, s[i] & 31);
    for (size_t i = sep + 1; i < len; i++) {
        uint8_t ch = s[i], v = spec_b32_digit(ch);
        if (v == 255) return 0;
        if (ch >= 'a' && ch <= 'z') lower = true;
        if (ch >= 'A' && ch <= 'Z') upper = true;
        c = feed(c, v);
        if (i + 6 < len) d[i - sep - 1] = v;
    }
    *n = len - sep - 7;
    if (lower && upper) return 0;
    return c == 1;
}

// bit i (from the most significant) of a sequence of w-bit groups
static uint8_t bit(const uint8_t *d, size_t w, size_t i) { return (d[i / w] >> (w - 1 - i % w)) & 1; }

// 8-bit groups to 5-bit groups, zero padded; returns their number
SPEC size_t spec_to5(uint8_t *o, const uint8_t *d, size_t n) {
    size_t k = (n * 8 + 4) / 5;
    for (size_t g = 0; g < k; g++) {
        uint8_t v = 0;
        for (size_t j = 0; j < 5; j++) v = (v << 1) | (g * 5 + j < n * 8 ? bit(d, 8, g * 5 + j) : 0);
        o[g] = v;
    }
    return k;
}
// 5-bit groups to bytes; at most 4 padding bits, all zero
SPEC int spec_to8(uint8_t *o, size_t *on, const uint8_t *d, size_t n) {
    size_t k = n * 5 / 8;
    for (size_t g = 0; g < k; g++) {
        uint8_t v = 0;
        for (size_t j = 0; j < 8; j++) v = (v << 1) | bit(d, 5, g * 8 + j);
        o[g] = v;
    }
    *on = k;
    if (n * 5 - k * 8 > 4) return 0;
    uint8_t pad = 0;
    for (size_t i = k * 8; i < n * 5; i++) pad |= bit(d, 5, i);
    return pad == 0;
}

SPEC int spec_segwit_encode(char *o, const char *hrp, int ver, const uint8_t *p, size_t n) {
    uint8_t d[65];
    if (ver > 16) return 0;
    if (n < 2 || n > 40) return 0;
    if (ver == 0 && n != 20 && n != 32) return 0;
    d[0] = ver;
    size_t k = 0;
    convert_bits(d + 1, &k, 5, p, n, 8, 1);   // regrouping itself is compared on its own
    return bech32_encode(o, hrp, d, k + 1);
}
SPEC int spec_segwit_decode(int *ver, uint8_t *p, size_t *pn, const char *hrp, const char *addr) {
    uint8_t d[1000];
    char h[1000];
    size_t n = 0;
    if (strlen(addr) > 90) return 0;
    if (!bech32_decode(h, d, &n, addr)) return 0;
    if (n < 1 || n > 65) return 0;
    if (strcmp(h, hrp) != 0) return 0;
    if (d[0] > 16) return 0;
    uint8_t o[40];
    size_t k = 0;
    if (!convert_bits(o, &k, 8, d + 1, n - 1, 5, 0)) return 0;
    if (k < 2 || k > 40) return 0;
    if (d[0] == 0 && k != 20 && k != 32) return 0;
    for (size_t i = 0; i < k; i++) p[i] = o[i];
    *pn = k;
    *ver = d[0];
    return 1;
}
SPEC int impl_to5(uint8_t *o, const uint8_t *d, size_t n, size_t *k) {
    *k = 0;
    return convert_bits(o, k, 5, d, n, 8, 1);
}
SPEC int impl_to8(uint8_t *o, size_t *k, const uint8_t *d, size_t n) {
    *k = 0;
    return convert_bits(o, k, 8, d, n, 5, 0);
}
SPEC int spec_to5w(uint8_t *o, const uint8_t *d, size_t n, size_t *k) {
    *k = spec_to5(o, d, n);
    return 1;
}
