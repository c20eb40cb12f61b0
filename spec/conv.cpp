// text and integer encodings: hex, binary, Base58 / Base58Check, Base43, Base64 (RFC 4648), little/big endian, CompactSize
#include "spec.h"
#include "Conversion.h"
#include <stdlib.h>
static const char B58[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static const char B43[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:";
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void zero(void *p, size_t n) { memset(p, 0, n); }
// ---- hex
SPEC size_t spec_to_hex(const uint8_t *a, size_t n, char *o, size_t on) {
    if (!a || !o || on < 2 * n) return 0;
    zero(o, on);
    for (size_t i = 0; i < n; i++) {
        uint8_t h = a[i] >> 4, l = a[i] & 15;
        o[2 * i] = h < 10 ? '0' + h : 'a' + h - 10;
        o[2 * i + 1] = l < 10 ? '0' + l : 'a' + l - 10;
    }
    return 2 * n;
}
static int hexd(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    return -1;
}
SPEC uint8_t spec_hex_digit(char c) { int v = hexd(c); return v < 0 ? 0xff : v; }
// characters before the first hex digit are skipped, decoding stops at the first pair that is not hex
SPEC size_t spec_from_hex(const char *h, size_t n, uint8_t *o, size_t on) {
    if (!h || !o) return 0;
    zero(o, on);
    size_t s = 0;
    while (s < n && hexd(h[s]) < 0) s++;
    size_t k = 0;
    while (s + 2 * k + 1 < n) {
        int a = hexd(h[s + 2 * k]), b = hexd(h[s + 2 * k + 1]);
        if (a < 0 || b < 0) break;
        if (k >= on) { zero(o, on); return 0; }
        o[k] = a * 16 + b;
        k++;
    }
    return k;
}
// ---- binary digits, most significant first; an incomplete first byte is padded on the left
SPEC size_t spec_to_bin(const uint8_t *a, size_t n, char *o, size_t on) {
    if (!a || !o || on < 8 * n) return 0;
    zero(o, on);
    for (size_t i = 0; i < 8 * n; i++) o[i] = (a[i / 8] & (0x80 >> (i % 8))) ? '1' : '0';
    return 8 * n;
}
SPEC size_t spec_from_bin(const char *b, size_t n, uint8_t *o, size_t on) {
    if (!b || !o || 8 * on < n) return 0;
    zero(o, on);
    size_t l = (n + 7) / 8;
    for (size_t i = 0; i < n; i++) {
        char c = b[n - 1 - i];
        if (c != '0' && c != '1') return 0;
        if (c == '1') o[l - 1 - i / 8] |= 1 << (i % 8);
    }
    return l;
}
// ---- Base58 / Base43: big-endian base conversion, one zero digit per leading zero byte
static size_t enc(const char *A, unsigned base, size_t num, size_t den, const uint8_t *a, size_t n, char *o, size_t on) {
    if (!a || !o) return 0;
    size_t z = 0;
    while (z < n && a[z] == 0) z++;
    size_t m = n - z, size = m * num / den + 1;      // enough digits for m bytes
    if (on < z + size) return 0;
    zero(o, on);
    uint8_t q[512];
    memcpy(q, a + z, m);
    uint8_t d[800];
    for (size_t j = 0; j < size; j++) {
        uint16_t rem = 0;
        for (size_t i = 0; i < m; i++) { uint16_t t = rem * 256 + q[i]; q[i] = t / base; rem = t % base; }
        d[size - 1 - j] = rem;
    }
    size_t skip = 0;
    while (skip < size && A[d[skip]] == A[0]) skip++;
    for (size_t i = 0; i < z; i++) o[i] = A[0];
    for (size_t i = skip; i < size; i++) o[z + i - skip] = A[d[i]];
    return z + size - skip;
}
SPEC size_t spec_to_b58(const uint8_t *a, size_t n, char *o, size_t on) { return enc(B58, 58, 183, 134, a, n, o, on); }
SPEC size_t spec_to_b43(const uint8_t *a, size_t n, char *o, size_t on) { return enc(B43, 43, 148, 100, a, n, o, on); }
static int digit(const char *A, char c) {
    if (!c) return -1;
    const char *p = strchr(A, c);
    return p ? (int)(p - A) : -1;
}
// decodes up to the first character outside the alphabet
static size_t dec(const char *A, unsigned base, size_t num, size_t den, const char *s, size_t n, uint8_t *o, size_t on) {
    if (!s || !o) return 0;
    zero(o, on);
    size_t l = 0;
    while (l < n && digit(A, s[l]) >= 0) l++;
    size_t z = 0;
    while (z < l && s[z] == A[0]) z++;
    size_t size = z + (l - z) * num / den + 1;
    uint8_t t[600];
    zero(t, size);
    for (size_t i = 0; i < l; i++) {
        uint16_t carry = digit(A, s[i]);
        for (size_t j = size; j > 0; j--) { uint16_t cur = t[j - 1] * base + carry; t[j - 1] = cur; carry = cur / 256; }
    }
    size_t skip = 0;
    while (z + skip < size && t[z + skip] == 0) skip++;
    if (size - skip > on) return 0;
    memcpy(o, t + skip, size - skip);
    return size - skip;
}
SPEC size_t spec_from_b58(const char *s, size_t n, uint8_t *o, size_t on) { return dec(B58, 58, 361, 493, s, n, o, on); }
SPEC size_t spec_from_b43(const char *s, size_t n, uint8_t *o, size_t on) { return dec(B43, 43, 68, 100, s, n, o, on); }
// ---- Base58Check: 4 bytes of double SHA-256 appended
SPEC size_t spec_to_b58check(const uint8_t *a, size_t n, char *o, size_t on) {
    if (!a || !o) return 0;
    uint8_t *t = (uint8_t *)malloc(n + 4); uint8_t h[32];
    memcpy(t, a, n);
    sha256_Raw(a, n, h); sha256_Raw(h, 32, h);
    memcpy(t + n, h, 4);
    return toBase58(t, n + 4, o, on);
}
SPEC size_t spec_from_b58check(const char *s, size_t n, uint8_t *o, size_t on) {
    if (!s || !o) return 0;
    uint8_t *t = (uint8_t *)malloc(on + 4); uint8_t h[32];
    size_t l = fromBase58(s, n, t, on + 4);
    if (l < 4) return 0;
    sha256_Raw(t, l - 4, h); sha256_Raw(h, 32, h);
    if (memcmp(t + l - 4, h, 4)) return 0;
    memcpy(o, t, l - 4);
    return l - 4;
}
// ---- Base64
SPEC size_t spec_to_b64_len(const uint8_t *a, size_t n, uint8_t fl) {
    if (!a) return 0;
    return (fl & BASE64_NOPADDING) ? n / 3 * 4 + (n % 3 ? n % 3 + 1 : 0) : (n + 2) / 3 * 4;
}
SPEC size_t spec_to_b64(const uint8_t *a, size_t n, char *o, size_t on, uint8_t fl) {
    if (!a || !o) return 0;
    zero(o, on);
    size_t L = spec_to_b64_len(a, n, fl);
    if (on < L) return 0;
    for (size_t i = 0; i < L; i++) {
        size_t g = i / 4, k = i % 4;
        uint32_t v = 0; size_t have = 0;
        for (size_t j = 0; j < 3; j++) { v <<= 8; if (3 * g + j < n) { v += a[3 * g + j]; have++; } }
        if (k > have) { o[i] = '='; continue; }
        char c = B64[(v >> (18 - 6 * k)) & 63];
        if (fl & BASE64_URLSAFE) { if (c == '+') c = '-'; if (c == '/') c = '_'; }
        o[i] = c;
    }
    return L;
}
// decoded size announced by the padding
SPEC size_t spec_from_b64_len(const char *s, size_t n, uint8_t fl) {
    if (!s || n == 0) return 0;
    if (fl & BASE64_NOPADDING) return n / 4 * 3 + (n % 4 ? n % 4 - 1 : 0);
    if (n % 4) return 0;
    return n / 4 * 3 - (s[n - 1] == '=') - (s[n - 2] == '=');
}
// decoding ends at the first padding character
SPEC size_t spec_from_b64(const char *s, size_t n, uint8_t *o, size_t on, uint8_t fl) {
    if (!s || !o) return 0;
    zero(o, on);
    if (on < spec_from_b64_len(s, n, fl)) return 0;
    bool np = fl & BASE64_NOPADDING;
    for (size_t g = 0; 4 * g < n; g++) {
        uint32_t v = 0; size_t k = 0; bool end = false;
        if (!np && n - 4 * g < 4) { zero(o, on); return 0; }
        for (; k < 4; k++) {
            char c = 4 * g + k < n ? s[4 * g + k] : 0;
            if (fl & BASE64_URLSAFE) { if (c == '-') c = '+'; if (c == '_') c = '/'; }
            int d = digit(B64, c);
            if (d < 0) { end = c == '=' || (np && c == 0); break; }
            v = v * 64 + (d & 63);
        }
        if (k == 4) { 
            if (on < 3 * g + 3) { zero(o, on); return 0; }
            o[3 * g] = v >> 16; o[3 * g + 1] = v >> 8; o[3 * g + 2] = v; continue; }
        if (!end || k < 2 || on < 3 * g + k - 1) { zero(o, on); return 0; }
        if (k == 3) { o[3 * g] = v >> 10; o[3 * g + 1] = v >> 2; return 3 * g + 2; }
        o[3 * g] = v >> 4; return 3 * g + 1;
    }
    return (n + 3) / 4 * 3;
}
// ---- integers
SPEC uint64_t spec_le_to_int(const uint8_t *a, size_t n) { uint64_t v = 0; for (size_t i = n; i > 0; i--) v = (v << 8) | a[i - 1]; return v; }
SPEC uint64_t spec_be_to_int(const uint8_t *a, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; i++) v = (v << 8) | a[i]; return v; }
SPEC void spec_int_to_le(uint64_t v, uint8_t *a, size_t n) { for (size_t i = 0; i < n; i++) { a[i] = v; v >>= 8; } }
SPEC void spec_int_to_be(uint64_t v, uint8_t *a, size_t n) { for (size_t i = n; i > 0; i--) { a[i - 1] = v; v >>= 8; } }
// ---- CompactSize
SPEC uint8_t spec_varint_len(uint64_t v) { return v < 0xfd ? 1 : v <= 0xffff ? 3 : v <= 0xffffffffULL ? 5 : 9; }
SPEC uint64_t spec_read_varint(const uint8_t *a, size_t n) {
    if (n == 0) return 0;
    if (a[0] < 0xfd) return a[0];
    if (a[0] == 0xfd) return n < 3 ? 0 : a[1] | a[2] << 8;
    if (a[0] == 0xfe) return n < 5 ? 0 : (uint64_t)a[1] | (uint64_t)a[2] << 8 | (uint64_t)a[3] << 16 | (uint64_t)a[4] << 24;
    return n < 9 ? 0 : spec_le_to_int(a + 1, 8);
}
SPEC size_t spec_write_varint(uint64_t v, uint8_t *a, size_t n) {
    if (n < spec_varint_len(v)) return 0;
    if (v < 0xfd) { a[0] = v; return 1; }
    if (v <= 0xffff) { a[0] = 0xfd; a[1] = v; a[2] = v >> 8; return 3; }
    if (v <= 0xffffffffULL) { a[0] = 0xfe; a[1] = v; a[2] = v >> 8; a[3] = v >> 16; a[4] = v >> 24; return 5; }
    a[0] = 0xff; spec_int_to_le(v, a + 1, 8); return 9;
}

// upper bounds on the encoded / decoded size
static size_t lead(const uint8_t *a, size_t n, uint8_t z) { size_t k = 0; while (k < n && a[k] == z) k++; return k; }
SPEC size_t spec_to_b58_len(const uint8_t *a, size_t n) { size_t z = lead(a, n, 0); return z + (n - z) * 183 / 134 + 1; }
SPEC size_t spec_to_b43_len(const uint8_t *a, size_t n) { size_t z = lead(a, n, 0); return z + (n - z) * 148 / 100 + 1; }
SPEC size_t spec_from_b58_len(const char *a, size_t n) { size_t z = lead((const uint8_t *)a, n, '1'); return z + (n - z) * 361 / 493 + 1; }
SPEC size_t spec_from_b43_len(const char *a, size_t n) { size_t z = lead((const uint8_t *)a, n, '0'); return z + (n - z) * 68 / 100 + 1; }
