// BIP-39: entropy and checksum to words and back, for any list of 2048 words; seed by PBKDF2-HMAC-SHA512
#include "spec.h"
#include "utility/trezor/bip39.h"
#include "utility/trezor/rand.h"
#include "utility/trezor/sha2.h"
#include <stdlib.h>
extern "C" const char *const *mnemonic_wordlist(void);
static char text[400];
static const char *words(const uint8_t *e, int len) {
    if (len != 16 && len != 20 && len != 24 && len != 28 && len != 32) return 0;
    const char *const *list = mnemonic_wordlist();
    uint8_t h[32], b[34];
    sha256_Raw(e, len, h);
    for (int i = 0; i < len; i++) b[i] = e[i];
    b[len] = h[0];
    b[len + 1] = 0;
    size_t n = 0;
    for (int w = 0; w < len * 8 / 32 * 3; w++) {
        int p = w * 11;
        uint32_t v = ((uint32_t)b[p / 8] << 16) | ((uint32_t)b[p / 8 + 1] << 8) | (p / 8 + 2 <= len ? b[p / 8 + 2] : 0);
        v = (v >> (13 - p % 8)) & 2047;
        const char *s = list[v];
        size_t l = strlen(s);
        if (w) text[n++] = ' ';
        for (size_t j = 0; j < l; j++) text[n++] = s[j];
    }
    text[n] = 0;
    return text;
}
SPEC const char *spec_from_data(const uint8_t *e, int len) { return words(e, len); }
SPEC const char *spec_from_entropy(const uint8_t *e, size_t len) { return words(e, (int)len); }
static bool count_ok(int w) { return w == 12 || w == 15 || w == 18 || w == 21 || w == 24; }
SPEC const char *spec_from_random(uint8_t n) {
    if (!count_ok(n)) return 0;
    uint8_t r[32];
    random_buffer(r, 32);
    return words(r, n / 3 * 4);
}
SPEC const char *spec_generate(uint8_t n, const uint8_t *e, size_t len) {
    if (!count_ok(n)) return 0;
    uint8_t h[32];
    sha256_Raw(e, len, h);
    return words(h, n / 3 * 4);
}
SPEC const char *impl_generate_str(uint8_t n, const char *t) { return generateMnemonic(n, std::string(t)); }
SPEC const char *impl_generate_str24(const char *t) { return generateMnemonic(std::string(t)); }
SPEC const char *impl_generate24(const uint8_t *e, size_t len) { return generateMnemonic(e, len); }
SPEC const char *impl_generate(uint8_t n, const uint8_t *e, size_t len) { return generateMnemonic(n, e, len); }
SPEC const char *impl_random(uint8_t n) { return generateMnemonic(n); }
SPEC const char *spec_generate_str(uint8_t n, const char *t) { return spec_generate(n, (const uint8_t *)t, strlen(t)); }
SPEC const char *spec_generate_str24(const char *t) { return spec_generate(24, (const uint8_t *)t, strlen(t)); }
SPEC const char *spec_generate24(const uint8_t *e, size_t len) { return spec_generate(24, e, len); }
// words separated by single spaces; result: number of bits and the bits, most significant first, zero padded to 33 bytes
SPEC int spec_to_entropy(const char *m, uint8_t *out) {
    if (!m) return 0;
    const char *const *list = mnemonic_wordlist();
    int n = 1;
    for (size_t i = 0; m[i]; i++) n += m[i] == ' ';
    if (!count_ok(n)) return 0;
    uint8_t b[36] = {0};
    size_t at = 0;
    for (int w = 0; w < n; w++) {
        char t[10];
        size_t l = 0;
        while (m[at] && m[at] != ' ') {
            if (l == 9) return 0;
            t[l++] = m[at++];
        }
        t[l] = 0;
        if (m[at]) at++;
        int k = 0;
        while (list[k] && strcmp(list[k], t) != 0) k++;
        if (!list[k]) return 0;
        int p = w * 11;
        uint32_t v = (uint32_t)k << (13 - p % 8);
        b[p / 8] |= (uint8_t)(v >> 16);
        b[p / 8 + 1] |= (uint8_t)(v >> 8);
        b[p / 8 + 2] |= (uint8_t)v;
    }
    memcpy(out, b, 33);
    return n * 11;
}
SPEC int spec_check(const char *m) {
    uint8_t b[33], h[32];
    int n = mnemonic_to_entropy(m, b);
    if (n == 0) return 0;
    int e = n / 33 * 4, c = n / 33;
    sha256_Raw(b, e, h);
    return (h[0] >> (8 - c)) == (b[e] >> (8 - c));
}
SPEC bool impl_check(const char *m) { return checkMnemonic(std::string(m)); }
SPEC bool spec_checkm(const char *m) { return spec_check(m) != 0; }
SPEC size_t spec_mnemonicToEntropy(const char *m, size_t, uint8_t *out, size_t n) {
    int w = 1;
    for (size_t i = 0; m[i]; i++) w += m[i] == ' ';
    size_t e = w * 4 / 3;
    if (n < e) return 0;
    uint8_t b[33];
    if (mnemonic_to_entropy(m, b) == 0) return 0;
    memcpy(out, b, e);
    return e;
}
#ifdef PBKDF2_ROUNDS
#define ROUNDS PBKDF2_ROUNDS
#else
#define ROUNDS 2048
#endif
SPEC int impl_rounds(void) { return ROUNDS; }
SPEC int spec_rounds(void) { return 2048; }
static void hmac512(const uint8_t *k, size_t kl, const uint8_t *a, size_t al, const uint8_t *b, size_t bl, uint8_t *out) {
    uint8_t key[128] = {0}, x[128], h[64];
    if (kl > 128) sha512_Raw(k, kl, key); else for (size_t i = 0; i < kl; i++) key[i] = k[i];
    SHA512_CTX c;
    for (int i = 0; i < 128; i++) x[i] = key[i] ^ 0x36;
    sha512_Init(&c); sha512_Update(&c, x, 128); sha512_Update(&c, a, al); sha512_Update(&c, b, bl); sha512_Final(&c, h);
    for (int i = 0; i < 128; i++) x[i] = key[i] ^ 0x5c;
    sha512_Init(&c); sha512_Update(&c, x, 128); sha512_Update(&c, h, 64); sha512_Final(&c, out);
}
SPEC void impl_from_mnemonic(const char *m, size_t n, const char *p, size_t pn, HDPrivateKey *k) { k->fromMnemonic(m, n, p, pn, &Mainnet); }
SPEC void spec_from_mnemonic(const char *m, size_t n, const char *p, size_t pn, HDPrivateKey *k) {
    uint8_t salt[1024], u[64], t[64];
    memcpy(salt, "mnemonic", 8);
    memcpy(salt + 8, p, pn);
    const uint8_t one[4] = {0, 0, 0, 1};
    hmac512((const uint8_t *)m, n, salt, 8 + pn, one, 4, u);
    memcpy(t, u, 64);
    for (int i = 1; i < ROUNDS; i++) {
        hmac512((const uint8_t *)m, n, u, 64, one, 0, u);
        for (int j = 0; j < 64; j++) t[j] ^= u[j];
    }
    k->fromSeed(t, 64, &Mainnet);
}
