// FIPS 180-4 SHA-256/SHA-512, RIPEMD-160, RFC 2104 HMAC, RFC 8018 PBKDF2, BIP-340 tagged hash:
// reference padding, chaining and compression, written from the standards
#include "spec.h"
#include "utility/trezor/hmac.h"
extern "C" {
#include "utility/trezor/pbkdf2.h"
}
extern "C" void ripemd160_process(RIPEMD160_CTX *ctx, const uint8_t data[64]);

// ---------------------------------------------------------------- compression functions
static const uint64_t K[80] = {
    0x428a2f98d728ae22ULL, 0x7137449123ef65cdULL, 0xb5c0fbcfec4d3b2fULL, 0xe9b5dba58189dbbcULL, 0x3956c25bf348b538ULL, 0x59f111f1b605d019ULL, 0x923f82a4af194f9bULL, 0xab1c5ed5da6d8118ULL,
    0xd807aa98a3030242ULL, 0x12835b0145706fbeULL, 0x243185be4ee4b28cULL, 0x550c7dc3d5ffb4e2ULL, 0x72be5d74f27b896fULL, 0x80deb1fe3b1696b1ULL, 0x9bdc06a725c71235ULL, 0xc19bf174cf692694ULL,
    0xe49b69c19ef14ad2ULL, 0xefbe4786384f25e3ULL, 0x0fc19dc68b8cd5b5ULL, 0x240ca1cc77ac9c65ULL, 0x2de92c6f592b0275ULL, 0x4a7484aa6ea6e483ULL, 0x5cb0a9dcbd41fbd4ULL, 0x76f988da831153b5ULL,
    0x983e5152ee66dfabULL, 0xa831c66d2db43210ULL, 0xb00327c898fb213fULL, 0xbf597fc7beef0ee4ULL, 0xc6e00bf33da88fc2ULL, 0xd5a79147930aa725ULL, 0x06ca6351e003826fULL, 0x142929670a0e6e70ULL,
    0x27b70a8546d22ffcULL, 0x2e1b21385c26c926ULL, 0x4d2c6dfc5ac42aedULL, 0x53380d139d95b3dfULL, 0x650a73548baf63deULL, 0x766a0abb3c77b2a8ULL, 0x81c2c92e47edaee6ULL, 0x92722c851482353bULL,
    0xa2bfe8a14cf10364ULL, 0xa81a664bbc423001ULL, 0xc24b8b70d0f89791ULL, 0xc76c51a30654be30ULL, 0xd192e819d6ef5218ULL, 0xd69906245565a910ULL, 0xf40e35855771202aULL, 0x106aa07032bbd1b8ULL,
    0x19a4c116b8d2d0c8ULL, 0x1e376c085141ab53ULL, 0x2748774cdf8eeb99ULL, 0x34b0bcb5e19b48a8ULL, 0x391c0cb3c5c95a63ULL, 0x4ed8aa4ae3418acbULL, 0x5b9cca4f7763e373ULL, 0x682e6ff3d6b2b8a3ULL,
    0x748f82ee5defb2fcULL, 0x78a5636f43172f60ULL, 0x84c87814a1f0ab72ULL, 0x8cc702081a6439ecULL, 0x90befffa23631e28ULL, 0xa4506cebde82bde9ULL, 0xbef9a3f7b2c67915ULL, 0xc67178f2e372532bULL,
    0xca273eceea26619cULL, 0xd186b8c721c0c207ULL, 0xeada7dd6cde0eb1eULL, 0xf57d4f7fee6ed178ULL, 0x06f067aa72176fbaULL, 0x0a637dc5a2c898a6ULL, 0x113f9804bef90daeULL, 0x1b710b35131c471bULL,
    0x28db77f523047d84ULL, 0x32caab7b40c72493ULL, 0x3c9ebe0a15c9bebcULL, 0x431d67c49c100d4cULL, 0x4cc5d4becb3e42b6ULL, 0x597f299cfc657e2aULL, 0x5fcb6fab3ad6faecULL, 0x6c44198c4a475817ULL};

template <typename W, int B> static inline W ror(W x, int n) { return (x >> n) | (x << (B - n)); }
template <typename W, int B, int R, int S0a, int S0b, int S0c, int S1a, int S1b, int S1c, int s0a, int s0b, int s0c, int s1a, int s1b, int s1c>
static inline void sha2(const W *in, const W *m, W *out) {
    W w[80], v[8], r[8];
    for (int i = 0; i < 16; i++) w[i] = m[i];
    for (int i = 16; i < R; i++)
        w[i] = (ror<W, B>(w[i - 2], s1a) ^ ror<W, B>(w[i - 2], s1b) ^ (w[i - 2] >> s1c)) + w[i - 7] + (ror<W, B>(w[i - 15], s0a) ^ ror<W, B>(w[i - 15], s0b) ^ (w[i - 15] >> s0c)) + w[i - 16];
    for (int i = 0; i < 8; i++) v[i] = in[i];
    for (int i = 0; i < R; i++) {
        W k = (W)(K[i] >> (64 - B));
        W e = v[4], a = v[0];
        W t1 = v[7] + (ror<W, B>(e, S1a) ^ ror<W, B>(e, S1b) ^ ror<W, B>(e, S1c)) + ((e & v[5]) ^ (~e & v[6])) + k + w[i];
        W t2 = (ror<W, B>(a, S0a) ^ ror<W, B>(a, S0b) ^ ror<W, B>(a, S0c)) + ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
        v[7] = v[6]; v[6] = v[5]; v[5] = e; v[4] = v[3] + t1;
        v[3] = v[2]; v[2] = v[1]; v[1] = a; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) r[i] = in[i] + v[i];
    for (int i = 0; i < 8; i++) out[i] = r[i];
}
SPEC void spec_t256(const uint32_t *in, const uint32_t *m, uint32_t *out) { sha2<uint32_t, 32, 64, 2, 13, 22, 6, 11, 25, 7, 18, 3, 17, 19, 10>(in, m, out); }
SPEC void spec_t512(const uint64_t *in, const uint64_t *m, uint64_t *out) { sha2<uint64_t, 64, 80, 28, 34, 39, 14, 18, 41, 1, 8, 7, 19, 61, 6>(in, m, out); }
static const uint8_t RL[80] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
                              1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13};
static const uint8_t RR[80] = {5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
                              8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11};
static const uint8_t SL[80] = {11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
                              11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6};
static const uint8_t SR[80] = {8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
                              15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11};
static inline uint32_t rol(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static inline uint32_t rf(int j, uint32_t x, uint32_t y, uint32_t z) {
    if (j == 0) return x ^ y ^ z;
    if (j == 1) return (x & y) | (~x & z);
    if (j == 2) return (x | ~y) ^ z;
    if (j == 3) return (x & z) | (y & ~z);
    return x ^ (y | ~z);
}
SPEC void spec_t160(uint32_t *st, const uint8_t *m) {
    static const uint32_t kl[5] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}, kr[5] = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};
    uint32_t x[16], h[5], l[5], r[5];
    for (int i = 0; i < 16; i++) x[i] = (uint32_t)m[4 * i] | (uint32_t)m[4 * i + 1] << 8 | (uint32_t)m[4 * i + 2] << 16 | (uint32_t)m[4 * i + 3] << 24;
    for (int i = 0; i < 5; i++) h[i] = l[i] = r[i] = st[i];
    for (int i = 0; i < 80; i++) {
        uint32_t t = rol(l[0] + rf(i / 16, l[1], l[2], l[3]) + x[RL[i]] + kl[i / 16], SL[i]) + l[4];
        l[0] = l[4]; l[4] = l[3]; l[3] = rol(l[2], 10); l[2] = l[1]; l[1] = t;
        t = rol(r[0] + rf(4 - i / 16, r[1], r[2], r[3]) + x[RR[i]] + kr[i / 16], SR[i]) + r[4];
        r[0] = r[4]; r[4] = r[3]; r[3] = rol(r[2], 10); r[2] = r[1]; r[1] = t;
    }
    st[0] = h[1] + l[2] + r[3];
    st[1] = h[2] + l[3] + r[4];
    st[2] = h[3] + l[4] + r[0];
    st[3] = h[4] + l[0] + r[1];
    st[4] = h[0] + l[1] + r[2];
}
SPEC void impl_t256(const uint32_t *in, const uint32_t *m, uint32_t *out) { sha256_Transform(in, m, out); }
SPEC void impl_t512(const uint64_t *in, const uint64_t *m, uint64_t *out) { sha512_Transform(in, m, out); }
SPEC void impl_t160(uint32_t *st, const uint8_t *m) {
    RIPEMD160_CTX c;
    for (int i = 0; i < 5; i++) c.state[i] = st[i];
    ripemd160_process(&c, m);
    for (int i = 0; i < 5; i++) st[i] = c.state[i];
}

// ---------------------------------------------------------------- padding and chaining around the compression function
static void ref256(const uint32_t *iv, uint64_t before, const uint8_t *d, size_t n, uint8_t *out) {
    uint32_t h[8];
    for (int i = 0; i < 8; i++) h[i] = iv[i];
    size_t blocks = (n + 9 + 63) / 64;
    uint64_t bits = (before + n) * 8;
    for (size_t b = 0; b < blocks; b++) {
        uint32_t w[16];
        for (int i = 0; i < 16; i++) {
            uint32_t v = 0;
            for (int k = 0; k < 4; k++) {
                size_t p = b * 64 + i * 4 + k;
                uint8_t x = p < n ? d[p] : p == n ? 0x80 : 0;
                v |= (uint32_t)x << (24 - 8 * k);
            }
            w[i] = v;
        }
        if (b + 1 == blocks) { w[14] = (uint32_t)(bits >> 32); w[15] = (uint32_t)bits; }
        sha256_Transform(h, w, h);
    }
    for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) out[4 * i + k] = (uint8_t)(h[i] >> (24 - 8 * k));
}
static void ref512(const uint64_t *iv, uint64_t lo, uint64_t hi, const uint8_t *d, size_t n, uint8_t *out) {   // lo, hi: bits hashed before
    uint64_t h[8];
    for (int i = 0; i < 8; i++) h[i] = iv[i];
    size_t blocks = (n + 17 + 127) / 128;
    uint64_t l2 = lo + 8 * n, h2 = hi + (l2 < lo);
    for (size_t b = 0; b < blocks; b++) {
        uint64_t w[16];
        for (int i = 0; i < 16; i++) {
            uint64_t v = 0;
            for (int k = 0; k < 8; k++) {
                size_t p = b * 128 + i * 8 + k;
                uint8_t x = p < n ? d[p] : p == n ? 0x80 : 0;
                v |= (uint64_t)x << (56 - 8 * k);
            }
            w[i] = v;
        }
        if (b + 1 == blocks) { w[14] = h2; w[15] = l2; }
        sha512_Transform(h, w, h);
    }
    for (int i = 0; i < 8; i++) for (int k = 0; k < 8; k++) out[8 * i + k] = (uint8_t)(h[i] >> (56 - 8 * k));
}
static void ref160(uint32_t lo, uint32_t hi, const uint8_t *d, size_t n, uint8_t *out) {
    RIPEMD160_CTX c;
    c.state[0] = 0x67452301; c.state[1] = 0xefcdab89; c.state[2] = 0x98badcfe; c.state[3] = 0x10325476; c.state[4] = 0xc3d2e1f0;
    size_t blocks = (n + 9 + 63) / 64;
    uint32_t l2 = lo + (uint32_t)n, h2 = hi + (l2 < lo);
    uint32_t b0 = l2 << 3, b1 = h2 << 3 | l2 >> 29;
    for (size_t b = 0; b < blocks; b++) {
        uint8_t w[64];
        for (int i = 0; i < 64; i++) { size_t p = b * 64 + i; w[i] = p < n ? d[p] : p == n ? 0x80 : 0; }
        if (b + 1 == blocks) for (int k = 0; k < 4; k++) { w[56 + k] = (uint8_t)(b0 >> (8 * k)); w[60 + k] = (uint8_t)(b1 >> (8 * k)); }
        ripemd160_process(&c, w);
    }
    for (int i = 0; i < 5; i++) for (int k = 0; k < 4; k++) out[4 * i + k] = (uint8_t)(c.state[i] >> (8 * k));
}
static const uint32_t IV256[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
static const uint64_t IV512[8] = {0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL, 0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL};

SPEC void spec_256(const uint8_t *d, size_t a, size_t b, size_t c, uint8_t *out) { ref256(IV256, 0, d, a + b + c, out); }
SPEC void spec_512(const uint8_t *d, size_t a, size_t b, size_t c, uint8_t *out) { ref512(IV512, 0, 0, d, a + b + c, out); }
SPEC void spec_160(const uint8_t *d, size_t a, size_t b, size_t c, uint8_t *out) { ref160(0, 0, d, a + b + c, out); }
#define PARTS(N, T, I, U, F) SPEC void impl_##N(const uint8_t *d, size_t a, size_t b, size_t c, uint8_t *out) { T x; I(&x); U(&x, d, a); U(&x, d + a, b); U(&x, d + a + b, c); F(&x, out); }
PARTS(256, SHA256_CTX, sha256_Init, sha256_Update, sha256_Final)
PARTS(512, SHA512_CTX, sha512_Init, sha512_Update, sha512_Final)
PARTS(160, RIPEMD160_CTX, ripemd160_Init, ripemd160_Update, ripemd160_Final)
SPEC void impl_raw256(const uint8_t *d, size_t n, uint8_t *out) { sha256_Raw(d, n, out); }
SPEC void impl_raw512(const uint8_t *d, size_t n, uint8_t *out) { sha512_Raw(d, n, out); }
SPEC void impl_raw160(const uint8_t *d, size_t n, uint8_t *out) { ripemd160(d, n, out); }
SPEC void spec_raw256(const uint8_t *d, size_t n, uint8_t *out) { ref256(IV256, 0, d, n, out); }
SPEC void spec_raw512(const uint8_t *d, size_t n, uint8_t *out) { ref512(IV512, 0, 0, d, n, out); }
SPEC void spec_raw160(const uint8_t *d, size_t n, uint8_t *out) { ref160(0, 0, d, n, out); }

// ---------------------------------------------------------------- HMAC and PBKDF2
static void hmac256(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) {
    uint8_t p[64] = {0}, q[64], t[32];
    if (kl > 64) { sha256_Raw(k, kl, p); } else for (size_t i = 0; i < kl; i++) p[i] = k[i];
    SHA256_CTX c;
    for (int i = 0; i < 64; i++) q[i] = p[i] ^ 0x36;
    sha256_Init(&c); sha256_Update(&c, q, 64); sha256_Update(&c, d, n); sha256_Final(&c, t);
    for (int i = 0; i < 64; i++) q[i] = p[i] ^ 0x5c;
    sha256_Init(&c); sha256_Update(&c, q, 64); sha256_Update(&c, t, 32); sha256_Final(&c, out);
}
static void hmac512(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) {
    uint8_t p[128] = {0}, q[128], t[64];
    if (kl > 128) { sha512_Raw(k, kl, p); } else for (size_t i = 0; i < kl; i++) p[i] = k[i];
    SHA512_CTX c;
    for (int i = 0; i < 128; i++) q[i] = p[i] ^ 0x36;
    sha512_Init(&c); sha512_Update(&c, q, 128); sha512_Update(&c, d, n); sha512_Final(&c, t);
    for (int i = 0; i < 128; i++) q[i] = p[i] ^ 0x5c;
    sha512_Init(&c); sha512_Update(&c, q, 128); sha512_Update(&c, t, 64); sha512_Final(&c, out);
}
SPEC int spec_hmac256(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) { hmac256(k, kl, d, n, out); return 32; }
SPEC int spec_hmac512(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) { hmac512(k, kl, d, n, out); return 64; }
SPEC int impl_hmac256(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) { ubtc_hmac_sha256(k, kl, d, n, out); return 32; }
SPEC int impl_hmac512(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) { ubtc_hmac_sha512(k, kl, d, n, out); return 64; }
SPEC int impl_hmac256c(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) { SHA256 s; s.beginHMAC(k, kl); s.write(d, n); return s.endHMAC(out); }
SPEC int impl_hmac512c(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) { SHA512 s; s.beginHMAC(k, kl); s.write(d, n); return s.endHMAC(out); }
SPEC int impl_hmac256b(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) { SHA256 s; s.beginHMAC(k, kl); s.write(d[0]); s.write(d + 1, n - 1); return s.endHMAC(out); }
SPEC int impl_hmac512b(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) { SHA512 s; s.beginHMAC(k, kl); s.write(d[0]); s.write(d + 1, n - 1); return s.endHMAC(out); }
// at the level of compression functions
static uint8_t msg[700];
#define RHMAC(B, D, IVW, REFX) \
    uint8_t p[B] = {0}, t[D]; \
    if (kl > B) { REFX(IVW, k, kl, p); } else for (size_t i = 0; i < kl; i++) p[i] = k[i]; \
    for (int i = 0; i < B; i++) msg[i] = p[i] ^ 0x36; \
    for (size_t i = 0; i < n; i++) msg[B + i] = d[i]; \
    REFX(IVW, msg, B + n, t); \
    for (int i = 0; i < B; i++) msg[i] = p[i] ^ 0x5c; \
    for (int i = 0; i < D; i++) msg[B + i] = t[i]; \
    REFX(IVW, msg, B + D, out);
static void r256(const uint32_t *iv, const uint8_t *d, size_t n, uint8_t *o) { ref256(iv, 0, d, n, o); }
static void r512(const uint64_t *iv, const uint8_t *d, size_t n, uint8_t *o) { ref512(iv, 0, 0, d, n, o); }
static void rh256(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) { RHMAC(64, 32, IV256, r256) }
static void rh512(const uint8_t *k, size_t kl, const uint8_t *d, size_t n, uint8_t *out) { RHMAC(128, 64, IV512, r512) }
#define PBK(D, RH) \
    uint8_t m[400], u[D], t[D]; \
    for (int b = 1; (b - 1) * D < kl; b++) { \
        for (int i = 0; i < sl; i++) m[i] = s[i]; \
        m[sl] = (uint8_t)(b >> 24); m[sl + 1] = (uint8_t)(b >> 16); m[sl + 2] = (uint8_t)(b >> 8); m[sl + 3] = (uint8_t)b; \
        RH(p, pl, m, sl + 4, u); \
        for (int i = 0; i < D; i++) t[i] = u[i]; \
        for (uint32_t j = 1; j < it; j++) { \
            RH(p, pl, u, D, u); \
            for (int i = 0; i < D; i++) t[i] ^= u[i]; \
        } \
        for (int i = 0; i < D && (b - 1) * D + i < kl; i++) key[(b - 1) * D + i] = t[i]; \
    }
SPEC void spec_pbkdf2_256(const uint8_t *p, int pl, const uint8_t *s, int sl, uint32_t it, uint8_t *key, int kl) { PBK(32, rh256) }
SPEC void spec_pbkdf2_512(const uint8_t *p, int pl, const uint8_t *s, int sl, uint32_t it, uint8_t *key, int kl) { PBK(64, rh512) }
SPEC void impl_pbkdf2_256(const uint8_t *p, int pl, const uint8_t *s, int sl, uint32_t it, uint8_t *key, int kl) { pbkdf2_hmac_sha256(p, pl, s, sl, it, key, kl); }
SPEC void impl_pbkdf2_512(const uint8_t *p, int pl, const uint8_t *s, int sl, uint32_t it, uint8_t *key, int kl) { pbkdf2_hmac_sha512(p, pl, s, sl, it, key, kl); }

// ---------------------------------------------------------------- library interface
SPEC int spec_sha256(const uint8_t *d, size_t n, uint8_t *o) { sha256_Raw(d, n, o); return 32; }
SPEC int spec_sha512(const uint8_t *d, size_t n, uint8_t *o) { sha512_Raw(d, n, o); return 64; }
SPEC int spec_rmd160(const uint8_t *d, size_t n, uint8_t *o) { ripemd160(d, (uint32_t)n, o); return 20; }
SPEC int spec_hash160(const uint8_t *d, size_t n, uint8_t *o) { uint8_t t[32]; sha256_Raw(d, n, t); ripemd160(t, 32, o); return 20; }
SPEC int spec_doubleSha(const uint8_t *d, size_t n, uint8_t *o) { uint8_t t[32]; sha256_Raw(d, n, t); sha256_Raw(t, 32, o); return 32; }
SPEC int spec_tagged(const char *tag, const uint8_t *d, size_t n, uint8_t *o) {
    uint8_t t[32];
    sha256_Raw((const uint8_t *)tag, strlen(tag), t);
    SHA256_CTX c;
    sha256_Init(&c); sha256_Update(&c, t, 32); sha256_Update(&c, t, 32); sha256_Update(&c, d, n); sha256_Final(&c, o);
    return 32;
}
#define API(N) \
    SPEC int impl_##N##_u(const uint8_t *d, size_t n, uint8_t *o) { return N(d, n, o); } \
    SPEC int impl_##N##_c(const uint8_t *d, size_t n, uint8_t *o) { return N((const char *)d, n, o); } \
    SPEC int impl_##N##_s(const char *d, uint8_t *o) { return N(std::string(d), o); } \
    SPEC int spec_##N##_s(const char *d, uint8_t *o) { return spec_##N((const uint8_t *)d, strlen(d), o); }
API(sha256) API(sha512) API(rmd160) API(hash160) API(doubleSha)
SPEC int impl_tagged_u(const char *tag, const uint8_t *d, size_t n, uint8_t *o) { return tagged_hash(tag, d, n, o); }
SPEC int impl_tagged_c(const char *tag, const uint8_t *d, size_t n, uint8_t *o) { return tagged_hash(tag, (const char *)d, n, o); }
SPEC int impl_tagged_s(const char *tag, const char *d, uint8_t *o) { return tagged_hash(std::string(tag), std::string(d), o); }
SPEC int spec_tagged_s(const char *tag, const char *d, uint8_t *o) { return spec_tagged(tag, (const uint8_t *)d, strlen(d), o); }
SPEC int impl_tagged_k(const char *tag, const uint8_t *d, size_t n, uint8_t *o) { TaggedHash h(tag); size_t w = h.write(d, n); return w == n ? h.end(o) : -1; }
// stream objects: pieces, single bytes, use after end() through begin()
#define CLS(C, N) \
    SPEC int impl_##N##_k(const uint8_t *d, size_t n, uint8_t x, const uint8_t *e, size_t m, uint8_t *o) { \
        C h; \
        if (h.write(d, n) != n) return -1; \
        if (h.write(x) != 1) return -1; \
        if (h.write(e, m) != m) return -1; \
        return h.end(o); } \
    SPEC int impl_##N##_r(const uint8_t *d, size_t n, const uint8_t *e, size_t m, uint8_t *o) { \
        C h; \
        h.write(d, n); h.end(o); \
        h.begin(); h.write(e, m); return h.end(o); } \
    SPEC int spec_##N##_r(const uint8_t *d, size_t n, const uint8_t *e, size_t m, uint8_t *o) { return spec_##N(e, m, o); }
CLS(SHA256, sha256) CLS(SHA512, sha512) CLS(RMD160, rmd160) CLS(Hash160, hash160) CLS(DoubleSha, doubleSha)
SPEC int spec_sha256_k(const uint8_t *d, size_t n, uint8_t x, const uint8_t *e, size_t m, uint8_t *o) { SHA256_CTX c; sha256_Init(&c); sha256_Update(&c, d, n); sha256_Update(&c, &x, 1); sha256_Update(&c, e, m); sha256_Final(&c, o); return 32; }
SPEC int spec_sha512_k(const uint8_t *d, size_t n, uint8_t x, const uint8_t *e, size_t m, uint8_t *o) { SHA512_CTX c; sha512_Init(&c); sha512_Update(&c, d, n); sha512_Update(&c, &x, 1); sha512_Update(&c, e, m); sha512_Final(&c, o); return 64; }
SPEC int spec_rmd160_k(const uint8_t *d, size_t n, uint8_t x, const uint8_t *e, size_t m, uint8_t *o) { RIPEMD160_CTX c; ripemd160_Init(&c); ripemd160_Update(&c, d, n); ripemd160_Update(&c, &x, 1); ripemd160_Update(&c, e, m); ripemd160_Final(&c, o); return 20; }
SPEC int spec_hash160_k(const uint8_t *d, size_t n, uint8_t x, const uint8_t *e, size_t m, uint8_t *o) { uint8_t t[32]; spec_sha256_k(d, n, x, e, m, t); ripemd160(t, 32, o); return 20; }
SPEC int spec_doubleSha_k(const uint8_t *d, size_t n, uint8_t x, const uint8_t *e, size_t m, uint8_t *o) { uint8_t t[32]; spec_sha256_k(d, n, x, e, m, t); sha256_Raw(t, 32, o); return 32; }
