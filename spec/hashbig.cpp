// messages longer than what a harness can spell out: the length counters start at an arbitrary number of whole blocks
#include "hash.cpp"
SPEC void impl_big256(uint64_t blocks, const uint8_t *d, size_t a, size_t b, uint8_t *out) {
    SHA256_CTX x; sha256_Init(&x); x.bitcount = blocks;
    sha256_Update(&x, d, a); sha256_Update(&x, d + a, b); sha256_Final(&x, out);
}
SPEC void spec_big256(uint64_t blocks, const uint8_t *d, size_t a, size_t b, uint8_t *out) { ref256(IV256, blocks >> 3, d, a + b, out); }
SPEC void impl_big512(uint64_t lo, uint64_t hi, const uint8_t *d, size_t a, size_t b, uint8_t *out) {
    SHA512_CTX x; sha512_Init(&x); x.bitcount[0] = lo; x.bitcount[1] = hi;
    sha512_Update(&x, d, a); sha512_Update(&x, d + a, b); sha512_Final(&x, out);
}
SPEC void spec_big512(uint64_t lo, uint64_t hi, const uint8_t *d, size_t a, size_t b, uint8_t *out) { ref512(IV512, lo, hi, d, a + b, out); }
SPEC void impl_big160(uint32_t lo, uint32_t hi, const uint8_t *d, size_t a, size_t b, uint8_t *out) {
    RIPEMD160_CTX x; ripemd160_Init(&x); x.total[0] = lo; x.total[1] = hi;
    ripemd160_Update(&x, d, a); ripemd160_Update(&x, d + a, b); ripemd160_Final(&x, out);
}
SPEC void spec_big160(uint32_t lo, uint32_t hi, const uint8_t *d, size_t a, size_t b, uint8_t *out) { ref160(lo, hi, d, a + b, out); }
