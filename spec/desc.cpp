#include "spec.h"
#include "PSBT.h"
uint64_t PolyMod(uint64_t c, int val);
size_t descriptorChecksum(const char * span, size_t spanLen, char * output, size_t outputSize);
// BIP380
static const char IN[] = "0123456789()[],'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#\"\\ ";
static const char OUT[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";

SPEC uint64_t spec_desc_step(uint64_t c, int v) {
    static const uint64_t gen[5] = {0xf5dee51989ull, 0xa9fdca3312ull, 0x1bab10e32dull, 0x3706b1677aull, 0x644d626ffdull};
    uint64_t top = c >> 35;
    uint64_t r = ((c & 0x7ffffffffull) << 5) ^ v;
    for (int i = 0; i < 5; i++)
        if ((top >> i) & 1) r ^= gen[i];
    return r;
}

SPEC size_t spec_desc(const char *s, size_t n, char *o, size_t cap) {
    for (size_t i = 0; i < cap; i++) o[i] = 0;
    if (cap < 8) return 0;
    uint64_t c = 1;
    int cls = 0;
    for (size_t i = 0; i < n; i++) {
        const char *p = s[i] ? strchr(IN, s[i]) : NULL;
        if (p == NULL) return 0;
        unsigned pos = p - IN;
        c = PolyMod(c, pos % 32);
        cls = 3 * cls + pos / 32;
        if (i % 3 == 2) {
            c = PolyMod(c, cls);
            cls = 0;
        }
    }
    if (n % 3) c = PolyMod(c, cls);
    for (int i = 0; i < 8; i++) c = PolyMod(c, 0);
    c ^= 1;
    for (int i = 7; i >= 0; i--) {
        o[i] = OUT[c & 31];
        c >>= 5;
    }
    return 8;
}
