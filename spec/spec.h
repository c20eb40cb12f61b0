// Reference semantics written from the BIPs / consensus documents, against the public data
// structures only.  Compiled to IR next to the library and summarised by the same analysis.
#pragma once
#include <stdint.h>
#include <string.h>
#include "Bitcoin.h"
#include "Hash.h"
#include "utility/trezor/sha2.h"
#include "utility/trezor/ripemd160.h"
#include "utility/trezor/bignum.h"
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/secp256k1.h"

#define SPEC extern "C" __attribute__((used))

struct Sink {            // byte sink = sha256 context
    SHA256_CTX c;
    Sink() { sha256_Init(&c); }
    void raw(const uint8_t *p, size_t n) { sha256_Update(&c, p, n); }
    void u8(uint8_t v) { sha256_Update(&c, &v, 1); }
    void le16(uint16_t v) { uint8_t b[2] = {(uint8_t)v, (uint8_t)(v >> 8)}; raw(b, 2); }
    void le32(uint32_t v) { uint8_t b[4] = {(uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v >> 16), (uint8_t)(v >> 24)}; raw(b, 4); }
    void le64(uint64_t v) { le32((uint32_t)v); le32((uint32_t)(v >> 32)); }
    void compact(uint64_t n) {   // Bitcoin CompactSize
        if (n < 0xfd) u8((uint8_t)n);
        else if (n <= 0xffff) { u8(0xfd); le16((uint16_t)n); }
        else if (n <= 0xffffffffULL) { u8(0xfe); le32((uint32_t)n); }
        else { u8(0xff); le64(n); }
    }
    void script(const Script &s) { compact(s.scriptLen); raw(s.scriptArray, s.scriptLen); }
    void once(uint8_t *out) { sha256_Final(&c, out); }
    void twice(uint8_t *out) { uint8_t t[32]; sha256_Final(&c, t); sha256_Raw(t, 32, out); }
};
