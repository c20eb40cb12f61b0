// wire format of scripts, witnesses, inputs, outputs and transactions (protocol documentation, BIP-144)
#include "spec.h"
#include "Conversion.h"
#include <stdlib.h>
struct Out {             // flat record of everything observable about an object
    uint8_t *p;
    size_t n;
    Out(uint8_t *q) { p = q; n = 0; }
    void u8(uint8_t v) { p[n++] = v; }
    void num(uint64_t v, int k) { for (int i = 0; i < k; i++) p[n++] = (uint8_t)(v >> (8 * i)); }
    void raw(const uint8_t *q, size_t k) { for (size_t i = 0; i < k; i++) p[n++] = q[i]; }
};
enum { GOOD = 0, MORE = 1, BAD = 2 };
static int code(parse_status s) { return s == PARSING_DONE ? GOOD : s == PARSING_INCOMPLETE ? MORE : BAD; }
// ---- what the library's objects hold
static void put(Out &o, const Script &s) { o.num(s.scriptLen, 8); o.raw(s.scriptArray, s.scriptLen); o.num(s.length(), 8); }
static void put(Out &o, const Witness &w) { o.num(w.numElements, 4); o.num(w.witnessLen, 8); o.raw(w.witnessArray, w.witnessLen); o.num(w.length(), 8); }
static void put(Out &o, const TxIn &t) { o.raw(t.hash, 32); o.num(t.outputIndex, 4); put(o, t.scriptSig); o.num(t.sequence, 4); o.num(t.length(), 8); }
static void put(Out &o, const TxOut &t) { o.num(t.amount, 8); put(o, t.scriptPubkey); o.num(t.length(), 8); }
static void put(Out &o, const Tx &t) {
    o.num(t.version, 4);
    o.num(t.inputsNumber, 8);
    for (size_t i = 0; i < t.inputsNumber; i++) { put(o, t.txIns[i]); put(o, t.txIns[i].witness); }
    o.num(t.outputsNumber, 8);
    for (size_t i = 0; i < t.outputsNumber; i++) put(o, t.txOuts[i]);
    o.num(t.locktime, 4);
    o.u8(t.isSegwit());
    o.num(t.length(), 8);
}
template <class T> static size_t parsed(const uint8_t *b, size_t n, size_t k, uint8_t *out) {
    T t;
    size_t r = t.parse(b, k);
    if (k < n) r += t.parse(b + k, n - k);
    Out o(out);
    o.u8(code(t.getStatus()));
    if (t.getStatus() == PARSING_DONE) { o.num(r, 8); put(o, t); }
    return o.n;
}
template <class T> static size_t parsedHex(const char *b, size_t n, uint8_t *out) {
    T t;
    size_t r = t.parse(b, n, HEX_ENCODING);
    Out o(out);
    o.u8(code(t.getStatus()));
    if (t.getStatus() == PARSING_DONE) { o.num(r, 8); put(o, t); }
    return o.n;
}
SPEC size_t impl_script(const uint8_t *b, size_t n, size_t k, uint8_t *o) { return parsed<Script>(b, n, k, o); }
SPEC size_t impl_witness(const uint8_t *b, size_t n, size_t k, uint8_t *o) { return parsed<Witness>(b, n, k, o); }
SPEC size_t impl_txin(const uint8_t *b, size_t n, size_t k, uint8_t *o) { return parsed<TxIn>(b, n, k, o); }
SPEC size_t impl_txout(const uint8_t *b, size_t n, size_t k, uint8_t *o) { return parsed<TxOut>(b, n, k, o); }
SPEC size_t impl_tx(const uint8_t *b, size_t n, size_t k, uint8_t *o) { return parsed<Tx>(b, n, k, o); }
SPEC size_t impl_txout_hex(const char *b, size_t n, uint8_t *o) { return parsedHex<TxOut>(b, n, o); }
SPEC size_t impl_txin_hex(const char *b, size_t n, uint8_t *o) { return parsedHex<TxIn>(b, n, o); }
// ---- reference reader
struct Rd {
    const uint8_t *p;
    size_t n, k;
    int st;
    Rd(const uint8_t *q, size_t m) { p = q; n = m; k = 0; st = GOOD; }
    uint8_t u8() {
        if (st != GOOD) return 0;
        if (k >= n) { st = MORE; return 0; }
        return p[k++];
    }
    uint64_t num(int c) { uint64_t v = 0; for (int i = 0; i < c; i++) v |= (uint64_t)u8() << (8 * i); return v; }
    uint64_t compact() {
        uint8_t c = u8();
        if (st != GOOD || c < 0xfd) return c;
        uint64_t v = c == 0xfd ? num(2) : c == 0xfe ? num(4) : num(8);
        if (st == GOOD && v < (c == 0xfd ? 0xfd : c == 0xfe ? 0x10000 : 0x100000000ULL)) st = BAD;
        return v;
    }
    uint64_t count() { uint8_t c = u8(); if (st == GOOD && c > 0xfc) st = BAD; return c; }   // larger counts are not supported
};
static size_t csize(uint64_t n) { return n < 0xfd ? 1 : n <= 0xffff ? 3 : n <= 0xffffffffULL ? 5 : 9; }
static size_t rscript(Rd &r, Out &o) {
    uint64_t n = r.compact();
    if (r.st != GOOD) return 0;
    o.num(n, 8);
    for (uint64_t i = 0; i < n && r.st == GOOD; i++) o.u8(r.u8());
    o.num(csize(n) + n, 8);
    return csize(n) + n;
}
static size_t rwitness(Rd &r, Out &o, bool &any) {
    uint64_t m = r.count();
    if (r.st != GOOD) return 0;
    any = any || m > 0;
    size_t s = r.k;
    for (uint64_t i = 0; i < m && r.st == GOOD; i++) {
        uint64_t n = r.compact();
        for (uint64_t j = 0; j < n && r.st == GOOD; j++) r.u8();
    }
    if (r.st != GOOD) return 0;
    size_t len = r.k - s;
    o.num(m, 4);
    o.num(len, 8);
    o.raw(r.p + s, len);
    o.num(len + 1, 8);
    return len + 1;
}
static size_t rtxin(Rd &r, Out &o) {
    for (int i = 0; i < 36; i++) o.u8(r.u8());
    size_t l = rscript(r, o);
    for (int i = 0; i < 4; i++) o.u8(r.u8());
    o.num(40 + l, 8);
    return 40 + l;
}
static size_t rtxout(Rd &r, Out &o) {
    for (int i = 0; i < 8; i++) o.u8(r.u8());
    size_t l = rscript(r, o);
    o.num(8 + l, 8);
    return 8 + l;
}
static size_t fin(Rd &r, Out &o, uint8_t *out) {
    out[0] = r.st;
    if (r.st != GOOD) return 1;
    for (int i = 0; i < 8; i++) out[1 + i] = (uint8_t)(r.k >> (8 * i));
    return o.n;
}
SPEC size_t spec_script(const uint8_t *b, size_t n, size_t, uint8_t *out) { Rd r(b, n); Out o(out); o.n = 9; rscript(r, o); return fin(r, o, out); }
SPEC size_t spec_witness(const uint8_t *b, size_t n, size_t, uint8_t *out) { Rd r(b, n); Out o(out); o.n = 9; bool any = false; rwitness(r, o, any); return fin(r, o, out); }
SPEC size_t spec_txin(const uint8_t *b, size_t n, size_t, uint8_t *out) { Rd r(b, n); Out o(out); o.n = 9; rtxin(r, o); return fin(r, o, out); }
SPEC size_t spec_txout(const uint8_t *b, size_t n, size_t, uint8_t *out) { Rd r(b, n); Out o(out); o.n = 9; rtxout(r, o); return fin(r, o, out); }
SPEC size_t spec_tx(const uint8_t *b, size_t n, size_t, uint8_t *out) {
    Rd r(b, n);
    Out o(out);
    o.n = 9;
    for (int i = 0; i < 4; i++) o.u8(r.u8());
    bool sw = false;
    uint64_t m = r.count();
    if (r.st == GOOD && m == 0) {
        sw = true;
        uint8_t flag = r.u8();
        if (r.st == GOOD && flag != 1) r.st = BAD;
        m = r.count();
    }
    if (r.st != GOOD) return fin(r, o, out);
    // outputs and witnesses come later in the text but the record of an input includes its witness
    Rd w = r;
    bool any = false;
    uint8_t skip[4096];
    Out z(skip);
    size_t base = 0;
    for (uint64_t i = 0; i < m && w.st == GOOD; i++) { z.n = 0; base += rtxin(w, z); }
    uint64_t q = w.count();
    Rd outs = w;
    for (uint64_t i = 0; i < q && w.st == GOOD; i++) { z.n = 0; base += rtxout(w, z); }
    if (w.st != GOOD) return fin(w, o, out);
    o.num(m, 8);
    size_t wl = 0;
    for (uint64_t i = 0; i < m; i++) {
        rtxin(r, o);
        if (sw) wl += rwitness(w, o, any);
        else { o.num(0, 4); o.num(0, 8); o.num(1, 8); }
    }
    if (w.st != GOOD) return fin(w, o, out);
    o.num(q, 8);
    for (uint64_t i = 0; i < q; i++) rtxout(outs, o);
    for (int i = 0; i < 4; i++) o.u8(w.u8());
    o.u8(any);
    o.num(4 + 1 + 1 + 4 + base + (any ? 2 + wl : 0), 8);
    return fin(w, o, out);
}
// hexadecimal text: two digits a byte, ends at the first pair that is not hexadecimal
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static size_t unhex(const char *b, size_t n, uint8_t *o) {
    size_t k = 0;
    while (2 * k + 1 < n) {
        int x = hv(b[2 * k]), y = hv(b[2 * k + 1]);
        if (x < 0 || y < 0) break;
        o[k++] = x * 16 + y;
    }
    return k;
}
SPEC size_t spec_txout_hex(const char *b, size_t n, uint8_t *out) { uint8_t t[400]; size_t k = unhex(b, n, t); return spec_txout(t, k, k, out); }
SPEC size_t spec_txin_hex(const char *b, size_t n, uint8_t *out) { uint8_t t[400]; size_t k = unhex(b, n, t); return spec_txin(t, k, k, out); }
// ---- objects filled directly from a canonical wire text, for the serialisers
static void fill(Rd &r, Script &s) {
    size_t n = r.compact();
    s.scriptLen = n;
    s.scriptArray = n ? (uint8_t *)calloc(n, 1) : NULL;
    for (size_t i = 0; i < n; i++) s.scriptArray[i] = r.u8();
}
static void fill(Rd &r, Witness &w) {
    size_t m = r.count();
    w.numElements = m;
    size_t s = r.k;
    for (size_t i = 0; i < m; i++) { size_t n = r.compact(); r.k += n; }
    w.witnessLen = r.k - s;
    w.witnessArray = w.witnessLen ? (uint8_t *)calloc(w.witnessLen, 1) : NULL;
    for (size_t i = 0; i < w.witnessLen; i++) w.witnessArray[i] = r.p[s + i];
}
static void fill(Rd &r, TxIn &t) {
    for (int i = 0; i < 32; i++) t.hash[i] = r.u8();
    t.outputIndex = r.num(4);
    fill(r, t.scriptSig);
    t.sequence = r.num(4);
}
static void fill(Rd &r, TxOut &t) { t.amount = r.num(8); fill(r, t.scriptPubkey); }
static void fill(Rd &r, Tx &t) {
    t.version = r.num(4);
    size_t m = r.compact();
    bool sw = m == 0;
    if (sw) { r.u8(); m = r.compact(); }
    t.inputsNumber = m;
    if (m) t.txIns = new TxIn[m];
    for (size_t i = 0; i < m; i++) fill(r, t.txIns[i]);
    t.outputsNumber = r.compact();
    if (t.outputsNumber) t.txOuts = new TxOut[t.outputsNumber];
    for (size_t i = 0; i < t.outputsNumber; i++) fill(r, t.txOuts[i]);
    if (sw) for (size_t i = 0; i < m; i++) fill(r, t.txIns[i].witness);
    t.locktime = r.num(4);
}
template <class T> static size_t ser(const uint8_t *b, size_t n, uint8_t *o, size_t len, size_t off) { T t; Rd r(b, n); fill(r, t); return t.serialize(o, len, off); }
template <class T> static size_t serHex(const uint8_t *b, size_t n, char *o, size_t len, size_t off) { T t; Rd r(b, n); fill(r, t); return t.serialize(o, len, off, HEX_ENCODING); }
SPEC size_t impl_ser_script(const uint8_t *b, size_t n, uint8_t *o, size_t len, size_t off) { return ser<Script>(b, n, o, len, off); }
SPEC size_t impl_ser_witness(const uint8_t *b, size_t n, uint8_t *o, size_t len, size_t off) { return ser<Witness>(b, n, o, len, off); }
SPEC size_t impl_ser_txin(const uint8_t *b, size_t n, uint8_t *o, size_t len, size_t off) { return ser<TxIn>(b, n, o, len, off); }
SPEC size_t impl_ser_txout(const uint8_t *b, size_t n, uint8_t *o, size_t len, size_t off) { return ser<TxOut>(b, n, o, len, off); }
SPEC size_t impl_ser_tx(const uint8_t *b, size_t n, uint8_t *o, size_t len, size_t off) { return ser<Tx>(b, n, o, len, off); }
SPEC size_t impl_hex_txin(const uint8_t *b, size_t n, char *o, size_t len, size_t off) { return serHex<TxIn>(b, n, o, len, off); }
SPEC size_t impl_hex_txout(const uint8_t *b, size_t n, char *o, size_t len, size_t off) { return serHex<TxOut>(b, n, o, len, off); }
SPEC size_t spec_ser(const uint8_t *b, size_t n, uint8_t *o, size_t len, size_t off) {
    size_t k = 0;
    while (k < len && off + k < n) { o[k] = b[off + k]; k++; }
    for (size_t i = k; i < len; i++) o[i] = 0;
    return k;
}
SPEC size_t spec_hex(const uint8_t *b, size_t n, char *o, size_t len, size_t off) {
    size_t k = 0;
    while (2 * k + 1 < len && off + k < n) {
        uint8_t h = b[off + k] >> 4, l = b[off + k] & 15;
        o[2 * k] = h < 10 ? '0' + h : 'a' + h - 10;
        o[2 * k + 1] = l < 10 ? '0' + l : 'a' + l - 10;
        k++;
    }
    for (size_t i = 2 * k; i < len; i++) o[i] = 0;
    return k;
}
// ---- copies are independent of their source
static void spoil(Script &s) { for (size_t i = 0; i < s.scriptLen; i++) s.scriptArray[i] = 0xee; s.scriptLen = 0; }
static void spoil(Witness &w) { for (size_t i = 0; i < w.witnessLen; i++) w.witnessArray[i] = 0xee; w.witnessLen = 0; w.numElements = 0; }
static void spoil(TxIn &t) { for (int i = 0; i < 32; i++) t.hash[i] = 0xee; spoil(t.scriptSig); spoil(t.witness); t.sequence = 0xee; t.outputIndex = 0xee; }
static void spoil(TxOut &t) { t.amount = 0xee; spoil(t.scriptPubkey); }
static void spoil(Tx &t) { for (size_t i = 0; i < t.inputsNumber; i++) spoil(t.txIns[i]); for (size_t i = 0; i < t.outputsNumber; i++) spoil(t.txOuts[i]); t.version = 0xee; t.locktime = 0xee; }
template <class T> static size_t copied(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *out) {
    T t;
    Rd r(b, n);
    fill(r, t);
    Out o(out);
    if (n2 == 0) { T c(t); spoil(t); put(o, c); }
    else { T c; Rd r2(b2, n2); fill(r2, c); c = t; c = *&c; spoil(t); put(o, c); }
    return o.n;
}
template <class T> static size_t plain(const uint8_t *b, size_t n, uint8_t *out) { T t; Rd r(b, n); fill(r, t); Out o(out); put(o, t); return o.n; }
SPEC size_t impl_copy_script(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *o) { return copied<Script>(b, n, b2, n2, o); }
SPEC size_t impl_copy_witness(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *o) { return copied<Witness>(b, n, b2, n2, o); }
SPEC size_t impl_copy_txin(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *o) { return copied<TxIn>(b, n, b2, n2, o); }
SPEC size_t impl_copy_txout(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *o) { return copied<TxOut>(b, n, b2, n2, o); }
SPEC size_t impl_copy_tx(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *o) { return copied<Tx>(b, n, b2, n2, o); }
SPEC size_t spec_copy_script(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *o) { return plain<Script>(b, n, o); }
SPEC size_t spec_copy_witness(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *o) { return plain<Witness>(b, n, o); }
SPEC size_t spec_copy_txin(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *o) { return plain<TxIn>(b, n, o); }
SPEC size_t spec_copy_txout(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *o) { return plain<TxOut>(b, n, o); }
SPEC size_t spec_copy_tx(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *o) { return plain<Tx>(b, n, o); }
// ---- an object is reused for another text
template <class T> static size_t again(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *out) {
    T t;
    t.parse(b2, n2);
    size_t r = t.parse(b, n);
    Out o(out);
    o.u8(code(t.getStatus()));
    if (t.getStatus() == PARSING_DONE) { o.num(r, 8); put(o, t); }
    return o.n;
}
SPEC size_t impl_again_script(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *o) { return again<Script>(b, n, b2, n2, o); }
SPEC size_t impl_again_witness(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *o) { return again<Witness>(b, n, b2, n2, o); }
SPEC size_t impl_again_txin(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *o) { return again<TxIn>(b, n, b2, n2, o); }
SPEC size_t impl_again_txout(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *o) { return again<TxOut>(b, n, b2, n2, o); }
SPEC size_t impl_again_tx(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *o) { return again<Tx>(b, n, b2, n2, o); }
SPEC size_t spec_again_script(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *o) { return spec_script(b, n, n, o); }
SPEC size_t spec_again_witness(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *o) { return spec_witness(b, n, n, o); }
SPEC size_t spec_again_txin(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *o) { return spec_txin(b, n, n, o); }
SPEC size_t spec_again_txout(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *o) { return spec_txout(b, n, n, o); }
SPEC size_t spec_again_tx(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *o) { return spec_tx(b, n, n, o); }
// ---- building a transaction
SPEC size_t impl_add(const uint8_t *b, size_t n, const uint8_t *bi, size_t ni, const uint8_t *bo, size_t no, uint8_t *out) {
    Tx t;
    Rd r(b, n);
    if (n) fill(r, t);
    TxIn in;
    Rd ri(bi, ni);
    fill(ri, in);
    TxOut ou;
    Rd ro(bo, no);
    fill(ro, ou);
    Out o(out);
    o.num(t.addInput(in), 8);
    o.num(t.addOutput(ou), 8);
    o.num(t.addOutput(ou), 8);
    spoil(in);
    spoil(ou);
    put(o, t);
    return o.n;
}
SPEC size_t spec_add(const uint8_t *b, size_t n, const uint8_t *bi, size_t ni, const uint8_t *bo, size_t no, uint8_t *out) {
    Tx t;
    Rd r(b, n);
    if (n) fill(r, t);
    Tx u;
    u.version = t.version;
    u.locktime = t.locktime;
    u.inputsNumber = t.inputsNumber + 1;
    u.outputsNumber = t.outputsNumber + 2;
    u.txIns = new TxIn[u.inputsNumber];
    u.txOuts = new TxOut[u.outputsNumber];
    Rd q(b, n);
    if (n) {
        q.num(4);
        size_t m = q.compact();
        bool sw = m == 0;
        if (sw) { q.u8(); m = q.compact(); }
        for (size_t i = 0; i < m; i++) fill(q, u.txIns[i]);
        size_t k = q.compact();
        for (size_t i = 0; i < k; i++) fill(q, u.txOuts[i]);
        if (sw) for (size_t i = 0; i < m; i++) fill(q, u.txIns[i].witness);
    }
    Rd ri(bi, ni);
    fill(ri, u.txIns[t.inputsNumber]);
    Rd ro(bo, no), rp(bo, no);
    fill(ro, u.txOuts[t.outputsNumber]);
    fill(rp, u.txOuts[t.outputsNumber + 1]);
    Out o(out);
    o.num(u.inputsNumber, 8);
    o.num(t.outputsNumber + 1, 8);
    o.num(t.outputsNumber + 2, 8);
    put(o, u);
    return o.n;
}
static void one(Script &s, const uint8_t *b, size_t n) { s.scriptLen = n; s.scriptArray = n ? (uint8_t *)calloc(n, 1) : NULL; for (size_t i = 0; i < n; i++) s.scriptArray[i] = b[i]; }
SPEC size_t impl_mkin(const uint8_t *id, uint32_t idx, uint32_t seq, const uint8_t *b, size_t n, uint8_t *out) {
    Script s;
    one(s, b, n);
    TxIn a(id, idx, seq), d(id, idx, s, seq), e(id, idx);
    spoil(s);
    Out o(out);
    put(o, a); put(o, d); put(o, e); put(o, a.witness); put(o, d.witness);
    o.u8(a.isValid()); o.u8(d.isValid());
    return o.n;
}
SPEC size_t spec_mkin(const uint8_t *id, uint32_t idx, uint32_t seq, const uint8_t *b, size_t n, uint8_t *out) {
    Out o(out);
    for (int j = 0; j < 3; j++) {
        size_t m = j == 1 ? n : 0;
        for (int i = 0; i < 32; i++) o.u8(id[31 - i]);
        o.num(idx, 4);
        o.num(m, 8);
        o.raw(b, m);
        o.num(csize(m) + m, 8);
        o.num(j == 2 ? 0xffffffff : seq, 4);
        o.num(40 + csize(m) + m, 8);
    }
    for (int j = 0; j < 2; j++) { o.num(0, 4); o.num(0, 8); o.num(1, 8); }
    o.u8(1); o.u8(1);
    return o.n;
}
SPEC size_t impl_mkin_hex(const char *id, uint32_t idx, uint32_t seq, const uint8_t *b, size_t n, uint8_t *out) {
    Script s;
    one(s, b, n);
    TxIn a(id, idx, seq), d(id, idx, s, seq);
    Out o(out);
    put(o, a); put(o, d);
    return o.n;
}
SPEC size_t spec_mkin_hex(const char *id, uint32_t idx, uint32_t seq, const uint8_t *b, size_t n, uint8_t *out) {
    Out o(out);
    for (int j = 0; j < 2; j++) {
        size_t m = j ? n : 0;
        for (int i = 0; i < 32; i++) o.u8(hv(id[62 - 2 * i]) * 16 + hv(id[63 - 2 * i]));
        o.num(idx, 4);
        o.num(m, 8);
        o.raw(b, m);
        o.num(csize(m) + m, 8);
        o.num(seq, 4);
        o.num(40 + csize(m) + m, 8);
    }
    return o.n;
}
SPEC size_t impl_mkout(uint64_t v, const uint8_t *b, size_t n, uint8_t *out) {
    Script s;
    one(s, b, n);
    TxOut a(v, s), d(s, v), e;
    spoil(s);
    Out o(out);
    put(o, a); put(o, d); put(o, e);
    return o.n;
}
SPEC size_t spec_mkout(uint64_t v, const uint8_t *b, size_t n, uint8_t *out) {
    Out o(out);
    for (int j = 0; j < 3; j++) {
        size_t m = j < 2 ? n : 0;
        o.num(j < 2 ? v : 0, 8);
        o.num(m, 8);
        o.raw(b, m);
        o.num(csize(m) + m, 8);
        o.num(8 + csize(m) + m, 8);
    }
    return o.n;
}
