// BIP-174 (partially signed transactions), the part of it the library keeps; signing, fee, ownership; descriptor checksum
#include "sign.cpp"
#include "PSBT.h"
// ---- everything a parsed PSBT holds
static void put(Out &o, const PublicKey &p) { o.raw(p.point, 64); o.u8(p.compressed); }
static void put(Out &o, const PSBTDerivation *d, size_t n) {
    o.num(n, 2);
    for (size_t i = 0; i < n; i++) {
        put(o, d[i].pubkey);
        o.raw(d[i].fingerprint, 4);
        o.num(d[i].derivationLen, 2);
        for (size_t j = 0; j < d[i].derivationLen; j++) o.num(d[i].derivation[j], 4);
    }
}
static void put(Out &o, const PSBT &p) {
    put(o, p.tx);
    for (size_t i = 0; i < p.tx.inputsNumber; i++) {
        const PSBTInputMetadata &m = p.txInsMeta[i];
        put(o, m.txOut);
        put(o, m.derivations, m.derivationsLen);
        put(o, m.redeemScript);
        put(o, m.witnessScript);
        o.num(m.signaturesLen, 2);
        for (size_t j = 0; j < m.signaturesLen; j++) { put(o, m.signatures[j].pubkey); o.raw(m.signatures[j].signature.r, 32); o.raw(m.signatures[j].signature.s, 32); }
    }
    for (size_t i = 0; i < p.tx.outputsNumber; i++) {
        const PSBTOutputMetadata &m = p.txOutsMeta[i];
        put(o, m.derivations, m.derivationsLen);
        put(o, m.redeemScript);
        put(o, m.witnessScript);
    }
}
SPEC size_t impl_psbt(const uint8_t *b, size_t n, size_t k, uint8_t *o) { return parsed<PSBT>(b, n, k, o); }
// ---- reference reader
struct Bytes { const uint8_t *p; size_t n; };
static Bytes var(Rd &r) {
    Bytes b;
    b.n = r.compact();
    b.p = r.p + r.k;
    if (r.st == GOOD && b.n > r.n - r.k) r.st = MORE;
    if (r.st == GOOD) r.k += b.n;
    return b;
}
static bool rpubkey(const Bytes &k, PublicKey &p) {       // key type followed by a SEC point
    if (k.n != 34 && k.n != 66) return false;
    uint8_t c = k.p[1], arr[65];
    if (k.n == 34 ? (c != 2 && c != 3) : (c < 2 || c > 4)) return false;
    p.compressed = c != 4;
    if (c == 4) memcpy(arr, k.p + 1, 65);
    else if (!ecdsa_uncompress_pubkey(&secp256k1, k.p + 1, arr)) return false;
    memcpy(p.point, arr + 1, 64);
    curve_point q;
    return ecdsa_read_pubkey(&secp256k1, k.p + 1, &q) != 0;
}
static bool rint(Rd &r, uint8_t *v) {
    for (int i = 0; i < 32; i++) v[i] = 0;
    if (r.u8() != 2) return false;
    size_t l = r.u8();
    if (r.st != GOOD || l == 0 || l > 33 || r.k + l > r.n) return false;
    const uint8_t *q = r.p + r.k;
    if (q[0] & 0x80) return false;
    if (l > 1 && q[0] == 0 && !(q[1] & 0x80)) return false;
    if (l == 33) { if (q[0]) return false; q++; }
    for (size_t i = 0, m = l > 32 ? 32 : l; i < m; i++) v[32 - m + i] = q[i];
    r.k += l;
    return true;
}
static bool rsig(const Bytes &v, Signature &g) {          // DER, followed by the sighash type
    Rd r(v.p, v.n);
    if (r.u8() != 0x30) return false;
    size_t t = r.u8();
    if (r.st != GOOD || t > 70) return false;
    return rint(r, g.r) && rint(r, g.s) && r.k == t + 2;
}
static bool rderiv(const Bytes &k, const Bytes &v, PSBTDerivation *&d, uint8_t &n) {
    PSBTDerivation e;
    if (v.n < 4 || v.n % 4 || v.n > 4 + 4 * 255 || n == 255) return false;
    if (!rpubkey(k, e.pubkey)) return false;
    PSBTDerivation *q = new PSBTDerivation[n + 1];
    for (size_t i = 0; i < n; i++) q[i] = d[i];
    d = q;
    q = &d[n++];
    q->pubkey = e.pubkey;
    memcpy(q->fingerprint, v.p, 4);
    q->derivationLen = v.n / 4 - 1;
    q->derivation = (uint32_t *)calloc(v.n, 4);
    for (size_t i = 0; i < q->derivationLen; i++) q->derivation[i] = v.p[4 + 4 * i] | (uint32_t)v.p[5 + 4 * i] << 8 | (uint32_t)v.p[6 + 4 * i] << 16 | (uint32_t)v.p[7 + 4 * i] << 24;
    return true;
}
static bool same32(const uint8_t *a, const uint8_t *b) { return memcmp(a, b, 32) == 0; }
static bool rin(PSBT &p, size_t i, const Bytes &k, const Bytes &v) {
    PSBTInputMetadata &m = p.txInsMeta[i];
    uint8_t t = k.p[0];
    if ((t == 0 || t == 1 || t == 4 || t == 5) && k.n != 1) return false;
    if (t == 0) {
        uint8_t rec[8192], h[32];
        if (spec_tx(v.p, v.n, v.n, rec) == 1) return false;
        Tx *u = new Tx;
        Rd r(v.p, v.n);
        fill(r, *u);
        spec_hash(u, h);
        if (!same32(h, p.tx.txIns[i].hash)) return false;
        uint32_t x = p.tx.txIns[i].outputIndex;
        if (x >= u->outputsNumber) return false;
        m.txOut.amount = u->txOuts[x].amount;
        m.txOut.scriptPubkey.clear();
        one(m.txOut.scriptPubkey, u->txOuts[x].scriptPubkey.scriptArray, u->txOuts[x].scriptPubkey.scriptLen);
    } else if (t == 1) {
        uint8_t rec[1024];
        if (spec_txout(v.p, v.n, v.n, rec) == 1) return false;
        Rd r(v.p, v.n);
        fill(r, m.txOut);
    } else if (t == 2) {
        PublicKey q;
        Signature g;
        if (!rpubkey(k, q) || m.signaturesLen == 255 || !rsig(v, g)) return false;
        PSBTPartialSignature *s = new PSBTPartialSignature[m.signaturesLen + 1];
        for (size_t j = 0; j < m.signaturesLen; j++) s[j] = m.signatures[j];
        m.signatures = s;
        s[m.signaturesLen].pubkey = q;
        s[m.signaturesLen].signature = g;
        m.signaturesLen++;
    } else if (t == 4) one(m.redeemScript, v.p, v.n);
    else if (t == 5) one(m.witnessScript, v.p, v.n);
    else if (t == 6) return rderiv(k, v, m.derivations, m.derivationsLen);
    return true;
}
static bool rout(PSBT &p, size_t i, const Bytes &k, const Bytes &v) {
    PSBTOutputMetadata &m = p.txOutsMeta[i];
    uint8_t t = k.p[0];
    if (t < 2 && k.n != 1) return false;
    if (t == 0) one(m.redeemScript, v.p, v.n);
    else if (t == 1) one(m.witnessScript, v.p, v.n);
    else if (t == 2) return rderiv(k, v, m.derivations, m.derivationsLen);
    return true;
}
static void meta(PSBT &p) {
    p.txInsMeta = new PSBTInputMetadata[p.tx.inputsNumber];
    for (size_t i = 0; i < p.tx.inputsNumber; i++) { p.txInsMeta[i].derivationsLen = 0; p.txInsMeta[i].signaturesLen = 0; }
    p.txOutsMeta = new PSBTOutputMetadata[p.tx.outputsNumber];
    for (size_t i = 0; i < p.tx.outputsNumber; i++) p.txOutsMeta[i].derivationsLen = 0;
}
static void rpsbt(Rd &r, PSBT &p) {
    const uint8_t magic[5] = {'p', 's', 'b', 't', 0xff};
    for (int i = 0; i < 5; i++) { uint8_t c = r.u8(); if (r.st != GOOD) return; if (c != magic[i]) { r.st = BAD; return; } }
    Bytes k = var(r);
    if (r.st != GOOD) return;
    Bytes v = var(r);
    if (r.st != GOOD) return;
    uint8_t rec[8192];
    if (k.n != 1 || k.p[0] != 0 || spec_tx(v.p, v.n, v.n, rec) == 1) { r.st = BAD; return; }
    Rd q(v.p, v.n);
    fill(q, p.tx);
    meta(p);
    size_t ni = p.tx.inputsNumber, no = p.tx.outputsNumber;
    for (size_t s = 0; s < 1 + ni + no;) {
        k = var(r);
        if (r.st != GOOD) return;
        if (k.n == 0) { s++; continue; }
        v = var(r);
        if (r.st != GOOD) return;
        bool ok = s == 0 ? true : s <= ni ? rin(p, s - 1, k, v) : rout(p, s - 1 - ni, k, v);
        if (!ok) { r.st = BAD; return; }
    }
}
SPEC size_t spec_psbt(const uint8_t *b, size_t n, size_t, uint8_t *out) {
    PSBT *p = new PSBT;
    Rd r(b, n);
    rpsbt(r, *p);
    Out o(out);
    o.u8(r.st);
    if (r.st == GOOD) { o.num(r.k, 8); put(o, *p); }
    return o.n;
}
SPEC void spec_txhash(const uint8_t *b, size_t n, uint8_t *h) { Tx *t = new Tx; Rd r(b, n); fill(r, *t); spec_hash(t, h); }
// ---- reuse, copies
static PSBT *make(const uint8_t *b, size_t n) { PSBT *p = new PSBT; Rd r(b, n); rpsbt(r, *p); return p; }
SPEC size_t impl_again_psbt(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *o) { return again<PSBT>(b, n, b2, n2, o); }
SPEC size_t spec_again_psbt(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *o) { return spec_psbt(b, n, n, o); }
static void spoil(PSBTDerivation *d, size_t n) { for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < d[i].derivationLen; j++) d[i].derivation[j] = 0xeeee; for (int j = 0; j < 64; j++) d[i].pubkey.point[j] = 0xee; for (int j = 0; j < 4; j++) d[i].fingerprint[j] = 0xee; } }
static void spoil(PSBT &p) {
    for (size_t i = 0; i < p.tx.inputsNumber; i++) {
        PSBTInputMetadata &m = p.txInsMeta[i];
        spoil(m.txOut); spoil(m.redeemScript); spoil(m.witnessScript); spoil(m.derivations, m.derivationsLen);
        for (size_t j = 0; j < m.signaturesLen; j++) for (int l = 0; l < 32; l++) m.signatures[j].signature.r[l] = m.signatures[j].signature.s[l] = m.signatures[j].pubkey.point[l] = 0xee;
        m.derivationsLen = 0; m.signaturesLen = 0;
    }
    for (size_t i = 0; i < p.tx.outputsNumber; i++) { spoil(p.txOutsMeta[i].redeemScript); spoil(p.txOutsMeta[i].witnessScript); spoil(p.txOutsMeta[i].derivations, p.txOutsMeta[i].derivationsLen); p.txOutsMeta[i].derivationsLen = 0; }
    spoil(p.tx);
}
SPEC size_t impl_copy_psbt(const uint8_t *b, size_t n, const uint8_t *b2, size_t n2, uint8_t *out) {
    PSBT *t = make(b, n);
    Out o(out);
    if (n2 == 0) { PSBT c(*t); spoil(*t); put(o, c); o.u8(c.isValid()); }
    else { PSBT &c = *make(b2, n2); c = *t; c = *&c; spoil(*t); put(o, c); o.u8(c.isValid()); }
    return o.n;
}
SPEC size_t spec_copy_psbt(const uint8_t *b, size_t n, const uint8_t *, size_t, uint8_t *out) { Out o(out); put(o, *make(b, n)); o.u8(1); return o.n; }
// ---- writing: magic, transaction, one section per input with its signatures, one empty section per output
SPEC size_t impl_ser_psbt(const uint8_t *b, size_t n, uint8_t *o, size_t len, size_t off) { return make(b, n)->serialize(o, len, off); }
SPEC size_t impl_len_psbt(const uint8_t *b, size_t n) { return make(b, n)->length(); }
static size_t wpsbt(const uint8_t *b, size_t n, uint8_t *w) {
    PSBT *p = make(b, n);
    Out o(w);
    const uint8_t head[7] = {'p', 's', 'b', 't', 0xff, 1, 0};
    o.raw(head, 7);
    Rd r(b, n);
    r.k = 7;
    Bytes v = var(r);
    o.raw(v.p - csize(v.n), csize(v.n) + v.n);       // the transaction as it was given
    o.u8(0);
    for (size_t i = 0; i < p->tx.inputsNumber; i++) {
        for (size_t j = 0; j < p->txInsMeta[i].signaturesLen; j++) {
            PSBTPartialSignature &s = p->txInsMeta[i].signatures[j];
            uint8_t d[80], rs[64];
            memcpy(rs, s.signature.r, 32);
            memcpy(rs + 32, s.signature.s, 32);
            size_t k = sec_(&s.pubkey, d);
            o.u8(k + 1); o.u8(2); o.raw(d, k);
            k = dersig(rs, d);
            o.u8(k); o.raw(d, k);
        }
        o.u8(0);
    }
    for (size_t i = 0; i < p->tx.outputsNumber; i++) o.u8(0);
    return o.n;
}
SPEC size_t spec_ser_psbt(const uint8_t *b, size_t n, uint8_t *o, size_t len, size_t off) { uint8_t w[4096]; size_t k = wpsbt(b, n, w); return spec_ser(w, k, o, len, off); }
SPEC size_t spec_len_psbt(const uint8_t *b, size_t n) { uint8_t w[4096]; return wpsbt(b, n, w); }
// ---- signing
static void fpr(const PublicKey &p, uint8_t *fp) { uint8_t s[65], h[20]; h160(s, sec_(&p, s), h); memcpy(fp, h, 4); }
static void walk(HDPrivateKey &k, const PSBTDerivation &d) { for (size_t i = 0; i < d.derivationLen; i++) k = k.child(d.derivation[i], false); }
static void walk(HDPublicKey &k, const PSBTDerivation &d) { for (size_t i = 0; i < d.derivationLen; i++) { if (d.derivation[i] >= 0x80000000u) { k = HDPublicKey(); return; } k = k.child(d.derivation[i]); } }
// 1: key of root; 2..5: one byte of the fingerprint differs; 6, 7: one byte of the key differs; 0: as parsed
static void prepare(PSBTDerivation &d, const uint8_t *fp, const uint8_t *pt, uint8_t how) {
    if (how == 0) return;
    memcpy(d.fingerprint, fp, 4);
    memcpy(d.pubkey.point, pt, 64);
    d.pubkey.compressed = true;
    if (how >= 2 && how <= 5) d.fingerprint[how - 2] ^= 0x10;
    if (how == 6) d.pubkey.point[0] ^= 0x80;
    if (how == 7) d.pubkey.point[63] ^= 1;
}
static PSBT *ready(const uint8_t *b, size_t n, const HDPrivateKey *root, const uint8_t *how) {
    PSBT *p = make(b, n);
    uint8_t fp[4];
    fpr(root->pubKey, fp);
    for (size_t i = 0; i < p->tx.inputsNumber; i++)
        for (size_t j = 0; j < p->txInsMeta[i].derivationsLen; j++) {
            PSBTDerivation &d = p->txInsMeta[i].derivations[j];
            if (*how) { HDPrivateKey k(*root); walk(k, d); prepare(d, fp, k.pubKey.point, *how); }
            how++;
        }
    return p;
}
SPEC size_t impl_psign(const uint8_t *b, size_t n, const HDPrivateKey *root, const uint8_t *how, uint8_t *out) {
    PSBT *p = ready(b, n, root, how);
    Out o(out);
    o.u8(p->sign(*root));
    put(o, *p);
    return o.n;
}
SPEC size_t spec_psign(const uint8_t *b, size_t n, const HDPrivateKey *root, const uint8_t *how, uint8_t *out) {
    PSBT *p = ready(b, n, root, how);
    uint8_t fp[4], count = 0;
    fpr(root->pubKey, fp);
    for (size_t i = 0; i < p->tx.inputsNumber; i++) {
        PSBTInputMetadata &m = p->txInsMeta[i];
        for (size_t j = 0; j < m.derivationsLen; j++) {
            PSBTDerivation &d = m.derivations[j];
            if (memcmp(fp, d.fingerprint, 4) != 0) continue;
            HDPrivateKey k(*root);
            walk(k, d);
            if (memcmp(k.pubKey.point, d.pubkey.point, 64) != 0) continue;
            const Script &w = m.witnessScript, &r = m.redeemScript, &s = m.txOut.scriptPubkey;
            uint8_t h[32], g[64], x, pkh[25] = {0x76, 0xa9, 20}, sec[65];
            h160(sec, sec_(&k.pubKey, sec), pkh + 3);
            pkh[23] = 0x88; pkh[24] = 0xac;
            Script *code = new Script;
            one(*code, pkh, 25);
            if (w.scriptLen > 0) spec_sigHashSegwit(&p->tx, h, i, &w, m.txOut.amount, 1);
            else if (is_wpkh(r.scriptArray, r.scriptLen)) spec_sigHashSegwit(&p->tx, h, i, code, m.txOut.amount, 1);
            else if (r.scriptLen > 0) spec_sigHash(&p->tx, h, i, &r, 1);
            else if (is_wpkh(s.scriptArray, s.scriptLen)) spec_sigHashSegwit(&p->tx, h, i, code, m.txOut.amount, 1);
            else spec_sigHash(&p->tx, h, i, &s, 1);
            ecdsa_sign_digest(&secp256k1, k.num, h, g, &x, canon_);
            PSBTPartialSignature *q = new PSBTPartialSignature[m.signaturesLen + 1];
            for (size_t l = 0; l < m.signaturesLen; l++) q[l] = m.signatures[l];
            m.signatures = q;
            memcpy(q[m.signaturesLen].pubkey.point, k.pubKey.point, 64);
            q[m.signaturesLen].pubkey.compressed = true;
            memcpy(q[m.signaturesLen].signature.r, g, 32);
            memcpy(q[m.signaturesLen].signature.s, g + 32, 32);
            m.signaturesLen++;
            count++;
        }
    }
    Out o(out);
    o.u8(count);
    put(o, *p);
    return o.n;
}
// ---- fee, ownership of outputs
SPEC uint64_t impl_fee(const uint8_t *b, size_t n) { return make(b, n)->fee(); }
SPEC uint64_t spec_fee(const uint8_t *b, size_t n) {
    PSBT *p = make(b, n);
    uint64_t in = 0, out = 0;
    for (size_t i = 0; i < p->tx.inputsNumber; i++) { if (p->txInsMeta[i].txOut.amount == 0) return 0; in += p->txInsMeta[i].txOut.amount; }
    for (size_t i = 0; i < p->tx.outputsNumber; i++) out += p->tx.txOuts[i].amount;
    return in < out ? 0 : in - out;
}
template <class K> static PSBT *owned(const uint8_t *b, size_t n, const K *k, const uint8_t *how);
template <> PSBT *owned(const uint8_t *b, size_t n, const HDPrivateKey *root, const uint8_t *how) {
    PSBT *p = make(b, n);
    for (size_t i = 0; i < p->tx.outputsNumber; i++)
        for (size_t j = 0; j < p->txOutsMeta[i].derivationsLen; j++) {
            PSBTDerivation &d = p->txOutsMeta[i].derivations[j];
            if (*how) { HDPrivateKey k(*root); walk(k, d); prepare(d, d.fingerprint, k.pubKey.point, *how); }
            how++;
        }
    return p;
}
template <> PSBT *owned(const uint8_t *b, size_t n, const HDPublicKey *root, const uint8_t *how) {
    PSBT *p = make(b, n);
    for (size_t i = 0; i < p->tx.outputsNumber; i++)
        for (size_t j = 0; j < p->txOutsMeta[i].derivationsLen; j++) {
            PSBTDerivation &d = p->txOutsMeta[i].derivations[j];
            if (*how) { HDPublicKey k(*root); walk(k, d); prepare(d, d.fingerprint, k.point, *how); }
            how++;
        }
    return p;
}
static const uint8_t *pt(const HDPrivateKey &k) { return k.pubKey.point; }
static const uint8_t *pt(const HDPublicKey &k) { return k.point; }
template <class K> static bool mine(const uint8_t *b, size_t n, const K *root, const uint8_t *how, uint8_t num) {
    PSBT *p = owned(b, n, root, how);
    bool r = false;
    if (num < p->tx.outputsNumber) for (size_t j = 0; j < p->txOutsMeta[num].derivationsLen; j++) {
        PSBTDerivation &d = p->txOutsMeta[num].derivations[j];
        K k(*root);
        walk(k, d);
        if (memcmp(pt(k), d.pubkey.point, 64) == 0) r = true;
    }
    return r;
}
SPEC bool impl_mine_prv(const uint8_t *b, size_t n, const HDPrivateKey *k, const uint8_t *how, uint8_t num) { return owned(b, n, k, how)->isMine(num, *k); }
SPEC bool impl_mine_pub(const uint8_t *b, size_t n, const HDPublicKey *k, const uint8_t *how, uint8_t num) { return owned(b, n, k, how)->isMine(num, *k); }
SPEC bool spec_mine_prv(const uint8_t *b, size_t n, const HDPrivateKey *k, const uint8_t *how, uint8_t num) { return mine(b, n, k, how, num); }
SPEC bool spec_mine_pub(const uint8_t *b, size_t n, const HDPublicKey *k, const uint8_t *how, uint8_t num) { return mine(b, n, k, how, num); }
