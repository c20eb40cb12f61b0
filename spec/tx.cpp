#include "spec.h"
static void outpoint(Sink &s, const TxIn &in) { s.raw(in.hash, 32); s.le32(in.outputIndex); }
static void txout(Sink &s, const TxOut &o) { s.le64(o.amount); s.script(o.scriptPubkey); }

static void prevouts(const Tx *t, uint8_t *h) { Sink s; for (size_t i = 0; i < t->inputsNumber; i++) outpoint(s, t->txIns[i]); s.twice(h); }
static void sequences(const Tx *t, uint8_t *h) { Sink s; for (size_t i = 0; i < t->inputsNumber; i++) s.le32(t->txIns[i].sequence); s.twice(h); }
static void outputs(const Tx *t, uint8_t *h) { Sink s; for (size_t i = 0; i < t->outputsNumber; i++) txout(s, t->txOuts[i]); s.twice(h); }

SPEC int spec_hashPrevouts(const Tx *t, uint8_t *h) { prevouts(t, h); return 32; }
SPEC int spec_hashSequence(const Tx *t, uint8_t *h) { sequences(t, h); return 32; }
SPEC int spec_hashOutputs(const Tx *t, uint8_t *h) { outputs(t, h); return 32; }

// BIP143, SIGHASH_ALL
SPEC int spec_sigHashSegwit(const Tx *t, uint8_t *h, uint8_t idx, const Script *code, uint64_t amount, int sighash) {
    uint8_t hp[32], hs[32], ho[32];
    prevouts(t, hp); sequences(t, hs); outputs(t, ho);
    Sink s;
    s.le32(t->version); s.raw(hp, 32); s.raw(hs, 32);
    outpoint(s, t->txIns[idx]);
    s.script(*code);
    s.le64(amount);
    s.le32(t->txIns[idx].sequence);
    s.raw(ho, 32);
    s.le32(t->locktime); s.le32((uint32_t)sighash);
    s.twice(h);
    return 32;
}
// original (pre-segwit) digest, SIGHASH_ALL
SPEC int spec_sigHash(const Tx *t, uint8_t *h, uint8_t idx, const Script *code, int sighash) {
    Sink s;
    s.le32(t->version);
    s.compact(t->inputsNumber);
    for (size_t i = 0; i < t->inputsNumber; i++) {
        outpoint(s, t->txIns[i]);
        if (i == idx) s.script(*code); else s.u8(0);
        s.le32(t->txIns[i].sequence);
    }
    s.compact(t->outputsNumber);
    for (size_t i = 0; i < t->outputsNumber; i++) txout(s, t->txOuts[i]);
    s.le32(t->locktime); s.le32((uint32_t)sighash);
    s.twice(h);
    return 32;
}
static void txbody(Sink &s, const Tx *t, bool wit) {
    s.le32(t->version);
    if (wit) { s.u8(0); s.u8(1); }
    s.compact(t->inputsNumber);
    for (size_t i = 0; i < t->inputsNumber; i++) { outpoint(s, t->txIns[i]); s.script(t->txIns[i].scriptSig); s.le32(t->txIns[i].sequence); }
    s.compact(t->outputsNumber);
    for (size_t i = 0; i < t->outputsNumber; i++) txout(s, t->txOuts[i]);
    if (wit) for (size_t i = 0; i < t->inputsNumber; i++) {
        s.compact(t->txIns[i].witness.numElements);
        s.raw(t->txIns[i].witness.witnessArray, t->txIns[i].witness.witnessLen);
    }
    s.le32(t->locktime);
}
SPEC int spec_hash(const Tx *t, uint8_t *h) { Sink s; txbody(s, t, false); s.twice(h); return 32; }
SPEC int spec_whash(const Tx *t, uint8_t *h) { Sink s; txbody(s, t, true); s.twice(h); return 32; }
static void rev(uint8_t *id, const uint8_t *h) { for (int i = 0; i < 32; i++) id[i] = h[31 - i]; }
SPEC int spec_txid(const Tx *t, uint8_t *id) { uint8_t h[32]; Sink s; txbody(s, t, false); s.twice(h); rev(id, h); return 32; }
SPEC int spec_wtxid(const Tx *t, uint8_t *id) { uint8_t h[32]; Sink s; txbody(s, t, true); s.twice(h); rev(id, h); return 32; }
