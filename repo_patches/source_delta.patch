From 1b777b48862a6e74315dd4a9ebf0267f2efd2a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:13 +0000
Subject: [PATCH 01/60] fix: ECPoint parsing used an uninitialised buffer for x
 coordinates not on the curve

---
 src/BitcoinCurve.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 941b47f..4de3e9f 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -48,7 +48,12 @@ size_t ECPoint::from_stream(ParseStream *s){
 			buf[0] = first_byte;
 			memcpy(buf+1, point, 32);
             uint8_t arr[65];
-            ecdsa_uncompress_pubkey(&secp256k1, buf, arr);
+            if(!ecdsa_uncompress_pubkey(&secp256k1, buf, arr)){ // not on the curve
+                memset(point, 0, 64);
+                status = PARSING_FAILED;
+                bytes_parsed += bytes_read;
+                return bytes_read;
+            }
             memcpy(point, arr+1, 64);
 		}
 		status = PARSING_DONE;
-- 
2.43.0


From 0f7d86ee47dd50446b7be61d0bd0f1d39ee4c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:13 +0000
Subject: [PATCH 02/60] fix: PublicKey::verify on an HD public key verified
 against its xpub serialization

---
 src/Bitcoin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 419a2fe..f93b44a 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -438,7 +438,7 @@ bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     uint8_t signature[64] = {0};
     sig.bin(signature, 64);
     uint8_t pub[65];
-    serialize(pub, 65);
+    sec(pub, 65); // serialize() is virtual, HD keys serialize to xpub
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
-- 
2.43.0


From 4ddfdc5c8370fff16c058cbfe2f3c27251541654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:38 +0000
Subject: [PATCH 03/60] fix: Schnorr verification accepted a negated s and
 aborted on out-of-range r or s

---
 src/Bitcoin.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index f93b44a..a9afef7 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -450,6 +450,14 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     sig.serialize(rs, sizeof(rs));
     PublicKey R;
     R.from_x(rs, 32);
+    if(!R.isValid()){ // r is not an x coordinate of a point
+        return false;
+    }
+    bignum256 sn;
+    bn_read_be(rs+32, &sn);
+    if(!bn_is_less(&sn, &secp256k1.order)){ // s is out of range
+        return false;
+    }
     // calculate hash using tagged hash with "BIP0340/challenge" prefix
     uint8_t e[32];
     uint8_t tmp[32];
@@ -464,10 +472,8 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     tch.end(e);
     PrivateKey challenge(e);
     PublicKey S = challenge*pub + R;
-    S.x(tmp, sizeof(tmp));
     PrivateKey s(rs+32);
-    s.publicKey().x(e, 32);
-    return memcmp(tmp, e, 32) == 0;
+    return s.publicKey() == S; // both coordinates, otherwise -s is accepted as well
 };
 
 // ---------------------------------------------------------------- PrivateKey class
-- 
2.43.0


From c798af0c0ddd2594b13af42cc876b2df0c7b6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:06 +0000
Subject: [PATCH 04/60] fix: derive("m") read past the end of the path and
 returned an invalid key

---
 src/HDWallet.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f822fc4..415f05e 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -479,12 +479,16 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
     size_t len = strlen(path);
     const char * cur = path;
     if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
+        size_t prefixLen = (len < 2) ? len : 2;
+        cur+=prefixLen;
+        len-=prefixLen;
     }
-    if(cur[len-1] == '/'){ // remove trailing "/"
+    if(len > 0 && cur[len-1] == '/'){ // remove trailing "/"
         len--;
     }
+    if(len == 0){ // "m" or "m/" - the key itself
+        return *this;
+    }
     HDPrivateKey pk; // invalid private key to return if something failed
     size_t derivationLen = 1;
     // checking if all chars are valid and counting derivation length
@@ -818,12 +822,16 @@ HDPublicKey HDPublicKey::derive(const char * path) const{
     size_t len = strlen(path);
     const char * cur = path;
     if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
+        size_t prefixLen = (len < 2) ? len : 2;
+        cur+=prefixLen;
+        len-=prefixLen;
     }
-    if(cur[len-1] == '/'){ // remove trailing "/"
+    if(len > 0 && cur[len-1] == '/'){ // remove trailing "/"
         len--;
     }
+    if(len == 0){ // "m" or "m/" - the key itself
+        return *this;
+    }
     HDPublicKey pk; // dummy to return if something failed
     size_t derivationLen = 1;
     // checking if all chars are valid and counting derivation length
-- 
2.43.0


From 3d8520a9e376451da213ac3849f133308f6caa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:06 +0000
Subject: [PATCH 05/60] fix: derivation path indexes wrapped around at 32 bits

---
 src/HDWallet.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 415f05e..6f49072 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -516,6 +516,10 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
             return pk;
         }
         if(val < 10){
+            if(derivation[current] > (0xFFFFFFFF - val)/10){ // index doesn't fit 32 bits
+                free(derivation);
+                return pk;
+            }
             derivation[current] = derivation[current]*10 + val;
         }else{ // h or ' -> hardened
             derivation[current] += HARDENED_INDEX;
@@ -858,6 +862,10 @@ HDPublicKey HDPublicKey::derive(const char * path) const{
         }
         const char * pch = strchr(VALID_CHARS, cur[i]);
         uint32_t val = pch-VALID_CHARS;
+        if(derivation[current] > (0xFFFFFFFF - val)/10){ // index doesn't fit 32 bits
+            free(derivation);
+            return pk;
+        }
         derivation[current] = derivation[current]*10 + val;
     }
     pk = derive(derivation, derivationLen);
-- 
2.43.0


From 780c55e3b4e7e8345e531b67a28b8829fb97d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:06 +0000
Subject: [PATCH 06/60] fix: public derivation with a hardened index returned
 an unrelated key

---
 src/HDWallet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 6f49072..d5f4776 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -783,6 +783,9 @@ String HDPublicKey::fingerprint() const{
 
 HDPublicKey HDPublicKey::child(uint32_t index) const{
     HDPublicKey child;
+    if(index >= HARDENED_INDEX){ // hardened children can't be derived from the public key
+        return child;
+    }
 
     uint8_t secArr[65] = { 0 };
     int l = sec(secArr, sizeof(secArr));
@@ -817,6 +820,9 @@ HDPublicKey HDPublicKey::child(uint32_t index) const{
 HDPublicKey HDPublicKey::derive(uint32_t * index, size_t len) const{
     HDPublicKey pk = *this;
     for(size_t i=0; i<len; i++){
+        if(index[i] >= HARDENED_INDEX){ // can't be hardened
+            return HDPublicKey();
+        }
         pk = pk.child(index[i]);
     }
     return pk;
-- 
2.43.0


From 7ed8fb2c456593a59fac72a83006efc5da3480c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:04 +0000
Subject: [PATCH 07/60] fix: extended keys with a payload that is not 78 bytes
 long were accepted

---
 src/HDWallet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index d5f4776..f2f45c8 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -232,10 +232,10 @@ size_t HDPrivateKey::from_str(const char * xprvArr, size_t xprvLen){
     init();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xprvArr, xprvLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPrivateKey::from_stream(&s);
     return xprvLen;
 }
@@ -666,10 +666,10 @@ size_t HDPublicKey::from_stream(ParseStream *s){
 size_t HDPublicKey::from_str(const char * xpubArr, size_t xpubLen){
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xpubArr, xpubLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPublicKey::from_stream(&s);
     return xpubLen;
 }
-- 
2.43.0


From 4d4d8a14b4eb7f2cfd5e666ebccdfd0048c2216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:04 +0000
Subject: [PATCH 08/60] fix: xpub parsing used an uninitialised buffer for x
 coordinates not on the curve

---
 src/HDWallet.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f2f45c8..199ded7 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -654,8 +654,11 @@ size_t HDPublicKey::from_stream(ParseStream *s){
         uint8_t arr[33];
         memcpy(arr, point, 33);
         uint8_t buf[65];
-        ecdsa_uncompress_pubkey(&secp256k1, arr, buf);
-        memcpy(point, buf+1, 64);
+        if(ecdsa_uncompress_pubkey(&secp256k1, arr, buf)){
+            memcpy(point, buf+1, 64);
+        }else{ // not on the curve
+            memzero(point, 64);
+        }
         if(!isValid()){
             status = PARSING_FAILED;
         }
-- 
2.43.0


From 02795f3c610cb44c68700ead573211884d32061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:54 +0000
Subject: [PATCH 09/60] fix: xpub parsing read past the key for an
 uncompressed-key prefix

---
 src/HDWallet.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 199ded7..fd86564 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -654,9 +654,10 @@ size_t HDPublicKey::from_stream(ParseStream *s){
         uint8_t arr[33];
         memcpy(arr, point, 33);
         uint8_t buf[65];
-        if(ecdsa_uncompress_pubkey(&secp256k1, arr, buf)){
+        bool isCompressed = (arr[0] == 0x02 || arr[0] == 0x03);
+        if(isCompressed && ecdsa_uncompress_pubkey(&secp256k1, arr, buf)){
             memcpy(point, buf+1, 64);
-        }else{ // not on the curve
+        }else{ // not a compressed key or not on the curve
             memzero(point, 64);
         }
         if(!isValid()){
-- 
2.43.0


From fa3e5bf92798ef83aca477710edb0934f8b3e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:15 +0000
Subject: [PATCH 10/60] fix: DER signatures with a wrong total length were
 accepted

---
 src/Bitcoin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index a9afef7..3cb73b0 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -196,6 +196,7 @@ size_t Signature::from_stream(ParseStream *stream){
         bytes_read++;
     }
     if(slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
+    if(tot[0] != 4+tot[1]+tot[2]){ status = PARSING_FAILED; return bytes_read; }
     if(bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
         status = PARSING_DONE;
     }
-- 
2.43.0


From 3a4d9d23987ac61c68f31bf37a48e44fb49f2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:25 +0000
Subject: [PATCH 11/60] fix: WIF strings with an invalid compression flag byte
 were accepted

---
 src/Bitcoin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 3cb73b0..fc4c5cd 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -566,7 +566,7 @@ String PrivateKey::wif() const{
 int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
     uint8_t arr[40] = { 0 };
     size_t l = fromBase58Check(wifArr, wifSize, arr, sizeof(arr));
-    if( (l < 33) || (l > 34) ){
+    if( (l < 33) || (l > 34) || (l == 34 && arr[33] != 0x01) ){
         memzero(num, 32);
         return 0;
     }
-- 
2.43.0


From 2f0dc9f177b909dee6d8cc7934e252f2f8a8f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:25 +0000
Subject: [PATCH 12/60] fix: fromWIF accepted a zero secret, aborted on secrets
 above the group order and kept the previous key on failure

---
 src/Bitcoin.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index fc4c5cd..6b3e88b 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -580,7 +580,13 @@ int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
             break;
         }
     }
-    if(!found){
+    bignum256 n; // secret should be in range [1, order-1]
+    bn_read_be(arr+1, &n);
+    bool inrange = !bn_is_zero(&n) && bn_is_less(&n, &secp256k1.order);
+    memzero(&n, sizeof(n));
+    if(!found || !inrange){
+        memzero(num, 32);
+        memzero(arr, sizeof(arr));
         return 0;
     }
 
-- 
2.43.0


From a2a4682580e2dc897eccd2e56c56b8e19d6aee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:25 +0000
Subject: [PATCH 13/60] fix: public key ordering was inverted

---
 src/BitcoinCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 4de3e9f..ee52d42 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -271,7 +271,7 @@ bool ECPoint::operator<(const ECPoint& other) const{
 	uint8_t sec2[65];
 	sec(sec1, sizeof(sec1));
 	other.sec(sec2, sizeof(sec2));
-	return memcmp(sec1, sec2, sizeof(sec1)) > 0;
+	return memcmp(sec1, sec2, sizeof(sec1)) < 0;
 }
 ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
 	ECPoint r;
-- 
2.43.0


From d549bb3691d3c06075c9ea20d8e0b1e5ca6b1f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:25 +0000
Subject: [PATCH 14/60] fix: negation of the zero scalar returned the group
 order

---
 src/BitcoinCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index ee52d42..3579232 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -223,6 +223,7 @@ ECScalar ECScalar::operator-() const{
     bignum256 a, b;
 	bn_read_be(this->num, &a);
 	bn_subtract(&secp256k1.order, &a, &b);
+	bn_mod(&b, &secp256k1.order); // -0 is 0, not the order
 	ECScalar neg;
 	bn_write_be(&b, neg.num);
 	return neg;
-- 
2.43.0


From 0826c98c00cc1019e1e4ab6907208ee56645c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:34 +0000
Subject: [PATCH 15/60] fix: addresses with a witness program above 32 bytes
 overflowed the stack

---
 src/Script.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 4fb5eb5..b923c2c 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -156,7 +156,7 @@ void Script::fromAddress(const char * address){
     // segwit
     if(type == P2WPKH){
         int ver = 0;
-        uint8_t prog[32];
+        uint8_t prog[40]; // witness program is up to 40 bytes
         size_t prog_len = 0;
         int r = segwit_addr_decode(&ver, prog, &prog_len, network->bech32, address);
         if(r != 1){ // decoding failed
-- 
2.43.0


From 052b5d8b216735884262224f4c9e1534c20b5e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:34 +0000
Subject: [PATCH 16/60] fix: scripts of addresses with witness version above 0
 started with a wrong opcode

---
 src/Script.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index b923c2c..f6c15be 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -165,7 +165,7 @@ void Script::fromAddress(const char * address){
         scriptLen = prog_len + 2;
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
         if(scriptArray == NULL){ scriptLen = 0; return; }
-        scriptArray[0] = ver;
+        scriptArray[0] = (ver == 0) ? 0 : OP_1 + ver - 1;
         scriptArray[1] = prog_len; // varint?
         memcpy(scriptArray+2, prog, prog_len);
     }else{ // legacy or nested segwit
-- 
2.43.0


From 5449bd6f7dd5fb961e16e5b96b133e9bc42c0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:34 +0000
Subject: [PATCH 17/60] fix: regtest addresses were matched with the mainnet
 prefix and rejected

---
 src/Script.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index f6c15be..d3c96a8 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -147,7 +147,9 @@ void Script::fromAddress(const char * address){
     ScriptType type = UNKNOWN_TYPE;
     const Network * network;
     for(int i=0; i<networks_len; i++){
-        if(memcmp(address, networks[i]->bech32, strlen(networks[i]->bech32))==0){
+        size_t hrp_len = strlen(networks[i]->bech32);
+        // prefix followed by the separator, so "bcrt1" is not confused with "bc1"
+        if(len > hrp_len && memcmp(address, networks[i]->bech32, hrp_len)==0 && address[hrp_len] == '1'){
             type = P2WPKH;
             network = networks[i];
             break;
-- 
2.43.0


From 1ca2acd83b13edad492d7a6837544284987a11b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:13 +0000
Subject: [PATCH 18/60] fix: sortedmulti did not sort the public keys

---
 src/Script.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index d3c96a8..0043880 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -103,9 +103,15 @@ static void quickSort(PublicKey array[], int low, int high) {
 }
 
 Script sortedmulti(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len){
-    // sort first
-    PublicKey * sortedkeys = (PublicKey *) pubkeys;
-    // TODO: the most
+    if(pubkeys_len > 16){ // same limit as in multi
+        return Script();
+    }
+    // sort a copy first
+    PublicKey sortedkeys[16];
+    for(int i=0; i<pubkeys_len; i++){
+        sortedkeys[i] = pubkeys[i];
+    }
+    quickSort(sortedkeys, 0, pubkeys_len-1);
     return multi(threshold, sortedkeys, pubkeys_len);
 }
 
-- 
2.43.0


From 2147ac5361e8eb181ff812205636a95f77a00def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:13 +0000
Subject: [PATCH 19/60] fix: pushing a script above 75 bytes used its length as
 an opcode, and leaked the temporary buffer

---
 src/Script.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 0043880..fe36647 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -476,12 +476,16 @@ size_t Script::push(const Signature sig, SigHashType sigType){
     return scriptLen;
 }
 size_t Script::push(const Script sc){
-    size_t len = sc.length();
-    uint8_t * tmp;
-    tmp = (uint8_t *)calloc(len, sizeof(uint8_t));
-    if(tmp == NULL){ return 0; }
-    sc.serialize(tmp, len);
-    push(tmp, len);
+    size_t len = sc.scriptLen;
+    // push opcode with the length of the data
+    if(len >= OP_PUSHDATA1){
+        push((uint8_t)(len > 0xff ? OP_PUSHDATA2 : OP_PUSHDATA1));
+    }
+    push((uint8_t)(len & 0xff));
+    if(len > 0xff){
+        push((uint8_t)((len >> 8) & 0xff));
+    }
+    push(sc.scriptArray, len);
     return scriptLen;
 }
 Script Script::scriptPubkey(ScriptType type) const{
-- 
2.43.0


From db5fd31469f290055033ec5e6aed369bf9bc8728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:13 +0000
Subject: [PATCH 20/60] fix: clearing a witness left a dangling pointer that
 was freed again

---
 src/Script.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index fe36647..ab1f8ca 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -520,6 +520,7 @@ void Witness::clear(){
     numElements = 0;
     if(witnessLen > 0){
         free(witnessArray);
+        witnessArray = NULL;
         witnessLen = 0;
     }
 }
-- 
2.43.0


From 49550dde79e9094df5f986b4b07260f36aeab518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:40 +0000
Subject: [PATCH 21/60] fix: fromHex wrote past the end of a too small output
 buffer

---
 src/Conversion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 7a37261..308ff26 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -111,6 +111,10 @@ size_t fromHex(const char * hex, size_t hexLen, uint8_t * array, size_t arraySiz
         if((v1 > 0x0F) || (v2 > 0x0F)){ // if invalid char stop parsing
             return i;
         }
+        if(i >= arraySize){ // does not fit in the output
+            memzero(array, arraySize);
+            return 0;
+        }
         array[i] = (v1<<4) | v2;
     }
     return hexLen/2;
-- 
2.43.0


From 63bdec1aca2499d695ce252c5176c5fce7ce7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:42 +0000
Subject: [PATCH 22/60] fix: toBase64 of an empty array read 3 and wrote 4
 bytes out of bounds

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 308ff26..5f8684f 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -678,7 +678,7 @@ size_t toBase64(const uint8_t * array, size_t arraySize, char * output, size_t o
             memset(output + 4 * cur + 1 + rem, '=', 3-rem);
             len += 4;
         }
-    }else{
+    }else if(arraySize > 0){
         uint32_t val = bigEndianToInt(array+3*cur, 3);
         for(uint8_t i=0; i<4; i++){
             output[4*cur + i] = BASE64_CHARS[((val >> (6*(3-i))) & 0x3F)];
-- 
2.43.0


From 85fbe3817910d8c6e4f56fbabfa0da767fa33ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:43 +0000
Subject: [PATCH 23/60] fix: fromBase64Length of an empty string read before
 its start

---
 src/Conversion.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 5f8684f..d3b86c1 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -712,6 +712,7 @@ String toBase64(const uint8_t * array, size_t arraySize, uint8_t flags){
 #endif
 size_t fromBase64Length(const char * array, size_t arraySize, uint8_t flags){
     if(array == NULL){ return 0; }
+    if(arraySize == 0){ return 0; }
     if(arraySize % 4 != 0 && (flags & BASE64_NOPADDING) == 0){ return 0; }
     size_t v = (arraySize / 4) * 3;
     if(flags & BASE64_NOPADDING){
-- 
2.43.0


From a7dd62829d41b98b2407e7aff78f406340902d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:45 +0000
Subject: [PATCH 24/60] fix: fromBase64 read past the end of unpadded input and
 decoded a zero byte as a digit

---
 src/Conversion.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index d3b86c1..90f1082 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -743,7 +743,8 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
         uint32_t val = 0;
         for(size_t i=0; i<4; i++){
-            char c = encoded[cur*4+i];
+            // without padding the last group can be shorter
+            char c = (cur*4+i < encodedSize) ? encoded[cur*4+i] : 0;
             // replace characters for urlsafe version
             if(c=='-' && (flags & BASE64_URLSAFE)){
                 c = '+';
@@ -752,8 +753,8 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
                 c = '/';
             }
             const char * pch = strchr(BASE64_CHARS, c);
-            if(pch==NULL || ((flags & BASE64_NOPADDING) && (c == 0))){
-                if((encoded[cur*4+i] == '=') || (c == 0 && (flags & BASE64_NOPADDING))){
+            if(pch==NULL || c == 0){
+                if((c == '=') || (c == 0 && (flags & BASE64_NOPADDING))){
                     if(i==3){
                         val = (val >> 2);
                         if(outputSize < 3*cur+2){
-- 
2.43.0


From 934a1f8ea25f9d90cfafed6e0fafbb6a067e97bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:46 +0000
Subject: [PATCH 25/60] fix: fromBase58 lost leading zero bytes

---
 src/Conversion.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 90f1082..6335389 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -362,11 +362,15 @@ String toBase58Check(const uint8_t * array, size_t arraySize){
 #endif
 
 
-// TODO: add zero count, fix wrong length
 size_t fromBase58Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 361 / 493 + 1;
-    return size;
+    // every leading zero digit is a zero byte
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE58_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 361 / 493 + 1;
+    return size+zeroCount;
 }
 
 size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -386,7 +390,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE58_CHARS[0]){
             zeroCount++;
@@ -412,7 +416,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
-- 
2.43.0


From 70297c5209ebd9e726bf8c34ad39b138eb2a3617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:48 +0000
Subject: [PATCH 26/60] fix: fromBase58 decoded the terminating zero as a digit

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 6335389..538dccb 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -381,7 +381,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE58_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l] == 0){ // char not in the alphabet
             break;
         }
     }
-- 
2.43.0


From cbca5fff2c953570316f7e7e79d63238548a1f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 27/60] fix: fromBase43 lost leading zero bytes

---
 src/Conversion.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 538dccb..d328c31 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -563,11 +563,15 @@ String toBase43(const uint8_t * array, size_t arraySize){
     return s;
 }
 #endif
-// TODO: add zero count, fix wrong length
 size_t fromBase43Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 68 / 100 + 1;
-    return size;
+    // every leading zero digit is a zero byte
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE43_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 68 / 100 + 1;
+    return size+zeroCount;
 }
 
 size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -587,7 +591,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE43_CHARS[0]){
             zeroCount++;
@@ -613,7 +617,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
-- 
2.43.0


From d769caea2269e12c798ee0684274621e615305a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:50 +0000
Subject: [PATCH 28/60] fix: fromBase43 decoded the terminating zero as a digit

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index d328c31..7741e80 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -582,7 +582,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE43_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l] == 0){ // char not in the alphabet
             break;
         }
     }
-- 
2.43.0


From f40b6528f373f2044e52e4f70650a59233eb92bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:06 +0000
Subject: [PATCH 29/60] fix: toBase58Check returning a string read past the end
 of its input

---
 src/Conversion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 7741e80..56a422e 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -351,7 +351,8 @@ size_t toBase58Check(const uint8_t * array, size_t arraySize, char * output, siz
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String toBase58Check(const uint8_t * array, size_t arraySize){
     if(array == NULL){ return String(); }
-    size_t len = toBase58Length(array, arraySize + 4) + 1; // +4 checksum +1 for null terminator
+    // the 4 checksum bytes take up to 6 characters, +1 for null terminator
+    size_t len = toBase58Length(array, arraySize) + 6 + 1;
     char * buf = (char *)malloc(len);
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
-- 
2.43.0


From ff4d41c26e1aa6a2f01a27aaea03d55ee4034281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:08 +0000
Subject: [PATCH 30/60] fix: fromBin of more than 256 bytes overwrote the last
 bytes with the first ones

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 56a422e..4cb5789 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -149,7 +149,7 @@ size_t fromBin(const char * bin, size_t binLen, uint8_t * array, size_t arraySiz
     for(size_t i = 0; i < binLen; i++){
         // we go in reverse order (from the end of the string)
         uint8_t exp = (i%8); // shift
-        uint8_t n = (i/8); // current byte from the end
+        size_t n = (i/8); // current byte from the end
         char c = bin[binLen-i-1];
         if(c == '1'){
             // set bit
-- 
2.43.0


From 5bc3b30abb88fca526d3667f28893315b06dc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:10 +0000
Subject: [PATCH 31/60] fix: readVarInt read from an empty array

---
 src/Conversion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 4cb5789..a284ee2 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -875,6 +875,9 @@ uint8_t lenVarInt(uint64_t num){
     return 9;
 }
 uint64_t readVarInt(const uint8_t * array, size_t arraySize){
+    if(arraySize == 0){
+        return 0;
+    }
     if(array[0] < 0xfd){
         return array[0];
     }else{
-- 
2.43.0


From 2b96654a57ee5adb81e762d605a0a09fd2caa28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:46 +0000
Subject: [PATCH 32/60] fix: decoding a segwit address longer than 90
 characters overflowed the stack

---
 src/utility/segwit_addr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index 337968f..c1e4bd6 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -178,6 +178,8 @@ int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const
     uint8_t data[84];
     char hrp_actual[84];
     size_t data_len;
+    // BIP-173: an address is at most 90 characters long
+    if (strlen(addr) > 90) return 0;
     if (!bech32_decode(hrp_actual, data, &data_len, addr)) return 0;
     if (data_len == 0 || data_len > 65) return 0;
     if (strncmp(hrp, hrp_actual, 84) != 0) return 0;
-- 
2.43.0


From 818d1bcf88ecbf28ea7bd5b3e9f76d68ebdfd490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:40 +0000
Subject: [PATCH 33/60] fix: a witness was reported as parsed before its first
 byte, transactions with several witnesses parsed in pieces lost all but the
 first

---
 src/Script.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index ab1f8ca..2c214eb 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -636,7 +636,7 @@ size_t Witness::from_stream(ParseStream *s){
         }
         bytes_read += cur_bytes_read;
     }
-    if(cur_element==numElements){
+    if(bytes_parsed+bytes_read > 0 && cur_element==numElements){
         status = PARSING_DONE;
     }
     bytes_parsed += bytes_read;
-- 
2.43.0


From 08457746f61f36e2685b209a1a0130a75409e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 34/60] fix: a witness element above 252 bytes was misparsed if
 the data was split inside its length

---
 src/Script.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 2c214eb..38d54fb 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -626,7 +626,7 @@ size_t Witness::from_stream(ParseStream *s){
             // s->read();
             cur_bytes_read++;
         }
-        if(cur_bytes_parsed+cur_bytes_read==cur_element_len+lenVarInt(cur_element_len)){
+        if(cur_bytes_parsed+cur_bytes_read >= curLen && cur_bytes_parsed+cur_bytes_read==cur_element_len+lenVarInt(cur_element_len)){
             curLen = 0;
             cur_element_len = 0;
             cur_element++;
-- 
2.43.0


From 1f3de6035784fa564d812b1985c07f0a5a53d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:44 +0000
Subject: [PATCH 35/60] fix: transactions with more than 252 inputs or outputs
 were serialised with a truncated count

---
 src/Transaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 39d74b9..559465b 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -308,7 +308,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
     }
     size_t cur_offset = 4+2*is_segwit;
     size_t l = writeVarInt(inputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
@@ -321,7 +321,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
         cur_offset+=l;
     }
     l = writeVarInt(outputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
-- 
2.43.0


From bb4a17f56c44910ffe8e45ba7509887773c24ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:45 +0000
Subject: [PATCH 36/60] fix: the prefix of a three-byte input or output count
 was taken for the count itself

---
 src/Transaction.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 559465b..c22f1e8 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -372,6 +372,10 @@ size_t Tx::from_stream(ParseStream *s){
         bytes_read++;
         if(c == 0x00){ // segwit!
             segwit_flag = 1;
+        }else if(c > 0xfc){ // larger numbers are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
         }else{
             inputsNumber = c; // FIXME: should be varint, but 255 inputs will kill the MCU...
             txIns = new TxIn[inputsNumber];
@@ -390,8 +394,14 @@ size_t Tx::from_stream(ParseStream *s){
         }
     }
     if(s->available() && segwit_flag > 0 && bytes_read+bytes_parsed == 6){
-        inputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c > 0xfc){ // larger numbers are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        inputsNumber = c;
         txIns = new TxIn[inputsNumber];
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
@@ -412,8 +422,14 @@ size_t Tx::from_stream(ParseStream *s){
         current_offset += txIns[i].length();
     }
     if(s->available() && bytes_read+bytes_parsed == current_offset){
-        outputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c > 0xfc){ // larger numbers are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        outputsNumber = c;
         txOuts = new TxOut[outputsNumber];
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
-- 
2.43.0


From 99c70096197ef5ec2c13b482ebad592910ead8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:46 +0000
Subject: [PATCH 37/60] fix: characters that are not hex were parsed as 0xff
 bytes, and an empty hex string was read out of bounds

---
 src/BaseClasses.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index ccc51b1..8284203 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -36,6 +36,9 @@ ParseByteStream::~ParseByteStream(){
 }
 size_t ParseByteStream::available(){
     if(format == HEX_ENCODING){
+        if(len - cursor < 2 || hexToVal(buf[cursor]) > 0x0F || hexToVal(buf[cursor+1]) > 0x0F){
+            return 0; // end of the data or not hex
+        }
         return (len - cursor)/2;
     }else{
         return len-cursor;
@@ -43,7 +46,7 @@ size_t ParseByteStream::available(){
 };
 int ParseByteStream::read(){
     if(format == HEX_ENCODING){
-        if(cursor < len-1){
+        if(available() > 0){
             uint8_t c1 = hexToVal(buf[cursor]);
             uint8_t c2 = hexToVal(buf[cursor+1]);
             if(c1 < 0x10 && c2 < 0x10){
-- 
2.43.0


From eeb0d23d986b9669f2ac6408eff063872079b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:48 +0000
Subject: [PATCH 38/60] fix: parsing a script with an overlong zero length
 leaked memory

---
 src/Script.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 38d54fb..4599e2c 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -292,7 +292,6 @@ size_t Script::from_stream(ParseStream *s){
         }else{
             scriptLen = 0;
             lenLen = 1+(1 << (lenLen - 0xfc));
-            scriptArray = (uint8_t *) calloc( 255, sizeof(uint8_t));
         }
         if(scriptArray == NULL && scriptLen > 0){ status = PARSING_FAILED; scriptLen = 0; return 0; }
     }
-- 
2.43.0


From 079e051cfcc094c0025163bc877f53b5e393bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:49 +0000
Subject: [PATCH 39/60] fix: lengths of scripts and witness elements were
 shifted beyond the width of int

---
 src/Script.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 4599e2c..f9c668a 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -296,7 +296,7 @@ size_t Script::from_stream(ParseStream *s){
         if(scriptArray == NULL && scriptLen > 0){ status = PARSING_FAILED; scriptLen = 0; return 0; }
     }
     while(s->available() > 0 && bytes_parsed+bytes_read < lenLen){
-        scriptLen += (s->read() << (8*(bytes_parsed+bytes_read-1)));
+        scriptLen += ((size_t)s->read() << (8*(bytes_parsed+bytes_read-1)));
         bytes_read++;
     }
     if(bytes_parsed+bytes_read == lenLen && scriptLen > 0){
@@ -596,7 +596,7 @@ size_t Witness::from_stream(ParseStream *s){
             }
         }
         while(s->available() && cur_bytes_parsed+cur_bytes_read < curLen){
-            cur_element_len += (s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
+            cur_element_len += ((size_t)s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
             cur_bytes_read++;
         }
         if(lenVarInt(cur_element_len) != curLen && cur_bytes_parsed+cur_bytes_read == curLen){
-- 
2.43.0


From 086711952b843cba084acd3f50323d55f03a945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:51 +0000
Subject: [PATCH 40/60] fix: a transaction input built from a too short id kept
 an uninitialised hash

---
 src/Transaction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index c22f1e8..14bad20 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -57,6 +57,7 @@ TxIn::TxIn(const char * prev_id, uint32_t prev_index, uint32_t sequence_number){
     }
 }
 TxIn::TxIn(const char * prev_id, uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     if(strlen(prev_id) < 64){
-- 
2.43.0


From 48813e80021cbc46d0af6203de96f9de18410deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:05 +0000
Subject: [PATCH 41/60] fix: parsing a witness before its first byte is there
 failed on an uninitialised length

---
 src/Script.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index f9c668a..ff89ce8 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -573,7 +573,7 @@ size_t Witness::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
-    if(bytes_parsed+bytes_read == lenLen && lenVarInt(numElements) != lenLen){
+    if(bytes_parsed+bytes_read > 0 && bytes_parsed+bytes_read == lenLen && lenVarInt(numElements) != lenLen){
         status = PARSING_FAILED;
         bytes_parsed+=bytes_read;
         return bytes_read;
-- 
2.43.0


From 6d215421a7dd540f1cd7d479115c5fb094e90ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 42/60] fix: parsing a script before its first byte is there
 failed

---
 src/Script.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index ff89ce8..e8efbd8 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -279,6 +279,9 @@ size_t Script::from_stream(ParseStream *s){
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
+    if(bytes_parsed == 0 && s->available() == 0){ // nothing to parse yet
+        return 0;
+    }
     // reading scriptLen varint
     if(s->available() && bytes_parsed == 0){ 
         lenLen = s->read();
-- 
2.43.0


From c323be4862e7c57aca63636ad777aaa1dd4c3ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:25 +0000
Subject: [PATCH 43/60] fix: mnemonics of 15 and 21 words, which the library
 itself generates, were rejected

---
 src/utility/trezor/bip39.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index e02422f..949e21b 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -116,7 +116,7 @@ int mnemonic_to_entropy(const char *mnemonic, uint8_t *entropy)
 	n++;
 
 	// check number of words
-	if (n != 12 && n != 18 && n != 24) {
+	if (n < 12 || n > 24 || n % 3 != 0) {
 		return 0;
 	}
 
@@ -167,21 +167,16 @@ int mnemonic_check(const char *mnemonic)
 {
 	uint8_t bits[32 + 1];
 	int seed_len = mnemonic_to_entropy(mnemonic, bits);
-	if (seed_len != (12 * 11) && seed_len != (18 * 11) && seed_len != (24 * 11)) {
+	if (seed_len == 0) {
 		return 0;
 	}
 	int words = seed_len / 11;
 
 	uint8_t checksum = bits[words * 4 / 3];
 	sha256_Raw(bits, words * 4 / 3, bits);
-	if (words == 12) {
-		return (bits[0] & 0xF0) == (checksum & 0xF0); // compare first 4 bits
-	} else if (words == 18) {
-		return (bits[0] & 0xFC) == (checksum & 0xFC); // compare first 6 bits
-	} else if (words == 24) {
-		return bits[0] == checksum; // compare 8 bits
-	}
-	return 0;
+	// compare first words / 3 bits: 4 to 8
+	uint8_t mask = 0xFF << (8 - words / 3);
+	return (bits[0] & mask) == (checksum & mask);
 }
 
 // passphrase must be at most 256 characters otherwise it would be truncated
-- 
2.43.0


From 3cbafd6c494f83dab5347262f42a52204c53e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:26 +0000
Subject: [PATCH 44/60] fix: a passphrase longer than 256 characters overflowed
 the salt buffer

---
 src/utility/trezor/bip39.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index 949e21b..a8f6e72 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -184,6 +184,9 @@ void mnemonic_to_seed(const char *mnemonic, const char *passphrase, uint8_t seed
 {
 	int mnemoniclen = strlen(mnemonic);
 	int passphraselen = strlen(passphrase);
+	if (passphraselen > 256) {
+		passphraselen = 256;
+	}
 #if USE_BIP39_CACHE
 	// check cache
 	if (mnemoniclen < 256 && passphraselen < 64) {
-- 
2.43.0


From 08bcff6a293a3c75dc458e36e4f2ae70912eaa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:47 +0000
Subject: [PATCH 45/60] fix: PSBT: metadata was used after free or without
 being allocated when parsing fails

---
 src/PSBT.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index a262a08..21333c0 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -120,7 +120,9 @@ size_t PSBT::from_stream(ParseStream *s){
             }
             delete [] txOutsMeta;
         }
-        tx.reset();
+        txInsMeta = NULL;
+        txOutsMeta = NULL;
+        tx = Tx();
         bytes_parsed = 0;
         current_section = 0;
         last_key_pos = 5;
@@ -181,6 +183,7 @@ size_t PSBT::from_stream(ParseStream *s){
         tx.parse(arr+l, value.length()-l);
         if(tx.getStatus() != PARSING_DONE){
             status = PARSING_FAILED;
+            tx = Tx(); // there is no metadata for its inputs and outputs
         }
         free(arr);
         if(status == PARSING_FAILED){
-- 
2.43.0


From 7eaec15dd5a0d7c520fbe60876805c801d98b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:49 +0000
Subject: [PATCH 46/60] fix: PSBT: values of 252 bytes were read at a wrong
 offset

---
 src/PSBT.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 21333c0..bbd9134 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -179,7 +179,7 @@ size_t PSBT::from_stream(ParseStream *s){
         arr = (uint8_t *)calloc(value.length(), sizeof(uint8_t));
         if(arr == NULL){ status = PARSING_FAILED; return 0; }
         value.serialize(arr, value.length());
-        size_t l = lenVarInt(value.length());
+        size_t l = lenVarInt(readVarInt(arr, value.length()));
         tx.parse(arr+l, value.length()-l);
         if(tx.getStatus() != PARSING_DONE){
             status = PARSING_FAILED;
@@ -261,7 +261,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
     uint8_t * val_arr = (uint8_t *)calloc(v->length(), sizeof(uint8_t));
     if(val_arr == NULL){ free(key_arr); return 0; }
     v->serialize(val_arr, v->length());
-    uint8_t key_code = key_arr[lenVarInt(k->length())];
+    size_t vl = lenVarInt(readVarInt(val_arr, v->length())); // length prefix of the value
+    uint8_t key_code = key_arr[lenVarInt(readVarInt(key_arr, k->length()))];
     int res = 0;
 
     if(section < 1+tx.inputsNumber){ // input section
@@ -275,7 +276,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 Tx tempTx;
-                tempTx.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
+                tempTx.parse(val_arr+vl, v->length()-vl);
                 if(tempTx.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
@@ -299,7 +300,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].txOut.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
+                txInsMeta[input].txOut.parse(val_arr+vl, v->length()-vl);
                 if(txInsMeta[input].txOut.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
-- 
2.43.0


From 311ee7524294896bf6684572abf7e059699b637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:50 +0000
Subject: [PATCH 47/60] fix: PSBT::add leaked memory on a malformed output key

---
 src/PSBT.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index bbd9134..9dd2d9d 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -410,7 +410,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].redeemScript.parse(val_arr, v->length());
                 res = 1;
@@ -418,7 +419,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
             }
             case 1: { // PSBT_OUT_WITNESS_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].witnessScript.parse(val_arr, v->length());
                 res = 1;
-- 
2.43.0


From 741a00cfc7d8cb8b27b2fef5e4c46e8576467f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:52 +0000
Subject: [PATCH 48/60] fix: PSBT: a malformed key or value of a derivation
 left an uninitialised entry or read out of bounds

---
 src/PSBT.cpp | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 9dd2d9d..4b2cd09 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -368,6 +368,16 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
+                if(v->length() < vl+4 || (v->length()-vl) % 4 != 0){
+                    res = -2;
+                    break;
+                }
+                PublicKey pubkey;
+                pubkey.parse(key_arr+2, k->length()-2);
+                if(pubkey.getStatus() != PARSING_DONE){
+                    res = -1;
+                    break;
+                }
                 if(txInsMeta[input].derivationsLen == 0){
                     txInsMeta[input].derivationsLen = 1;
                     txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen];
@@ -381,17 +391,13 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     delete [] p;
                 }
                 PSBTDerivation * der = &txInsMeta[input].derivations[txInsMeta[input].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
+                der->pubkey = pubkey;
+                memcpy(der->fingerprint, val_arr+vl, 4);
+                der->derivationLen = (v->length()-vl-4)/sizeof(uint32_t);
                 der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
                 if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
                 for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
+                    der->derivation[i] = littleEndianToInt(val_arr+vl+4*(i+1),4);
                 }
                 res = 1;
                 break;
@@ -432,6 +438,16 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
+                if(v->length() < vl+4 || (v->length()-vl) % 4 != 0){
+                    res = -2;
+                    break;
+                }
+                PublicKey pubkey;
+                pubkey.parse(key_arr+2, k->length()-2);
+                if(pubkey.getStatus() != PARSING_DONE){
+                    res = -1;
+                    break;
+                }
                 if(txOutsMeta[output].derivationsLen == 0){
                     txOutsMeta[output].derivationsLen = 1;
                     txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen];
@@ -445,17 +461,13 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     delete [] p;
                 }
                 PSBTDerivation * der = &txOutsMeta[output].derivations[txOutsMeta[output].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
+                der->pubkey = pubkey;
+                memcpy(der->fingerprint, val_arr+vl, 4);
+                der->derivationLen = (v->length()-vl-4)/sizeof(uint32_t);
                 der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
                 if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
                 for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
+                    der->derivation[i] = littleEndianToInt(val_arr+vl+4*(i+1),4);
                 }
                 res = 1;
                 break;
-- 
2.43.0


From 0c48b300e5bf1adb88fb7477e6a528fdba47ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:34 +0000
Subject: [PATCH 49/60] fix: PSBT: more than 255 signatures, derivations or
 path elements overflowed their counters

---
 src/PSBT.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 4b2cd09..f2891a7 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -315,7 +315,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                 }
                 PSBTPartialSignature psig;
                 psig.pubkey.parse(key_arr+2, k->length()-2);
-                if(psig.pubkey.getStatus() != PARSING_DONE){
+                if(psig.pubkey.getStatus() != PARSING_DONE || txInsMeta[input].signaturesLen == 255){
                     res = -1;
                     break;
                 }
@@ -368,13 +368,13 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                if(v->length() < vl+4 || (v->length()-vl) % 4 != 0){
+                if(v->length() < vl+4 || (v->length()-vl) % 4 != 0 || v->length() > vl+4+4*255){
                     res = -2;
                     break;
                 }
                 PublicKey pubkey;
                 pubkey.parse(key_arr+2, k->length()-2);
-                if(pubkey.getStatus() != PARSING_DONE){
+                if(pubkey.getStatus() != PARSING_DONE || txInsMeta[input].derivationsLen == 255){
                     res = -1;
                     break;
                 }
@@ -438,13 +438,13 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                if(v->length() < vl+4 || (v->length()-vl) % 4 != 0){
+                if(v->length() < vl+4 || (v->length()-vl) % 4 != 0 || v->length() > vl+4+4*255){
                     res = -2;
                     break;
                 }
                 PublicKey pubkey;
                 pubkey.parse(key_arr+2, k->length()-2);
-                if(pubkey.getStatus() != PARSING_DONE){
+                if(pubkey.getStatus() != PARSING_DONE || txOutsMeta[output].derivationsLen == 255){
                     res = -1;
                     break;
                 }
-- 
2.43.0


From 4b534d608902f59de4946eee7b9e4856d49b2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:35 +0000
Subject: [PATCH 50/60] fix: PSBT::isMine read out of bounds for an output
 number that does not exist

---
 src/PSBT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index f2891a7..5437f33 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -729,7 +729,7 @@ uint64_t PSBT::fee() const{
 
 bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
     bool mine = false;
-    if(txOutsMeta[outputNumber].derivationsLen > 0){
+    if(outputNumber < tx.outputsNumber && txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xpub.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen);
             if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0){
@@ -743,7 +743,7 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
 
 bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
     bool mine = false;
-    if(txOutsMeta[outputNumber].derivationsLen > 0){
+    if(outputNumber < tx.outputsNumber && txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xprv.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen).xpub();
             if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0){
-- 
2.43.0


From 173317c3127618fa3a6b5d247d677cd2efc8bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:37 +0000
Subject: [PATCH 51/60] fix: PSBT::sign read out of bounds for a derivation
 path shorter than the account path

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 5437f33..7993fbe 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -644,7 +644,7 @@ uint8_t PSBT::sign(const HDPrivateKey root){
                     }
                     PrivateKey pk;
                     // checking if cached key is ok
-                    if(memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
+                    if(txInsMeta[i].derivations[j].derivationLen >= first_derivation_len && memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
                         pk = account.derive(txInsMeta[i].derivations[j].derivation+first_derivation_len, txInsMeta[i].derivations[j].derivationLen - first_derivation_len);
                     }else{
                         pk = root.derive(txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen);
-- 
2.43.0


From cc2c8b02fb60b6ac67d896627f57c0054ff0d340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:39 +0000
Subject: [PATCH 52/60] fix: PSBT: section separators were written again for
 every offset and beyond the end of the stream

---
 src/PSBT.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 7993fbe..32c40c3 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -525,8 +525,10 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 cur += val_len+1;
             }
         }
-        s->write(0);
-        bytes_written++;
+        if(s->available() && bytes_written+offset == cur){
+            s->write(0);
+            bytes_written++;
+        }
         section++;
         cur++;
     }
-- 
2.43.0


From 4acf7d6be61f130b7c20de0b6134563a60a5ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:30 +0000
Subject: [PATCH 53/60] fix: PSBT: transactions parsed in several pieces failed
 or lost key-value pairs

---
 src/PSBT.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 32c40c3..0cbdb13 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -123,6 +123,8 @@ size_t PSBT::from_stream(ParseStream *s){
         txInsMeta = NULL;
         txOutsMeta = NULL;
         tx = Tx();
+        key.reset();
+        value.reset();
         bytes_parsed = 0;
         current_section = 0;
         last_key_pos = 5;
@@ -141,12 +143,13 @@ size_t PSBT::from_stream(ParseStream *s){
         }
     }
     // global scope
-    if(bytes_read+bytes_parsed == last_key_pos){
-        bytes_read += s->parse(&key);
-        bytes_read += s->parse(&value);
-    }
-    while(s->available() && key.getStatus() == PARSING_INCOMPLETE){
-        bytes_read += s->parse(&key);
+    if(last_key_pos == 5 && bytes_read+bytes_parsed >= 5){
+        if(bytes_read+bytes_parsed == 5 || key.getStatus() == PARSING_INCOMPLETE){
+            bytes_read += s->parse(&key);
+        }
+        if(key.getStatus() == PARSING_DONE){
+            bytes_read += s->parse(&value);
+        }
     }
     if(key.getStatus() == PARSING_FAILED){
         status = PARSING_FAILED;
@@ -154,16 +157,13 @@ size_t PSBT::from_stream(ParseStream *s){
         bytes_parsed += bytes_read;
         return bytes_read;
     }
-    while(s->available() && value.getStatus() == PARSING_INCOMPLETE){
-        bytes_read += s->parse(&value);
-    }
     if(value.getStatus() == PARSING_FAILED){
         status = PARSING_FAILED;
         ubtc_errno = UBTC_ERR_PSBT_VALUE;
         bytes_parsed += bytes_read;
         return bytes_read;
     }
-    if(last_key_pos == 5 && value.getStatus() == PARSING_DONE && key.getStatus() == PARSING_DONE){
+    if(last_key_pos == 5 && bytes_read+bytes_parsed > 5 && value.getStatus() == PARSING_DONE && key.getStatus() == PARSING_DONE){
         uint8_t * arr = (uint8_t *)calloc(key.length(), sizeof(uint8_t));
         if(arr == NULL){ status = PARSING_FAILED; return 0; }
         key.serialize(arr, key.length());
@@ -207,7 +207,7 @@ size_t PSBT::from_stream(ParseStream *s){
     }
     // parsing keys and values
     while(s->available() && current_section < sections_number){
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
+        if(key.getStatus() == PARSING_INCOMPLETE || bytes_read+bytes_parsed == last_key_pos){
             bytes_read += s->parse(&key);
         }
         if(key.getStatus() == PARSING_DONE){
@@ -225,12 +225,6 @@ size_t PSBT::from_stream(ParseStream *s){
             bytes_parsed += bytes_read;
             return bytes_read;
         }
-        if(key.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&key);
-        }
-        if(value.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&value);
-        }
         if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
             int res = add(current_section, &key, &value);
             if(res < 0){
-- 
2.43.0


From 66db54a5f08c89819f9585c3d56e30df08251c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:32 +0000
Subject: [PATCH 54/60] fix: PSBT: transactions with more than 254 inputs and
 outputs wrapped the section counter

---
 src/PSBT.cpp | 10 +++++-----
 src/PSBT.h   |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 0cbdb13..23d2a9e 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -201,7 +201,7 @@ size_t PSBT::from_stream(ParseStream *s){
         }
         last_key_pos += key.length()+value.length();
     }
-    uint8_t sections_number = 0;
+    size_t sections_number = 0;
     if(last_key_pos > 5){ // tx is already parsed
         sections_number = 1+tx.inputsNumber+tx.outputsNumber;
     }
@@ -245,7 +245,7 @@ size_t PSBT::from_stream(ParseStream *s){
     return bytes_read;
 }
 
-int PSBT::add(uint8_t section, const Script * k, const Script * v){
+int PSBT::add(size_t section, const Script * k, const Script * v){
     if(section == 0 || section > 1+tx.inputsNumber+tx.outputsNumber){
         return 0;
     }
@@ -493,8 +493,8 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
         bytes_written += s->serialize(&tx, offset+bytes_written-cur);
     }
     cur+=tx.length();
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
-    uint8_t section = 0;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t section = 0;
     while(s->available() && section < sections_number){
         if(section > 0 && section < tx.inputsNumber+1){
             uint8_t input = section-1;
@@ -530,7 +530,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
 }
 
 size_t PSBT::length() const{
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
     size_t len = 7 + lenVarInt(tx.length()) + tx.length() + sections_number;
     for(size_t input=0; input<tx.inputsNumber; input++){
         for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
diff --git a/src/PSBT.h b/src/PSBT.h
index 60073a2..e89cd64 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -72,7 +72,7 @@ protected:
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     Script key; // key for parsing
     Script value; // value for parsing
-    uint8_t current_section;
+    size_t current_section;
     size_t last_key_pos;
 public:
     virtual size_t length() const;
@@ -84,7 +84,7 @@ public:
     PSBTOutputMetadata * txOutsMeta;
 
     /** \brief adds key-value pair to section */
-    int add(uint8_t section, const Script * k, const Script * v);
+    int add(size_t section, const Script * k, const Script * v);
     /** \brief Signes everything it can with keys derived from root HD private key */
     uint8_t sign(const HDPrivateKey root);
     /** \brief parses psbt transaction from base64 encoded string */
-- 
2.43.0


From fc4452762c7d3b4aa76ee2614e329774c9132188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:34 +0000
Subject: [PATCH 55/60] fix: copying a PSBT leaked empty arrays

---
 src/PSBT.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 23d2a9e..df1543a 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -546,11 +546,17 @@ PSBT::PSBT(PSBT const &other){
     txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0;
     tx = other.tx;
     status = other.status;
-    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+    if(tx.inputsNumber > 0){
+        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+    }
+    if(tx.outputsNumber > 0){
+        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+    }
     for(size_t i=0; i<tx.inputsNumber; i++){
         txInsMeta[i] = other.txInsMeta[i];
-        txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
+        if(txInsMeta[i].derivationsLen > 0){
+            txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
+        }
         for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
             txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
             txInsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
@@ -560,14 +566,18 @@ PSBT::PSBT(PSBT const &other){
                 memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
             }
         }
-        txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
+        if(txInsMeta[i].signaturesLen > 0){
+            txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
+        }
         for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
             txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
         }
     }
     for(size_t i=0; i<tx.outputsNumber; i++){
         txOutsMeta[i] = other.txOutsMeta[i];
-        txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
+        if(txOutsMeta[i].derivationsLen > 0){
+            txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
+        }
         for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
             txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
             txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
@@ -814,7 +824,9 @@ PSBT& PSBT::operator=(PSBT const &other){
         txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
         for(size_t i=0; i<tx.outputsNumber; i++){
             txOutsMeta[i] = other.txOutsMeta[i];
-            txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
+            if(txOutsMeta[i].derivationsLen > 0){
+                txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
+            }
             for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
                 txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
                 txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-- 
2.43.0


From 178100c9ad388485bd47ce200e72477f568825af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:54 +0000
Subject: [PATCH 56/60] fix: copying a transaction without inputs or outputs
 leaked memory

---
 src/Transaction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 14bad20..28d3726 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -215,8 +215,8 @@ Tx::Tx(const Tx & other){
     version = other.version;
     inputsNumber = other.inputsNumber;
     outputsNumber = other.outputsNumber;
-    txIns = new TxIn[inputsNumber];
-    txOuts = new TxOut[outputsNumber];
+    txIns = inputsNumber > 0 ? new TxIn[inputsNumber] : NULL;
+    txOuts = outputsNumber > 0 ? new TxOut[outputsNumber] : NULL;
     for(unsigned int i=0;i<inputsNumber;i++){
         txIns[i] = other.txIns[i];
     }
@@ -239,8 +239,8 @@ Tx& Tx::operator=(Tx const &other){ // copy-paste =(
     }
     inputsNumber = other.inputsNumber;
     outputsNumber = other.outputsNumber;
-    txIns = new TxIn[inputsNumber];
-    txOuts = new TxOut[outputsNumber];
+    txIns = inputsNumber > 0 ? new TxIn[inputsNumber] : NULL;
+    txOuts = outputsNumber > 0 ? new TxOut[outputsNumber] : NULL;
     for(unsigned int i=0;i<inputsNumber;i++){
         txIns[i] = other.txIns[i];
     }
-- 
2.43.0


From 9e767dcd058066a2bb16d875dd68eed3443270c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:15 +0000
Subject: [PATCH 57/60] fix: PSBT: the empty path of a derivation leaked memory

---
 src/PSBT.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index df1543a..6a52f36 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -95,9 +95,7 @@ size_t PSBT::from_stream(ParseStream *s){
             for(size_t i=0; i<tx.inputsNumber; i++){
                 if(txInsMeta[i].derivationsLen > 0){
                     for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                        if(txInsMeta[i].derivations[j].derivationLen > 0){
-                            free(txInsMeta[i].derivations[j].derivation);
-                        }
+                        free(txInsMeta[i].derivations[j].derivation);
                     }
                     delete [] txInsMeta[i].derivations;
                 }
@@ -111,9 +109,7 @@ size_t PSBT::from_stream(ParseStream *s){
             for(size_t i=0; i<tx.outputsNumber; i++){
                 if(txOutsMeta[i].derivationsLen > 0){
                     for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                        if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                            free(txOutsMeta[i].derivations[j].derivation);
-                        }
+                        free(txOutsMeta[i].derivations[j].derivation);
                     }
                     delete [] txOutsMeta[i].derivations;
                 }
@@ -596,9 +592,7 @@ PSBT::~PSBT(){
         for(size_t i=0; i<tx.inputsNumber; i++){
             if(txInsMeta[i].derivationsLen > 0){
                 for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
+                    free(txInsMeta[i].derivations[j].derivation);
                 }
                 delete [] txInsMeta[i].derivations;
             }
@@ -612,9 +606,7 @@ PSBT::~PSBT(){
         for(size_t i=0; i<tx.outputsNumber; i++){
             if(txOutsMeta[i].derivationsLen > 0){
                 for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
+                    free(txOutsMeta[i].derivations[j].derivation);
                 }
                 delete [] txOutsMeta[i].derivations;
             }
@@ -768,9 +760,7 @@ PSBT& PSBT::operator=(PSBT const &other){
         for(size_t i=0; i<tx.inputsNumber; i++){
             if(txInsMeta[i].derivationsLen > 0){
                 for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
+                    free(txInsMeta[i].derivations[j].derivation);
                 }
                 delete [] txInsMeta[i].derivations;
             }
@@ -784,9 +774,7 @@ PSBT& PSBT::operator=(PSBT const &other){
         for(size_t i=0; i<tx.outputsNumber; i++){
             if(txOutsMeta[i].derivationsLen > 0){
                 for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
+                    free(txOutsMeta[i].derivations[j].derivation);
                 }
                 delete [] txOutsMeta[i].derivations;
             }
-- 
2.43.0


From aea07b0a9a59b6816971d16641c76d2946a663d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:47 +0000
Subject: [PATCH 58/60] fix: parsing a transaction without inputs or outputs
 leaked memory

---
 src/Transaction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 28d3726..7d74cf2 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -403,7 +403,9 @@ size_t Tx::from_stream(ParseStream *s){
             return bytes_read;
         }
         inputsNumber = c;
-        txIns = new TxIn[inputsNumber];
+        if(inputsNumber > 0){
+            txIns = new TxIn[inputsNumber];
+        }
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
         }
@@ -431,7 +433,9 @@ size_t Tx::from_stream(ParseStream *s){
             return bytes_read;
         }
         outputsNumber = c;
-        txOuts = new TxOut[outputsNumber];
+        if(outputsNumber > 0){
+            txOuts = new TxOut[outputsNumber];
+        }
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
         }
-- 
2.43.0


From dc1de6fbc4b8266f5c8e185b8a2298c9c56a07d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:01 +0000
Subject: [PATCH 59/60] fix: PSBT: parsing a transaction without inputs or
 outputs leaked memory

---
 src/PSBT.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 6a52f36..7a2eb17 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -186,12 +186,16 @@ size_t PSBT::from_stream(ParseStream *s){
             bytes_parsed += bytes_read;
             return bytes_read;
         }
-        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+        if(tx.inputsNumber > 0){
+            txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+        }
         for(size_t i=0; i<tx.inputsNumber; i++){
             txInsMeta[i].derivationsLen = 0;
             txInsMeta[i].signaturesLen = 0;
         }
-        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+        if(tx.outputsNumber > 0){
+            txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+        }
         for(size_t i=0; i<tx.outputsNumber; i++){
             txOutsMeta[i].derivationsLen = 0;
         }
-- 
2.43.0


From 2d1efe498c217d6b95a0fc667d3b49fd6df9df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:28 +0000
Subject: [PATCH 60/60] fix: a zero byte in a descriptor was taken for a
 character of the alphabet

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 7a2eb17..bd7bb7e 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -55,7 +55,7 @@ size_t descriptorChecksum(const char * span, size_t spanLen, char * output, size
     for(size_t i=0; i<spanLen; i++){
         char ch = span[i];
         const char * pch = strchr(INPUT_CHARSET, ch);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || ch == 0){ // char not in the alphabet
             return 0;
         }
         size_t pos = pch - INPUT_CHARSET;
-- 
2.43.0

