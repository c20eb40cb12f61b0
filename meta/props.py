# source of properties.jsonl and MANIFEST.json (meta/gen.py writes both)
P = []


def prop(id, title, statement, over, text, why, files, mech, note, level='proof', tech='value-graph (gated SSA) equivalence with a reference function over compiler IR', state=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                  level=level, tech=tech, state=state, na=na))


NOTE = ('Every program point of the entry points is abstracted into a value graph for all inputs at once and compared with the graph of a reference function '
        'written from the standard; equal graphs prove the clause, a separated pair is reported with the guard and the two values. ')

prop('P01', 'Legacy signature digest covers exactly the transaction it signs',
     'For every transaction, input index, script code and sighash value of the ALL family, the legacy signature digest is double SHA-256 over: version, all inputs in order (previous txid, output index, the given script for the signed input and an empty script for every other one, sequence), all outputs in order (amount, script), lock time and the 4-byte sighash value, with Bitcoin CompactSize counts and little-endian integers. '
     'Nothing outside those fields influences the digest and no field is left out.',
     ['inputs'], 'all transactions (any number of inputs/outputs, any script length), all input indexes, all scripts',
     'No existing test computes a signature digest; a wrong field order, width or an omitted field only shows for particular shapes of transaction.',
     ['src/Transaction.cpp', 'src/Script.cpp', 'src/Conversion.cpp', 'src/Hash.cpp'],
     [('legacy digest assembly', 'src/Transaction.cpp Tx::sigHash')],
     NOTE + 'SHA-256 and the allocator are summarised.')
prop('P02', 'Segwit v0 signature digest follows BIP-143 for every transaction',
     'For every transaction, input index, script code and amount, the segwit signature digest is double SHA-256 over version, hash of all outpoints, hash of all sequences, the outpoint of the signed input, script code with its CompactSize length, the 8-byte amount, the sequence of the signed input, hash of all outputs, lock time and 4-byte sighash value. '
     'The three intermediate hashes cover every input or output in order.',
     ['inputs'], 'all transactions, input indexes, script codes, amounts',
     'No existing test exercises it; value and shape dependent mistakes (amount width, long scripts, last input) need unbounded inputs.',
     ['src/Transaction.cpp', 'src/Script.cpp', 'src/Conversion.cpp', 'src/Hash.cpp'],
     [('segwit digest assembly', 'src/Transaction.cpp Tx::sigHashSegwit, hashPrevouts, hashSequence, hashOutputs')],
     NOTE + 'SHA-256 and the allocator are summarised.')
prop('P03', 'Transaction ids hash the canonical serialisation',
     'The transaction id is the byte-reversed double SHA-256 of the serialisation without witness data, whatever witnesses are attached, and the witness id is the byte-reversed double SHA-256 of the serialisation with the segwit marker, flag and every witness stack. '
     'Both cover version, all inputs, all outputs and lock time in consensus order and encoding.',
     ['inputs'], 'all transactions',
     'No existing test computes an id.',
     ['src/Transaction.cpp', 'src/Script.cpp'],
     [('hashing serialisation', 'src/Transaction.cpp Tx::hash, Tx::whash, Tx::txid, Tx::wtxid')],
     NOTE + 'SHA-256 and the allocator are summarised.')
prop('P04', 'ECDSA signing is deterministic, RFC 6979 and low-S',
     'For every private key and 32-byte digest the signature is a function of the key and digest alone: the nonce is the first candidate of the RFC 6979 HMAC-SHA256 generator that is non-zero and below the group order, r is the x coordinate of nonce times generator modulo the order, s is (digest + key*r)/nonce modulo the order replaced by its negation when it exceeds half the order, and the recovery id matches. '
     'A candidate giving r = 0 or s = 0 is skipped and the next candidate is used.',
     ['inputs'], 'all keys and digests, including the negligible-probability retry branches',
     'The retry, overflow and negation branches are taken with negligible probability and no ECDSA test exists in the suite.',
     ['src/utility/trezor/ecdsa.c', 'src/utility/trezor/rfc6979.c', 'src/utility/trezor/hmac.c'],
     [('nonce generator', 'src/utility/trezor/rfc6979.c'), ('signing loop', 'src/utility/trezor/ecdsa.c ecdsa_sign_digest')],
     NOTE + 'Big-number and point primitives are summarised as functions of their operands.')
prop('P05', 'ECDSA verification accepts exactly the valid signatures',
     'Verification accepts a (public key, digest, signature) triple if and only if the key is a valid curve point, r and s both lie in [1, order-1], and the x coordinate of (digest/s)*G + (r/s)*Q modulo the order equals r (a digest that is zero modulo the order is rejected). '
     'Every failed condition rejects; no input makes verification succeed without the equation holding.',
     ['inputs'], 'all keys, digests and signatures, valid or hostile',
     'No existing test verifies an ECDSA signature; the range checks matter only on adversarial inputs.',
     ['src/utility/trezor/ecdsa.c', 'src/Bitcoin.cpp', 'src/BitcoinCurve.cpp'],
     [('verification', 'src/utility/trezor/ecdsa.c ecdsa_verify_digest'), ('public key object', 'src/Bitcoin.cpp PublicKey::verify')],
     NOTE + 'Big-number and point primitives are summarised as functions of their operands.')
prop('P06', 'Public keys are parsed, validated, derived and recovered per SEC 1',
     'A serialised public key is accepted only when its prefix is 02/03 (x coordinate below the field prime, with a square root of matching parity) or 04 with both coordinates below the prime and on the curve; every other byte string is rejected. '
     'The public key of a secret is secret times generator in the requested form, and key recovery returns a key exactly when r and s are in range and the recovery point exists.',
     ['inputs'], 'all byte strings, all secrets, all recovery ids',
     'Invalid points are a measure-zero set that sampled tests do not visit.',
     ['src/utility/trezor/ecdsa.c'],
     [('point decoding and validation', 'src/utility/trezor/ecdsa.c ecdsa_read_pubkey, ecdsa_validate_pubkey, uncompress_coords'), ('recovery', 'src/utility/trezor/ecdsa.c ecdsa_recover_pub_from_sig')],
     NOTE + 'Big-number and point primitives are summarised as functions of their operands.')
prop('P07', 'Schnorr verification rejects everything but valid signatures',
     'Schnorr verification accepts a (public key, 32-byte message, signature) triple exactly when r is the x coordinate of a curve point, s is below the group order, and s*G equals R + e*P, where R is the even-y point with x coordinate r, P the even-y point with the x coordinate of the public key and e the BIP-340 challenge hash of r, the key and the message. '
     'Schnorr signing is deterministic: the secret is negated when its public point has odd y, the nonce is the BIP-340 tagged nonce hash of that secret, the x-only key and the message, negated when its point has odd y, r is the x coordinate of the nonce point and s is nonce + e*secret modulo the order.',
     ['inputs'], 'all keys, messages and signatures, including out-of-range encodings',
     'The existing test covers signing of a few vectors; out-of-range and negated encodings are a measure-zero set.',
     ['src/BitcoinCurve.cpp', 'src/Bitcoin.cpp'],
     [('Schnorr sign and verify', 'src/Bitcoin.cpp PrivateKey::schnorr_sign, PublicKey::schnorr_verify')],
     NOTE + 'Big-number and point primitives are summarised as functions of their operands.')
prop('P08', 'Key derivation follows BIP-32 for every key, index and path',
     'Deriving a child from an extended private or public key, for every parent and every 32-bit index, gives exactly the scalar, point, chain code, depth, parent fingerprint and child number of BIP-32, and the script type and network implied by the BIP-44/45/48/49/84 level; a hardened child of a public key, and an index outside 32 bits, yield an invalid key instead of another one. '
     'Index arrays and path strings derive the children in order, for every path length, and a path with an unexpected character yields an invalid key. '
     'The master key of a seed is the split of HMAC-SHA512 under the key "Bitcoin seed", and the extended public key of a private key carries the same chain code, depth, fingerprint, number, type and network.',
     ['inputs'], 'all parents, indexes, index arrays and path strings of any length, all seeds',
     'The stable tests derive no key at all; the index, depth and path space is unbounded.',
     ['src/HDWallet.cpp', 'src/BitcoinCurve.cpp'],
     [('child derivation', 'src/HDWallet.cpp HDPrivateKey::child, HDPublicKey::child'), ('paths', 'src/HDWallet.cpp HDPrivateKey::derive, HDPublicKey::derive'), ('master key', 'src/HDWallet.cpp HDPrivateKey::fromSeed')],
     NOTE + 'HMAC is expanded down to the SHA-512 primitive; bignum and point primitives are summarised as functions of their operands.')
prop('P09', 'Extended keys are encoded and parsed per BIP-32 and SLIP-132',
     'The text of an extended key is Base58Check of 78 bytes: the version bytes of its network and script type, depth, parent fingerprint, big-endian child number, chain code and key. '
     'Parsing accepts exactly the 78-byte payloads with a known version, a private key that is prefixed by zero and not zero modulo the group order or a compressed public key on the curve, and restores all of these fields; anything else leaves an invalid key.',
     ['inputs'], 'all extended keys; all payloads of any length',
     'No stable test parses or prints an extended key; malformed payloads are adversarial inputs.',
     ['src/HDWallet.cpp', 'src/Networks.cpp'],
     [('payload', 'src/HDWallet.cpp HDPrivateKey::to_stream/from_stream, HDPublicKey::to_stream/from_stream'), ('text', 'src/HDWallet.cpp xprv, xpub, from_str')],
     NOTE + 'Base58Check itself is a summarised function here (it is the subject of another property).')
prop('P10', 'DER signatures: encoding is canonical, parsing is strict',
     'A signature is written as 30 len 02 len r 02 len s with minimal positive big-endian integers, for every r and s; the number of bytes reported is the number of bytes written. '
     'Parsing accepts exactly the inputs that have this structure with matching lengths and integers that fit 32 bytes, and returns these r and s; every other input is rejected.',
     ['inputs'], 'all r and s; all inputs of every length up to 74 bytes, for every combination of the three length bytes',
     'No existing test parses a DER signature; malformed encodings are adversarial inputs.',
     ['src/Bitcoin.cpp', 'src/utility/trezor/ecdsa.c'],
     [('DER', 'src/Bitcoin.cpp Signature::der, Signature::fromDer, Signature::from_stream/to_stream')],
     NOTE + 'The declared lengths are enumerated; all other bytes stay symbolic.')
prop('P11', 'Private keys: WIF and secret import/export are exact and strict',
     'The WIF text of a private key is Base58Check of the network prefix, the 32-byte secret and, for a compressed key, a 01 byte. '
     'Import accepts exactly these payloads with a known prefix and a secret in [1, order-1], restores secret, network and compression, derives the matching public key, and leaves an invalid key otherwise.',
     ['inputs'], 'all secrets, networks and compression flags; all payloads of any length',
     'The stable tests import no WIF; malformed payloads and out-of-range secrets are adversarial inputs.',
     ['src/Bitcoin.cpp'],
     [('WIF', 'src/Bitcoin.cpp PrivateKey::wif, PrivateKey::fromWIF'), ('secret', 'src/Bitcoin.cpp PrivateKey constructors, setSecret')],
     NOTE + 'Base58Check is a summarised function here.')
prop('P12', 'Point and scalar objects implement the group, and ECDH its shared point',
     'The operators on points and scalars (+, -, unary -, *, ==, !=, <, >, <=, >=) compute the group and field operation they denote, including with the point at infinity, equal, opposite and zero operands, and order public keys by their serialisation. '
     'The ECDH secret of a private and a public key is the SHA-256 of both coordinates of the point secret times public key, or its x coordinate alone when hashing is off.',
     ['inputs'], 'all operand values, including infinity, zero, equal and opposite operands',
     'The exceptional operands are a measure-zero set that sampled tests do not visit.',
     ['src/BitcoinCurve.cpp', 'src/Bitcoin.cpp', 'src/utility/trezor/ecdsa.c', 'src/utility/trezor/bignum.c', 'src/utility/trezor/secp256k1.c', 'src/utility/trezor/secp256k1.table'],
     [('operators', 'src/BitcoinCurve.cpp ECPoint, ECScalar'), ('ECDH', 'src/Bitcoin.cpp PrivateKey::ecdh'), ('group law', 'src/utility/trezor/ecdsa.c point_add, point_double, point_jacobian_add, point_jacobian_double, point_multiply, scalar_multiply'), ('field arithmetic', 'src/utility/trezor/bignum.c'), ('curve constants', 'src/utility/trezor/secp256k1.c, secp256k1.table')],
     NOTE + 'Each layer is compared over the summarised primitives of the layer below: operators over points, points over field elements, field elements over limbs. Modular inversion is summarised only.')
prop('P13', 'Standard scripts and data pushes are byte-exact',
     'For every key, script and key set, the P2PKH, P2WPKH, P2SH, P2WSH, multisig and sorted multisig (keys in ascending order of their encoding) scripts have exactly the standard bytes, an invalid threshold or more than 16 keys gives an empty script, and script classification recognises exactly the four standard templates. '
     'Pushing an opcode, bytes, a public key, a signature or a script to a script, or an element to a witness, appends exactly the push opcode or length and the data to what was there and returns the new length; a push beyond 10000 bytes leaves the object empty.',
     ['inputs'], 'all keys, scripts, thresholds 0..255, up to 16 keys (any order for sorting up to 4), data of representative lengths across every length-encoding boundary',
     'The stable tests build no script at all; boundary lengths and key orders are not sampled.',
     ['src/Script.cpp', 'src/Bitcoin.cpp'],
     [('script templates', 'src/Script.cpp pkh, wpkh, sh, wsh, multi, sortedmulti, Script constructors, Script::type'), ('pushes', 'src/Script.cpp Script::push, Witness::push')],
     NOTE + 'Element lengths are enumerated over the encoding boundaries; contents stay symbolic.')
prop('P14', 'Addresses encode and decode exactly the script they stand for',
     'The legacy, nested segwit and native segwit address of a key, an HD key (by its script type) and a script is the Base58Check or segwit encoding of the right hash with the prefix of the network, and a script without an address form gives none. '
     'Building a script from an address gives exactly the P2PKH, P2SH or witness script the text encodes for a known network prefix, and an empty script for everything else.',
     ['inputs'], 'all keys, scripts, networks and address texts',
     'The stable tests produce and parse no address.',
     ['src/Script.cpp', 'src/Bitcoin.cpp', 'src/HDWallet.cpp', 'src/Networks.cpp'],
     [('from keys', 'src/Bitcoin.cpp PublicKey::legacyAddress, segwitAddress, nestedSegwitAddress'), ('from scripts', 'src/Script.cpp Script::address'), ('to scripts', 'src/Script.cpp Script::fromAddress'), ('prefixes', 'src/Networks.cpp')],
     NOTE + 'The text codecs are summarised functions here.')
prop('P15', 'Text and integer encodings are exact and never write past their buffer',
     'Encoding bytes as hex, binary digits, Base64 (padded or not, URL-safe or not), Base58, Base58Check and Base43, and decoding such text, give exactly the standard result and length for every content, keep leading zeros, fill the output only within its given size, and return 0 when the output is too small, the checksum is wrong or the text is malformed (hex decoding skips leading non-hex characters and stops at the first bad pair, Base64 decoding ends at the first padding character). '
     'The predicted lengths match what encoding needs, and fixed-width and variable-length integers are read and written in the stated byte order and minimal length.',
     ['inputs'], 'all contents, at input sizes from 0 upwards covering every group and carry position, and output sizes around the needed one',
     'Tests check a few fixed strings; malformed characters, boundary sizes, leading zeros and short buffers are not sampled.',
     ['src/Conversion.cpp', 'src/Conversion.h'],
     [('encoders', 'src/Conversion.cpp toHex, toBin, toBase64, toBase58, toBase58Check, toBase43'), ('decoders', 'src/Conversion.cpp fromHex, fromBin, fromBase64, fromBase58, fromBase58Check, fromBase43'), ('integers', 'src/Conversion.cpp littleEndianToInt, bigEndianToInt, intToLittleEndian, intToBigEndian, readVarInt, writeVarInt, lenVarInt')],
     NOTE + 'Sizes are enumerated, contents symbolic; characters range over all 256 values.')
prop('P16', 'Bech32 and segwit address text follows BIP-173 exactly',
     'Encoding a human-readable prefix with 5-bit groups, or a witness version and program, gives exactly the BIP-173 text with its checksum, and fails for characters, groups, versions or program lengths outside the standard. '
     'Decoding accepts exactly the well-formed texts (one case only, known characters, right checksum, expected prefix, at most 90 characters for an address, zero padding, version 0 to 16, program of 2 to 40 bytes and 20 or 32 for version 0) and returns their prefix, version and data.',
     ['inputs'], 'all contents, over enumerated text lengths, separator positions and program lengths; case and character classes symbolic',
     'No stable test touches bech32; malformed texts, boundary characters and lengths are adversarial inputs.',
     ['src/utility/segwit_addr.c'],
     [('bech32', 'src/utility/segwit_addr.c bech32_encode, bech32_decode, bech32_polymod_step'), ('segwit', 'src/utility/segwit_addr.c segwit_addr_encode, segwit_addr_decode, convert_bits')],
     NOTE + 'Lengths are enumerated, characters symbolic; the checksum step is decided separately in an affine domain over GF(2) and summarised elsewhere.')
prop('P17', 'Transactions and their parts are parsed and serialised exactly, also in pieces',
     'Parsing scripts, witnesses, inputs, outputs and transactions (legacy and segwit, raw or hex) fills every field with exactly what the wire text says, consumes exactly its bytes, asks for more on every proper prefix, gives the same result when the data arrives in two pieces split anywhere or when the object is reused, and fails on overlong lengths, counts above 252 and an unknown segwit flag. '
     'Serialising writes exactly the wire text, from any offset into any buffer size and never beyond it, and the reported lengths match. '
     'Objects built, extended, copied or assigned hold exactly the given content and stay independent of their source.',
     ['inputs', 'histories'], 'all contents, over enumerated layouts (numbers of inputs, outputs, witness elements, script sizes around every length-encoding boundary), every cut, split, offset and buffer size of the small ones',
     'The stable tests parse and serialise no transaction; the split, prefix and offset space is not sampled.',
     ['src/Transaction.cpp', 'src/Script.cpp', 'src/BaseClasses.cpp', 'src/Bitcoin.h'],
     [('parsing', 'src/Transaction.cpp Tx::from_stream, TxIn::from_stream, TxOut::from_stream; src/Script.cpp Script::from_stream, Witness::from_stream; src/BaseClasses.cpp ParseByteStream'), ('serialising', 'to_stream and length of the same classes; src/BaseClasses.cpp SerializeByteStream'), ('copies', 'copy constructors and assignment of Script, Witness, Tx; Tx::addInput, Tx::addOutput')],
     NOTE + 'Counts and lengths are enumerated, all other bytes symbolic.')
prop('P18', 'Signing an input produces the signature and spending data of its script type',
     'Signing an input of a transaction with a key (default sighash ALL) signs exactly the digest of that input and returns that signature. '
     'A legacy input gets the scriptSig: signature with sighash byte, public key, and for anything but P2PKH the redeem script pushed; a segwit input gets the witness: signature, public key and, for anything but P2WPKH, the script, with an empty scriptSig or, when nested in P2SH, the push of the witness program. '
     'Every other field of the transaction stays as it was.',
     ['inputs'], 'all keys (compressed or not), amounts, contents of the transaction and scripts, over enumerated transaction layouts, input indexes, script sizes and first bytes of r and s',
     'The stable tests sign no transaction; the result depends on script type, nesting, script length and input index.',
     ['src/Transaction.cpp', 'src/Script.cpp', 'src/Bitcoin.h'],
     [('signing', 'src/Transaction.cpp Tx::signInput, Tx::signSegwitInput; src/Bitcoin.h key-only overloads'), ('pushes', 'src/Script.cpp Script::push, Witness::push')],
     NOTE + 'ECDSA and the hashes are summarised (decided by other properties); counts and lengths are enumerated, all other bytes symbolic.')
prop('P19', 'Mnemonics carry the entropy and checksum of BIP-39 and give its seed',
     'A mnemonic made from 16, 20, 24, 28 or 32 bytes of entropy (given, hashed from user data, or random) is exactly the sentence of BIP-39 over the English word list, and other sizes give none; reading a sentence of 12, 15, 18, 21 or 24 listed words, separated by single spaces, recovers exactly its bits, and every other text is refused. '
     'The validity check accepts exactly the sentences whose checksum bits match. '
     'The seed of a wallet restored from a mnemonic is PBKDF2-HMAC-SHA512 with 2048 rounds over the sentence and the salt "mnemonic" plus passphrase.',
     ['inputs'], 'all entropies, all user data, all words at every position (with the other words fixed), enumerated malformed texts, all characters of sentence and passphrase at enumerated lengths around the HMAC block size',
     'The stable tests use one passphrase and one sentence; wrong checksum lengths, bit positions and block boundaries show only for particular sizes and contents.',
     ['src/utility/trezor/bip39.c', 'src/utility/trezor/bip39_english.h', 'src/Bitcoin.cpp', 'src/HDWallet.cpp'],
     [('sentences', 'src/utility/trezor/bip39.c mnemonic_from_data, mnemonic_to_entropy, mnemonic_check; src/Bitcoin.cpp generateMnemonic, mnemonicToEntropy, checkMnemonic'), ('word list', 'src/utility/trezor/bip39_english.h'), ('seed', 'src/HDWallet.cpp HDPrivateKey::fromMnemonic')],
     NOTE + 'The word list is a parameter of the analysis (the list itself is compared constant by constant). SHA-256, SHA-512 and the random source are summarised.')
prop('P20', 'Hashes, HMAC and PBKDF2 are the standard functions of the whole message',
     'SHA-256, SHA-512 and RIPEMD-160 give the standard digest of a message of any length, however it is split into writes, including messages whose bit length needs the upper counter word; double SHA-256, hash160 and BIP-340 tagged hashes are exactly those compositions, for raw data, text and strings and through the stream objects, also when reused. '
     'HMAC-SHA256 and HMAC-SHA512 follow RFC 2104 for keys shorter than, equal to and longer than a block, and PBKDF2 follows RFC 8018 for every round count and output length.',
     ['inputs', 'histories'], 'all contents and keys; message lengths 0 to two blocks and a few longer ones at once and in up to three pieces, any preceding number of blocks, key lengths 0 to beyond a block, enumerated password, salt, output lengths and small round counts',
     'The tests hash a few fixed strings; padding boundaries, splits, long messages, key lengths and counters are not sampled.',
     ['src/utility/trezor/sha2.c', 'src/utility/trezor/ripemd160.c', 'src/utility/trezor/hmac.c', 'src/utility/trezor/pbkdf2.c', 'src/Hash.cpp', 'src/Hash.h'],
     [('compression', 'src/utility/trezor/sha2.c sha256_Transform, sha512_Transform; src/utility/trezor/ripemd160.c ripemd160_process'), ('padding and chaining', 'Init, Update, Final of the three hashes'), ('keyed', 'src/utility/trezor/hmac.c, src/utility/trezor/pbkdf2.c'), ('interface', 'src/Hash.cpp')],
     NOTE + 'The compression functions are compared with the standard on their own and are opaque in the rest; HMAC and the interface are compared over opaque hashes of symbolic length.')
prop('P21', 'PSBTs are parsed, copied and serialised exactly, also in pieces',
     'Parsing a partially signed transaction keeps exactly the fields its key-value pairs give (global transaction and extended keys, and per input and output the attached transactions, amounts, scripts, derivations and signatures), ignores unknown pairs, consumes exactly its bytes, asks for more on every proper prefix, gives the same result in pieces or into a reused object, and fails on a wrong magic, malformed keys or values, invalid points and an attached transaction that is not the one spent. '
     'Serialising writes exactly the kept pairs from any offset into any buffer size, and the reported length matches. '
     'Copies hold the same content and are independent; none of this touches memory outside the data or leaks it.',
     ['inputs', 'histories'], 'all contents, over enumerated layouts of key-value pairs, every cut, splits into pieces, offsets and buffer sizes of the small ones',
     'The stable tests parse no PSBT; malformed pairs and the positions of cuts are adversarial and far too many to sample.',
     ['src/PSBT.cpp', 'src/PSBT.h'],
     [('parsing', 'src/PSBT.cpp PSBT::from_stream, PSBT::add, PSBTInputMetadata, PSBTOutputMetadata, PSBTDerivation'), ('serialising', 'src/PSBT.cpp PSBT::to_stream, PSBT::length'), ('copies', 'src/PSBT.h copy constructors and assignments')],
     NOTE + 'Accesses of the analysed functions are also compared with the bounds and life time of every object they reach. Layouts are enumerated, all other bytes symbolic; base64 text conversion is outside.')
prop('P22', 'A wallet signs, prices and recognises exactly its own part of a PSBT',
     'Signing a PSBT with a root key adds, for every input and every listed derivation whose fingerprint is the root\'s and whose path leads to the listed public key, the signature by the derived key over the digest of that input (segwit when the input has a witness script or its redeem script or spent output is P2WPKH, else legacy; with the script code of that type and the spent amount), keeps all other signatures, and returns how many times it signed. '
     'The fee is the sum of the spent amounts minus the sum of the outputs, and 0 when an amount is missing or the outputs exceed the inputs. '
     'An output is recognised as own exactly when it exists and one of its listed derivation paths leads from the given key to the listed public key.',
     ['inputs', 'histories'], 'all keys, paths, amounts and contents, over enumerated numbers of inputs, derivations, path lengths and script types',
     'The stable tests sign no PSBT; mistakes need several inputs, keys or derivations of particular shape.',
     ['src/PSBT.cpp', 'src/PSBT.h'],
     [('signing', 'src/PSBT.cpp PSBT::sign, PSBT::signInput'), ('fee', 'src/PSBT.cpp PSBT::fee'), ('own outputs', 'src/PSBT.cpp PSBT::isMine')],
     NOTE + 'Key derivation, ECDSA and the digests are summarised (decided by other properties).')

prop('P23', 'Descriptor checksums follow BIP-380 and refuse foreign characters',
     'The checksum of an output descriptor is the eight-character BIP-380 checksum of exactly the given characters, for every length and content. '
     'A descriptor with a character outside the alphabet gives no checksum, and nothing is written beyond the given output size; an output below eight bytes gives none.',
     ['inputs'], 'all characters at every position of descriptors of up to 13 characters, any characters at chosen positions of longer ones, enumerated output sizes',
     'The stable tests compute no descriptor checksum.',
     ['src/PSBT.cpp'],
     [('checksum', 'src/PSBT.cpp descriptorChecksum, PolyMod')],
     NOTE + 'The checksum step is compared with the standard on its own and opaque in the rest.')

NA = 'Static analysis of the source cannot decide this here: '
prop('P90', 'Secret values do not influence timing or memory access patterns',
     'The time and the memory access pattern of key generation, signing and derivation do not depend on private keys, nonces or seeds.',
     ['inputs'], 'all secrets, compilers and targets',
     'Timing is not an observable of a functional test.',
     ['src/utility/trezor/ecdsa.c', 'src/utility/trezor/bignum.c'],
     [('scalar multiplication', 'src/utility/trezor/ecdsa.c scalar_multiply, point_multiply'), ('inversion', 'src/utility/trezor/bignum.c bn_inverse')],
     '', na=NA + 'the source itself branches and indexes on secrets by design (bn_inverse, the table lookup of scalar_multiply, bn_is_less in nonce rejection), so the claim is false as a source property, and what remains is decided by the machine code and the micro-architecture of each target.')
prop('P91', 'Generated keys and mnemonics are unpredictable',
     'The random bytes behind generated mnemonics, keys and blinding factors are uniformly distributed and unpredictable.',
     ['inputs', 'configurations'], 'all platforms and random sources',
     'A test cannot observe entropy.',
     ['src/utility/trezor/rand.c', 'src/utility/trezor/rand.h'],
     [('random source', 'src/utility/trezor/rand.c random32, random_buffer')],
     '', na=NA + 'the quality of the randomness comes from the hardware or operating system behind a function the application supplies; the source determines only how the bytes are used, which the mnemonic property covers.')
prop('P92', 'Operations never exhaust the stack or heap of the device',
     'No accepted transaction, script or PSBT makes the library run out of stack or heap on a supported microcontroller.',
     ['inputs', 'configurations'], 'all inputs and supported targets',
     'Tests run on a host with gigabytes of memory.',
     ['src/Transaction.cpp', 'src/Script.cpp', 'src/PSBT.cpp'],
     [('allocations', 'src/Transaction.cpp Tx::from_stream, src/Script.cpp Script::from_stream, src/PSBT.cpp PSBT::add')],
     '', na=NA + 'the number and size of allocations are chosen by the input and the limit is a quantity of the target, neither of which the source bounds.')
prop('P93', 'The fast modular inverse is the inverse for every operand',
     'The fast modular inverse of every non-zero residue of the field prime and of the group order is its inverse, and it terminates.',
     ['inputs'], 'all residues modulo the two primes',
     'A handful of vectors does not cover the 2^256 operands.',
     ['src/utility/trezor/bignum.c'],
     [('inversion', 'src/utility/trezor/bignum.c bn_inverse')],
     '', na=NA + 'correctness of the shift-and-subtract inversion is a loop invariant over 512 data-dependent iterations of 256-bit arithmetic; value graphs of it do not converge and no simpler abstraction entails it. All users of the inverse are decided over its summary.')
