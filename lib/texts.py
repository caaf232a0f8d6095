"""Text of every property; gen.py writes properties.jsonl and MANIFEST.json from it."""
T = []
def P(id, title, statement, over, qtext, why, files, mech, note, state=(), observe=(), hook=None):
    T.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook), note=note))

P("C01", "The block cipher is GOST 28147-89 for every key, S-box and block",
  "Encrypting a 64-bit block gives the result of the 32-round GOST 28147-89 transform with the S-boxes and key that were set, and decrypting inverts it, whatever random mask the implementation keeps its key under. "
  "This holds for any number of blocks, in place or not, and encryption changes neither the key, the S-boxes nor anything outside the output; reading the key back returns the key set, in either byte order convention. "
  "Destroying a context erases the key and its mask.",
  ["inputs"], "every 256-bit key, every S-box set, every block, every mask value, every block count",
  "The tests reach the block cipher through a few messages under two fixed S-boxes and one random mask; a wrong table entry or a mask-dependent error on other values passes them.",
  ["dstulib/gost/gost89.c", "dstulib/gost/gost89.h"], [("gostcrypt/gostdecrypt", "dstulib/gost/gost89.c"), ("kboxinit", "dstulib/gost/gost89.c"), ("gost_key/gost_get_key/magma_key", "dstulib/gost/gost89.c"), ("gost_enc/gost_dec", "dstulib/gost/gost89.c")],
  "All functions proved for all inputs (loop over blocks cut by an invariant). Trusted: CBMC, solvers, RAND_priv_bytes modelled as arbitrary bytes.",
  state=[("gost_ctx", "expanded S-box tables, masked key and mask", "dstulib/gost/gost89.h")], observe=["gost_enc", "gost_dec", "gost_get_key"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C02", "CFB encryption and decryption do not depend on how the data is cut up",
  "Encrypting or decrypting a message with the CFB cipher gives exactly the bytes of CFB mode over the block cipher, for every message length and every way of splitting it into non-empty updates, in place or into a separate buffer. "
  "Each update returns the number of bytes given, writes only that many output bytes, reads only that many input bytes, and leaves the key, the S-boxes and the original IV unchanged.",
  ["inputs", "histories"], "every message, length, IV, and every sequence of non-empty update sizes, both directions",
  "The tests encrypt whole buffers of one or two sizes; a mistake in the carry from one partial block to the next shows only for particular split positions.",
  ["engine/cipher.c", "dstulib/gost/gost89.c"], [("dstu_cipher_do_cipher", "engine/cipher.c"), ("gost_enc_cfb/gost_dec_cfb", "dstulib/gost/gost89.c")],
  "Bulk loops proved for every block count. The update function: proved for every length from a block boundary and for parts of the mid-block cases (all of them in the thorough tier); in the quick tier also bounded proofs for 6 exact lengths from every state, labelled bounded. EVP accessors assumed to be plain fields.",
  state=[("num/iv/buf of the cipher context", "bytes left of the current gamma block, feedback register, gamma", "engine/cipher.c")], observe=["EVP_CipherUpdate output"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C03", "The MAC covers exactly the message, and key meshing derives the standard key",
  "The GOST 28147-89 MAC of a message is the 16-round chaining of all its bytes in order, from a zero or given IV, with the last block zero padded and a single-block message extended by a zero block. "
  "A MAC of n bits consists of the n low-order bits of the final state, and nothing beyond its last byte is written. "
  "CryptoPro and ACPKM key meshing replace the key (and IV) by exactly the values the standards define.",
  ["inputs"], "every key, S-box set, IV, message length and MAC length from 0 to 64 bits",
  "No test computes a MAC at all; lengths that are not multiples of the block or byte size are never reached.",
  ["dstulib/gost/gost89.c"], [("mac_block, gost_mac, gost_mac_iv, get_mac", "dstulib/gost/gost89.c"), ("cryptopro_key_meshing, acpkm_magma_key_meshing", "dstulib/gost/gost89.c")],
  "All functions proved for every input (message loop cut by an invariant). Assumes message length below 2^32-16.",
  observe=["gost_mac output buffer"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C04", "A cipher context always runs under the key, S-box and IV it was last given",
  "After any sequence of initialisation, key, IV, S-box and ASN.1 parameter calls in any order, a GOST 28147 cipher context works under the last key, the last S-box (the default one if none was given) and starts the stream from the last IV at a block boundary. "
  "The ASN.1 parameters written by a context carry its IV and its S-box and restore both in another context; parameters with a wrong tag, IV length or S-box length, unknown controls and failing library calls are refused without leaks. The method's identifiers and sizes are those of the algorithm.",
  ["inputs", "histories", "crash_points"], "every order of setting calls on a context, every key, IV and S-box, every parameter encoding, every failing library call",
  "Tests initialise contexts in one order with one S-box; the order a CMS decryption uses (parameters before the key) and S-box changes in mid-stream are not sampled.",
  ["engine/cipher.c"], [("dstu_cipher_init, dstu_cipher_ctrl, dstu_cipher_set_asn1_parameters, dstu_cipher_get_asn1_parameters, dstu_cipher_new, dstu_cipher_free", "engine/cipher.c")],
  "Each call proved as a transition on an arbitrary context state, so every history is covered; the block cipher enters through the contracts of C01 and C05, EVP_CIPHER_CTX accessors and ASN.1 functions are assumed contracts. Two defects found and fixed (F11, F12).",
  observe=["ciphertext", "EVP_CIPHER_param_to_asn1 octets", "return values"])
P("C05", "S-box representations convert without loss and the default S-box is DKE No. 1",
  "Unpacking a 64-byte S-box yields 8 rows of 16 nibbles, high nibble first, and packing is its exact inverse; the S-boxes read back from a cipher context are those installed in it. "
  "The built-in default S-box is DKE No. 1 of the Ukrainian standard, an S-box is recognised as the default exactly when all its bytes agree, and copying an S-box yields an independent copy.",
  ["inputs"], "every 64-byte S-box",
  "Tests use the default S-box and one custom one; a lost nibble in another row or a partial comparison goes unseen.",
  ["dstulib/params.c"], [("unpack_sbox, pack_sbox, dstu_get_sbox", "dstulib/params.c"), ("is_default_sbox, copy_sbox, default_sbox", "dstulib/params.c")],
  "All functions proved for all inputs; kboxinit's contract is proved in C01.", observe=["packed and unpacked S-boxes"])
P("C06", "The digest is GOST 34.311-95 of the message for every length and every chunking",
  "The digest of a message equals the GOST 34.311-95 hash of its bytes under the S-boxes in use, for every message length including empty, and is the same however the message is split into updates, including empty ones. "
  "The final value accounts for the exact message length in bits and for the 256-bit sum of all blocks, and restarting a context makes it independent of what was hashed before.",
  ["inputs", "histories"], "every message, every sequence of update sizes, every S-box set",
  "Tests hash a handful of messages in one update; boundary lengths (multiples of 32, one off), carries across the whole 256-bit sum and long lengths are not reached.",
  ["dstulib/gost/gosthash.c"], [("hash_step", "dstulib/gost/gosthash.c"), ("hash_block", "dstulib/gost/gosthash.c"), ("finish_hash, start_hash", "dstulib/gost/gosthash.c")],
  "All functions proved for every input and update length (update loop cut by an invariant). The block cipher is an uninterpreted function here (proved in C01). Assumes fewer than 2^60 bytes.",
  state=[("gost_hash_ctx", "chaining value, sum, length, pending bytes", "dstulib/gost/gosthash.h")], observe=["EVP_DigestFinal output"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C07", "Digest contexts are independent, use the right S-box and are wiped",
  "A digest context starts from the empty state with the S-box of the attached signing key if it has one and the default S-box otherwise; setting a custom S-box succeeds exactly for a 64-byte S-box and a refused request changes nothing. "
  "A copied context has the same state as the original and from then on the two do not influence each other, whichever is used or freed first. "
  "Cleaning up a context leaves no message data in it.",
  ["inputs", "histories"], "every state of a context, every S-box, every order of operations on a context and its copies",
  "Tests never copy a digest context nor change its S-box half way; sharing between copies shows only when both are used afterwards.",
  ["engine/md.c"], [("dstu_md_init, dstu_md_ctrl", "engine/md.c"), ("dstu_md_copy, dstu_md_cleanup", "engine/md.c")],
  "All methods proved against the hash functions' contracts (proved in C06). EVP accessors assumed to return the stored pointers; the attached key is assumed to be a DSTU key.",
  state=[("dstu_digest_ctx", "hash state and its own cipher context", "engine/md.c")], observe=["EVP_DigestFinal output", "EVP_MD_CTX_copy_ex"])
P("C08", "Verification accepts exactly the valid signatures",
  "Verifying a signature (r, s) over a hash succeeds exactly when r and s are both non-zero and below the group order and r equals the field-element product of the hash with the x coordinate of the point sG + rQ, truncated to one bit less than the order. "
  "Hash bytes are read as a little-endian number cut to the field degree, a zero result being replaced by one; every other outcome, including any failure of a library call on the way, is a rejection or an error and never an acceptance.",
  ["inputs", "crash_points"], "every curve and public key, every hash of 1 to 64 bytes, every signature, and every point at which a library call can fail",
  "Tests verify a few good signatures and one bad one; out-of-range parts, degenerate hashes and failing library calls are not reached.",
  ["engine/sign.c"], [("dstu_do_verify", "engine/sign.c"), ("hash_to_field, field_to_bn, bn_truncate_bits", "engine/sign.c")],
  "All functions proved for every input against contracts of the BIGNUM/EC library (trusted); the bit truncation loop is cut by an invariant. Curve arithmetic itself is the library's.",
  observe=["result of EVP_PKEY_verify"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C09", "Signing yields a valid signature from a fresh secret ephemeral, and always can",
  "A successful signature (r, s) satisfies the verification equation for the signer's public key, with r and s non-zero and in range; its ephemeral scalar is drawn anew, over the whole range of the group order, for every attempt and is never zero, reused or derived from anything else. "
  "Signing never loops forever because of the value of the hash, and when the random source or a library call fails no signature is produced.",
  ["inputs", "histories", "crash_points"], "every curve, private key, hash of 1 to 64 bytes, every sequence of random draws and every failing library call",
  "The tests sign one digest and verify it; reuse or bias of the ephemeral, a retry with stale state and degenerate hashes leave those tests passing.",
  ["engine/sign.c"], [("dstu_do_sign", "engine/sign.c"), ("hash_to_field", "engine/sign.c")],
  "Proved for every input with the retry loop cut by an invariant, against contracts of the BIGNUM/EC library. That the library's random source is unpredictable is assumed. One defect was found and fixed (F02).",
  observe=["result of EVP_PKEY_sign"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C10", "Signatures are carried as the standard's octet string, unambiguously",
  "A signature is a DER octet string of two equal halves, s then r, each padded in front with zeros to the byte length of the group order, the whole reversed for the little-endian algorithm; asking for the size writes nothing and reports the size actually produced, and a buffer that is too small is refused untouched. "
  "Verification accepts that encoding or the bare octets, requires an even length of at least two field elements, takes the halves in the same order, and reports failure on everything else without reading outside the given bytes.",
  ["inputs", "crash_points"], "every r and s, every order size, both byte orders, every signature byte string and buffer size",
  "Tests sign and verify with one curve and full-size buffers; halves with leading zeros and odd or short lengths come up too rarely to be tested.",
  ["engine/pmeth.c"], [("dstu_pkey_sign, dstu_pkey_verify", "engine/pmeth.c")],
  "Proved for every input against the contracts of C08/C09 and of the ASN.1/BIGNUM library (trusted).",
  observe=["signature bytes from EVP_PKEY_sign", "result of EVP_PKEY_verify"])
P("C11", "Key generation gives a fresh valid key on the chosen curve with its own S-box",
  "A generated key has a private scalar drawn anew from the library's random source over 1 to n-1, the public point Q = -dG for it, the curve and S-box selected for the generation (the 257-bit curve and no custom S-box when nothing was selected, or those of the parameters it is generated from), and shares no memory with the context it came from. "
  "A refused control request, by code or by name, leaves the context as it was, and when the random source or any library call fails no key is produced and nothing leaks.",
  ["inputs", "histories", "crash_points"], "every curve, S-box and sequence of control requests, every random draw, every failing library call",
  "Tests generate keys on a few curves and check a signature; a biased range, a shared S-box or a half-applied setting keeps those tests passing.",
  ["dstulib/params.c", "engine/pmeth.c"], [("dstu_generate_key, dstu_add_public_key", "dstulib/params.c"), ("dstu_pkey_keygen, dstu_pkey_ctrl, dstu_pkey_ctrl_str, dstu_pkey_copy, dstu_pkey_cleanup, dstu_pkey_init", "engine/pmeth.c")],
  "All functions proved for every input against contracts of the EC library (trusted) and of key.c/params.c (proved in C14, C17); the retry loop for a zero draw is cut by an invariant. Unpredictability of the random source is assumed.",
  observe=["EVP_PKEY_keygen", "EVP_PKEY_CTX_ctrl", "EVP_PKEY_CTX_ctrl_str"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C12", "Numbers and byte strings are converted to fixed-length encodings without loss",
  "Encoding a positive number into a buffer yields its big-endian bytes right-aligned with leading zeros, fills the whole buffer and nothing else, and is refused without writing when the number does not fit. "
  "Reversing bytes in place or into another buffer yields exactly the bytes in opposite order for every length, including odd ones and zero, touches nothing else, and reversing twice restores the original.",
  ["inputs"], "every number and buffer length, every byte string",
  "Tests use full-size numbers and a few even lengths; leading zeros and odd lengths appear only by chance.",
  ["dstulib/params.c"], [("bn_encode, reverse_bytes, reverse_bytes_copy", "dstulib/params.c")],
  "Proved for every length (loops cut by invariants; buffer sizes below 2^31). Zero is not encoded by bn_encode (it reports failure), which the property leaves out.",
  observe=["encoded buffers"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C13", "Compressing and expanding a point are inverse, and failures never yield a wrong point",
  "Compressing a point of the curve's prime-order subgroup gives its x coordinate with the lowest bit replaced by the trace of y/x, in exactly the field's byte length, and expanding that encoding gives the same point back. "
  "Expansion succeeds exactly for encodings of points that exist and the result lies on the curve; a short buffer is refused, and when a library call fails the operation reports failure and never delivers another point, such as the negated one.",
  ["inputs", "crash_points"], "every curve and point, every encoding, every failing library call",
  "Tests expand and compress a few points in fault-free runs; a trace failing half way or x = 0 is not reached.",
  ["dstulib/compress.c"], [("dstu_point_compress, dstu_point_expand, bn_trace", "dstulib/compress.c")],
  "Proved against contracts of the binary-field library (uninterpreted field operations); that the formulas invert each other is checked natively against an independent reference on all curves and exhaustively small ones. The trace loop is cut by an invariant. One defect was found and fixed (F03).",
  observe=["encoded bytes", "resulting EC_POINT"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C14", "The ten named curves are those of the standard, and identifiers map to them one to one",
  "Each of the ten DSTU 4145 curve identifiers yields a group with exactly the standard's field polynomial, coefficients A and B, base point and order, and no other identifier yields a group; the default is the 257-bit curve. "
  "A group is named by an identifier exactly when it agrees with that curve in every parameter, and otherwise counts as custom; a library failure yields no group and no name rather than a wrong one.",
  ["inputs", "crash_points"], "every curve number and identifier, every group, every failing library call",
  "Tests use two or three of the curves; a wrong digit in another curve's base point or a comparison that ignores a parameter goes unseen.",
  ["dstulib/params.c"], [("group_from_named_curve, group_from_nid, curve_nid_from_group, dstu_curves", "dstulib/params.c")],
  "Proved per curve against the standard's data in spec/curves_golden.h (itself checked natively: prime order, Hasse interval, base point on the curve). EC_GROUP functions trusted.",
  observe=["EC_GROUP parameters", "returned NID"])
P("C15", "Algorithm parameters describe exactly one curve and S-box, both ways",
  "Encoding a key's curve and S-box as DSTU 4145 algorithm parameters names a standard curve by its identifier and spells out any other one (degree, polynomial exponents, A, B, order, compressed base point, in the algorithm's byte order), and includes the S-box exactly when it is not the default. "
  "Decoding gives back that curve and S-box; it refuses unknown curves, exponents that are not positive ints, S-boxes that are not 64 bytes, points off the curve and orders that are not positive, and a failing library call yields no key, never a wrong one, without leaks.",
  ["inputs", "crash_points"], "every curve (named, trinomial, pentanomial), S-box, byte order and encoded description, every failing library call",
  "Tests decode a few files on standard curves; custom curves, the other byte order, hostile exponents and memory exhaustion are never exercised.",
  ["dstulib/key.c"], [("asn1_from_key, group_from_asn1, key_from_asn1", "dstulib/key.c")],
  "asn1.h's two choice unions are proved as structs whose unused member stays NULL (a CBMC limitation); ASN.1 template functions, EC_GROUP and BIGNUM functions are assumed contracts. The native program checks the real DER both ways. Two defects were found and fixed (F04, F05).",
  observe=["DER of the parameters", "decoded EC_GROUP and S-box", "return value"])
P("C16", "Keys survive PKCS#8 and SubjectPublicKeyInfo unchanged",
  "A private key is encoded as PKCS#8 under its own algorithm with its parameters and the scalar as little-endian octets; a public key as an octet string of its compressed point in the algorithm's byte order. Decoding either gives the same type, curve, S-box and scalar or point, a private key's public point being recomputed. "
  "Other algorithms, missing or malformed parameters and invalid points are refused; keys without the needed part are refused; the key's size, digest and signer algorithm identifiers are the standard's; nothing leaks or crashes, also when the library fails.",
  ["inputs", "crash_points"], "every key, container content, byte order and failing library call",
  "Tests parse two stored keys; exact octets for short scalars, custom curves, big-endian keys, damaged containers and failures are not sampled.",
  ["engine/ameth.c"], [("dstu_asn1_param_decode/encode, dstu_asn1_priv_decode/encode, dstu_asn1_pub_decode/encode, dstu_asn1_pkey_size/bits/ctrl, dstu_asn1_meth_new, print functions", "engine/ameth.c")],
  "Proved against the contracts of C11-C13, C15 and assumed contracts of libcrypto's containers. Two defects found and fixed (F06, F07).",
  observe=["PKCS#8 and SubjectPublicKeyInfo octets", "decoded key", "leaks"])
P("C17", "Key comparison and key objects: equal exactly when the same key, no sharing, no leaks",
  "Two keys have equal parameters exactly when curve and S-box agree, a key without an S-box having the default one, and are equal exactly when also their public points agree; keys lacking a curve or a point are never equal and never crash the comparison. "
  "Copied parameters and copied key generation contexts are complete and independent of the source; setting a part of a key or context replaces and releases exactly that part; freeing releases everything once.",
  ["inputs", "histories", "crash_points"], "every pair of keys with any parts present or missing, every sequence of set, copy and free, every failing allocation",
  "Comparison of incomplete keys, default S-boxes stored explicitly and copying over existing parameters are not reached by tests.",
  ["engine/ameth.c", "dstulib/key.c"], [("dstu_asn1_param_cmp, dstu_asn1_pub_cmp, dstu_asn1_param_copy, dstu_asn1_pkey_free", "engine/ameth.c"), ("DSTU_KEY_new/set/free, DSTU_KEY_CTX_new/set/copy/free", "dstulib/key.c")],
  "EC_GROUP_cmp and EC_POINT_cmp trusted. Three defects found and fixed (F08-F10).",
  observe=["EVP_PKEY_eq and EVP_PKEY_parameters_eq results", "memory ownership"])
P("C18", "The random generator is the standard's, seeded before use, safe between threads and over its life",
  "Every byte delivered is eight consecutive output bits of the DSTU 4145 generator (each the low bit of the encrypted state combined with the encrypted date vector), whose key and state come from the library's seeder; a request never succeeds unseeded, fails when seeding fails, and fills exactly the bytes asked for. "
  "State is touched only with the lock held and the lock is always released; cleanup wipes the state, and a generator used again afterwards seeds itself anew; failure to obtain a lock is reported, not survived by chance.",
  ["inputs", "schedules", "histories", "crash_points"], "every request length, every seeder and lock outcome, every order of request, status and cleanup, every interleaving of calls (through mutual exclusion)",
  "Random output cannot be compared with a sample; seeding failure, lock failure and reuse after cleanup do not occur in tests.",
  ["engine/rbg.c"], [("dstu_rbg_bytes, dstu_rbg_get_bit, dstu_rbg_init, dstu_rbg_status, dstu_rbg_cleanup, dstu_rbg_add, dstu_rbg_seed", "engine/rbg.c")],
  "Proved for every length (output loop cut by an invariant) against the block cipher's contract; mutual exclusion is the locks' assumed contract plus the proved discipline that all state is used while holding it. Cleanup concurrent with a request is outside the property. Two defects found and fixed (F13, F14).",
  observe=["bytes delivered", "return value", "lock use"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C19", "A Java key store is read whole, or refused, and nothing outside it is looked at",
  "Reading a Java key store yields exactly the private keys (under any protector the engine knows) and certificates of all its entries, in order, provided the magic number, the version, every length and the digest over container and password are right; otherwise it is refused and the caller's store pointer leads to nothing freed. "
  "No octet beyond the container's end is read, whatever the lengths in it say; passwords are converted to UTF-16 whole, whatever characters they hold; nothing leaks on any path.",
  ["inputs", "crash_points"], "every container of any size and content, truncated anywhere, every password, pieces of any size from the source",
  "Tests read two intact stores; lengths pointing beyond the end, truncation at each offset, wrong digests, non-ASCII passwords and refusal half way are not sampled.",
  ["keylib/jks.c"], [("parseJKS, parseEntry, parseKey, parseCert, hasAt", "keylib/jks.c"), ("toUTF16BE, whiteHash, twoHash", "keylib/jks.c"), ("readJKS, readJKS_bio", "keylib/jks.c")],
  "All functions proved for every container (loops cut by invariants). Assumes allocations succeed, and contracts for iconv, BIO, SHA-1 and d2i_X509. Entries protected by an algorithm other than Sun's two are passed over (as the code does). Two defects found and fixed (F17, F19).",
  observe=["parseJKS result and the KeyStore", "memory accesses", "leaks"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C20", "A key protected by Sun's key protector is recovered exactly, or refused",
  "The octets of a protected key are decrypted with the chain of digests of password and salt that the key protector defines, for every key length; the result is parsed only after its check value has been found right over all of it, and then contributes exactly its keys. "
  "Wrong passwords, blobs too short to hold salt and check value, blobs of an empty key and password based encryption are refused without reading or writing out of bounds and without changing the store.",
  ["inputs"], "every protected key of any length, every password, every digest outcome",
  "Tests decrypt two stored keys with their passwords; other lengths modulo the block, short blobs and damaged octets are not sampled.",
  ["keylib/jks.c"], [("fromKeyProtector, decryptKey, fromPBES1, twoHash", "keylib/jks.c")],
  "Proved for every length up to 2^31-1 (both loops cut by invariants); SHA-1 and X509_SIG are libcrypto's. Two defects found and fixed (F16, F18).",
  observe=["keys in the store", "memory accesses"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C21", "A Key-6 container is decrypted under the right key, exactly, and wiped",
  "The key of a Key-6.dat container is the DSTU 34.311 digest of the password, digested 9999 times more, under the default S-box; the data together with the pad is decrypted in GOST 28147 block mode, all whole blocks of it, and exactly the decrypted octets are parsed for keys. "
  "Containers of another type, incomplete or damaged ones and wrong passwords are refused; decrypted material is wiped before it is released; nothing leaks.",
  ["inputs"], "every container and password, every data and pad length, pieces of any size from the source",
  "The test reads two stored containers; other pad lengths, missing parts, other types and incomplete blocks are not sampled.",
  ["keylib/key6.c"], [("parseKey6, decryptKey6, pkdf, hash", "keylib/key6.c"), ("readKey6, readKey6_bio", "keylib/key6.c")],
  "All functions proved (loops cut by invariants) against the contracts of C01, C07 and C23. The container's MAC is not verified by the code; the property does not claim it. One defect found and fixed (F20).",
  observe=["KeyStore", "memory before release"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C22", "A PKCS#12 container is read whole after its MAC is verified, or refused",
  "Reading a PKCS#12 container verifies its MAC with the password before anything is unpacked, and then yields all keys, plain or encrypted, and all certificates of all parts, nested bags included, in order, in a store of exactly that size. "
  "If any part, key or certificate cannot be read, or there is none, the container is refused, everything is released and the caller gets no store.",
  ["inputs", "crash_points"], "every container of any number of parts and bags nested to any depth, every password, every failing library call",
  "Tests read one intact container; several parts, nesting, unreadable members after readable ones and wrong MACs are not sampled.",
  ["keylib/pkcs12.c"], [("parsePKCS12, countKeysCerts, countKeysCertsInBags, countKeysCertsInBag", "keylib/pkcs12.c"), ("fromSafes, fromBags, fromBag", "keylib/pkcs12.c"), ("readPKCS12, readPKCS12_bio", "keylib/pkcs12.c")],
  "All functions proved for lists of any length by prefix sums shared between counting and reading (mutual recursion through contracts). libcrypto's PKCS#12 functions are assumed contracts. One defect found and fixed (F21).",
  observe=["KeyStore", "leaks"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C23", "A key store owns its contents, and key attributes give the key they hold or are refused",
  "A key store holds exactly what was put in it, in place: new stores are empty, appending moves everything of one store behind the contents of the other, keeping what was there, and freeing releases every key and certificate once. "
  "Attributes of a stored key yield the EC key of the curve parameters and the scalar they hold, octet order and all, with its public point; missing, malformed or hostile attributes are refused without crashes or leaks, and the keys of a PKCS#8 structure are the main one and, if present, the second one of the attributes.",
  ["inputs", "histories"], "every store size, every attribute list and contents of parameters and scalars, every sequence of set, append and free",
  "Tests read stored keys only; appending to non-empty stores, hostile curve parameters and scalars with leading zeros are not sampled.",
  ["keylib/keystore.c", "keylib/utils.c"], [("KeyStoreNew, KeyStoreAppend, KeyStoreFree", "keylib/keystore.c"), ("keysFromPKCS8, pkeyFromAttributes, makePKey, makeECGROUP, getPrivateKeyNum", "keylib/utils.c")],
  "All functions proved (loops cut by invariants); EC and ASN.1 functions of libcrypto are assumed contracts, allocations in keylib are assumed to succeed. Which of two attributes of the same kind counts is left open. Two defects found and fixed (F22, F23).",
  observe=["KeyStoreGetKey, KeyStoreGetCert", "leaks"], hook="loop-head markers DSTU_LOOP_HEAD")
P("C24", "The engine serves exactly the standard's algorithms, through any life cycle",
  "A bound engine serves the DSTU 34.311 digest, the DSTU 28147 cipher, key and key encoding methods of both DSTU 4145 algorithms, the random generator and the PBKDF2 function, under its own identifier only, and no other algorithm. "
  "Through any sequence of binding, initialising, finishing and releasing, also with library calls failing, everything the engine holds or that is known by name is a live method, each method is made once, and after release nothing is left that a name leads to.",
  ["inputs", "histories", "crash_points"], "every algorithm number, every order of bind, init, finish, lookup and destroy, every failing library call",
  "Tests load the engine once and exit; finishing and using it again, releasing it, or a failure half way through binding never occur.",
  ["engine/dstu.c", "engine/pmeth.c"], [("dstu_bind, dstu_engine_init, dstu_engine_finish, dstu_engine_destroy, dstu_digests, dstu_ciphers, dstu_pkey_meths, dstu_asn1_meths", "engine/dstu.c"), ("dstu_pkey_meth_new, dstu_pkey_meth_free", "engine/pmeth.c")],
  "An invariant over the engine's static state, proved to be established and preserved by every function, so it holds after any history; libcrypto's ENGINE functions are assumed contracts. One defect found and fixed (F15). Several ENGINE objects alive at once share the methods and are outside the property.",
  observe=["methods returned by ENGINE_get_*", "EVP_get_digestbyname", "results after ENGINE_finish and ENGINE_init"])
HOOK_COMMITS = ["5bbec7e", "850d1b8", "7bf81ff", "c64b723", "48f56c6", "7e6684e"]
NA = []
