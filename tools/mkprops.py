import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","SM4 computes the GB/T 32907 permutation for every key, block and batch",
"For every 128-bit key, SM4 encryption of every block equals the block transform defined by GB/T 32907 and SM4 decryption is its exact inverse, through every implementation the library ships. Processing any number of blocks in one call, at any buffer alignment and in place or not, gives exactly what processing each block alone gives, reads only the input, and writes only the output blocks. An object keyed for decryption undoes one keyed for encryption, and re-keying an object fully replaces the earlier key.",
["inputs","configurations"],"all keys, all blocks, all batch lengths (crossing every internal batch width), all alignments, portable and SIMD builds, every sequence of re-keyings",
"The tests use a handful of fixed vectors and a fixed batch; table, S-box lane or tail-handling errors show only for particular bytes or batch lengths.",
["include/gmlib/sm4/sm4.h","src/sm4/sm4_common.cpp","src/sm4/sm4_lang18.cpp"],
[("reference round function","src/sm4/sm4_common.cpp"),("table/AVX2 batch implementation with 16/8/4/1 dispatch","src/sm4/sm4_lang18.cpp"),("class front end","include/gmlib/sm4/sm4.h")],
["sm4::SM4::{set_key,encrypt_block,decrypt_block,encrypt_blocks,decrypt_blocks}","sm4::internal::{common,lang18}"])

p("C02","AES-128/192/256 compute FIPS 197 for every key, block and batch",
"For every key of each of the three sizes, AES encryption of every block equals the FIPS 197 transform and decryption is its exact inverse, in the table implementation and in the hardware-instruction implementation. Processing any number of blocks in one call, at any alignment and in place or not, gives exactly what processing each block alone gives, reads only the input, and writes only the output blocks. Re-keying an object fully replaces the earlier key and direction.",
["inputs","configurations"],"all keys of 16/24/32 bytes, all blocks, all batch lengths, alignments, both implementations, every re-keying sequence",
"Tests check fixed vectors only; one wrong table entry, round key or batch tail is hit by few of the 2^128 inputs.",
["include/gmlib/aes/aes.h","src/aes/aes_lut.cpp","src/aes/aes_aesni.cpp"],
[("table implementation","src/aes/aes_lut.cpp"),("AES-NI implementation","src/aes/aes_aesni.cpp"),("class front end","include/gmlib/aes/aes.h")],
["aes::AES128/AES192/AES256","aes::internal::{lut,aesni}"])

p("C03","ECB, CBC, CFB, OFB and CTR produce the standard's output for every message",
"For every block cipher, key, initial vector and message, the ECB, CBC, full-block CFB, OFB and CTR objects output exactly the ciphertext their standard definition gives (with the counter treated as one big-endian integer that wraps), and the matching decryptor returns the original message. CFB, OFB and CTR accept every message length and output exactly that many bytes; ECB and CBC throw on finalisation when the total is not a whole number of blocks. Input bytes, keys and vectors are never modified.",
["inputs","configurations"],"all ciphers of any block size and parallel width, keys, vectors (including counters about to carry or wrap), message lengths",
"Tests use one fixed 1024-byte vector per mode with one cipher; partial tails, counter carries, batch boundaries and other block sizes are not reached.",
["include/gmlib/block_cipher_mode/ecb_mode.h","include/gmlib/block_cipher_mode/cbc_mode.h","include/gmlib/block_cipher_mode/cfb_mode.h","include/gmlib/block_cipher_mode/ofb_mode.h","include/gmlib/block_cipher_mode/ctr_mode.h","include/gmlib/block_cipher_mode/internal/ctr_inc.h"],
[("chaining and batch loops","include/gmlib/block_cipher_mode/*_mode.h"),("counter increment","include/gmlib/block_cipher_mode/internal/ctr_inc.h")],
["{Ecb,Cbc,Cfb}{Encryptor,Decryptor}, OfbCryptor, CtrCryptor: update/do_final"])

p("C04","Mode objects: streaming, reuse and in-place use never change the result",
"However a message is cut into update calls (including empty ones) before finalisation, every mode object (ECB, CBC, CFB, OFB, CTR, GCM) outputs the same bytes as processing it in one call, each call reports exactly the number of bytes it produced, and nothing beyond them is written. Re-initialising or resetting an object at any point of any history, including mid-message or after an error, makes it behave like a freshly made one. Passing the same buffer as input and output gives the same result as separate buffers.",
["histories","inputs"],"all sequences of init/reset/update/finalise calls with all chunk sizes, abandoned messages, failed finalisations, and aliasing of input and output",
"Tests feed whole messages once to fresh objects with separate buffers; carry-over of buffered bytes, stale state and aliasing need multi-step histories.",
["include/gmlib/block_cipher_mode/block_cipher_mode.h","include/gmlib/block_cipher_mode/cbc_mode.h","include/gmlib/block_cipher_mode/cfb_mode.h","include/gmlib/block_cipher_mode/gcm_mode.h"],
[("partial block buffer","include/gmlib/block_cipher_mode/block_cipher_mode.h: update/do_final"),("init and reset of each mode","include/gmlib/block_cipher_mode/*_mode.h")],
["update/do_final outputs and reported lengths"],
state=[("buffered bytes","input held until a block is complete","BlockCipherMode::buf_, buf_size_"),("chaining value or counter","state carried between blocks","iv_/counter_ of each mode")])

p("C05","GCM encryption yields the NIST SP 800-38D ciphertext and tag for every input",
"For every 128-bit block cipher, key, initial vector of any length, associated data of any length and plaintext of any length, GCM encryption outputs exactly the ciphertext and the 16-byte tag that NIST SP 800-38D defines. The result does not depend on how the plaintext is split into calls, on buffer alignment, or on what the object did before it was initialised for this message.",
["inputs","histories","configurations"],"all keys, IV lengths (12 bytes and any other), AAD lengths, plaintext lengths, splits, preceding object histories, every multiplication backend",
"Tests hold one or two fixed vectors with 12-byte IVs; other IV lengths, 32-bit counter wrap, non-block AAD and reuse are not reached.",
["include/gmlib/block_cipher_mode/gcm_mode.h","include/gmlib/block_cipher_mode/internal/gctr_inc.h","include/gmlib/ghash/ghash.h"],
[("counter derivation and 32-bit increment","GctrCryptor::init, gctr_inc"),("tag computation","GcmEncryptor::final_block")],
["GcmEncryptor init/update/do_final/get_tag"])

p("C06","GCM decryption accepts exactly the authentic messages",
"GCM decryption of any ciphertext with its correct key, vector, associated data and tag always succeeds and returns the original plaintext, whatever was decrypted before, successfully or not, by this or any other object. Finalisation throws whenever any bit of the ciphertext, associated data, initial vector, tag or any of their lengths differs from the authentic message. Acceptance depends only on these inputs, never on how they were split into calls.",
["inputs","histories"],"all authentic messages and all alterations of them, all sequences of earlier decryptions in the process",
"Tests decrypt one fixed vector once and never tamper; acceptance across repeated decryptions and rejection of every alteration need generated histories.",
["include/gmlib/block_cipher_mode/gcm_mode.h"],
[("tag recomputation and comparison","GcmDecryptor::final_block")],
["GcmDecryptor do_final: exception or plaintext"])

p("C07","GHASH equals the GF(2^128) polynomial hash in every implementation",
"For every 128-bit hash key and every block-aligned message, GHASH equals the GF(2^128) polynomial evaluation of NIST SP 800-38D, in each of the three implementations, however the message is cut into update calls. Finalising a message that is not a whole number of blocks is reported as an error. Resetting or re-keying an object at any point makes it behave like a fresh one with that key.",
["inputs","histories","configurations"],"all hash keys and messages, all splits, all reset/re-key histories, bitwise/table/carry-less-multiply implementations",
"Tests use a few fixed vectors fed whole; table construction, lane reduction and residual buffers depend on particular bits and splits.",
["include/gmlib/ghash/ghash.h","src/ghash/ghash_common.cpp","src/ghash/ghash_lut256.cpp","src/ghash/ghash_pclmul.cpp"],
[("field multiplication","src/ghash/*.cpp"),("streaming buffer","include/gmlib/hash_lib/hash.h")],
["ghash::GHash update/do_final/reset/set_key","ghash::internal::{common,lut256,pclmul}"])

p("C08","SM3 computes the GB/T 32905 digest of every message under every split",
"For every byte string, SM3 outputs the 32-byte digest defined by GB/T 32905, in each implementation the library ships, however the message is cut into update calls (including empty ones) and wherever the buffers lie. The message length enters the padding as a full 64-bit bit count. Resetting an object at any point makes it behave like a new one, and copies of an object continue independently.",
["inputs","histories","configurations"],"all messages of any length (all residues modulo the block size, lengths beyond 2^32 bits), all splits, reset and copy histories, both implementations",
"Tests hash a few fixed strings in one or two pieces; padding boundaries, split points and long-length accounting are sampled at a handful of points.",
["include/gmlib/sm3/sm3.h","include/gmlib/hash_lib/hash.h","src/sm3/sm3_common.cpp","src/sm3/sm3_yang15.cpp"],
[("compression and padding","src/sm3/*.cpp"),("streaming buffer","include/gmlib/hash_lib/hash.h")],
["sm3::SM3 update/do_final/reset","sm3::internal::{common,yang15}"])

p("C09","Generic hash streaming and HMAC are correct for every key, message and hash",
"A hash built on the streaming base hands its compression step every whole block of the message exactly once, in order, and the remainder at the end, for every block size and every split into update calls. HMAC over any such hash equals RFC 2104 for every key length (shorter than, equal to, and longer than a block) and every message under every split. Setting the key again at any point of any history starts a fresh, independent MAC.",
["inputs","histories","programs"],"all block sizes and digest sizes of user-supplied hashes, all keys, messages, splits and re-key histories",
"Tests cover SM3's 64-byte block and a few fixed keys; other block sizes, the long-key path and reuse are unexercised.",
["include/gmlib/hash_lib/hash.h","include/gmlib/hash_lib/hmac.h"],
[("partial block buffering","Hash::update"),("key padding and two-pass digest","HMac::set_key/do_final")],
["hash_lib::Hash subclasses, hash_lib::HMac"],
state=[("buffered bytes","message bytes not yet compressed","Hash::buf_, buf_size_")])

p("C10","Memory helpers: byte order, XOR and dump are exact and stay in bounds",
"Loading and storing 16-, 32- and 64-bit integers in big- and little-endian order, and the byte swaps, are exact for every value at every alignment, and store then load is the identity. XOR of two byte ranges yields exactly the bytewise XOR for every length and alignment, with the output allowed to be either input, reading and writing no byte outside the ranges. The memory dump prints every byte of its range, in order, in lines of the requested width.",
["inputs","configurations"],"all values, all lengths (run-time and compile-time sizes), alignments and exact aliasing; scalar, SSE2 and AVX2 builds",
"Tests try a few lengths on aligned buffers and do not detect writes past the end; each length takes a different ladder of vector widths.",
["include/gmlib/memory_utils/endian.h","include/gmlib/memory_utils/memxor.h","src/memory_utils/memxor.cpp","src/memory_utils/memdump.cpp"],
[("load/store helpers","include/gmlib/memory_utils/endian.h"),("vector-width ladder","memxor.h, memxor.cpp"),("dump formatting","src/memory_utils/memdump.cpp")],
["memory_utils::load*/store*/memxor<N>/memxor_n/memdump"])

p("C11","256-bit integers: every operation is exact, carries and borrows included",
"Every 256-bit unsigned operation (addition, subtraction, doubling, tripling, multiplication, squaring, small-operand forms, division, remainder, modular addition and subtraction, comparison, bit access, big-endian conversion and reduction of a byte string) returns exactly the integer result, including the carry, borrow or remainder it reports, for all operands in its domain. The 32-bit-limb and 64-bit-limb implementations agree, and results are the same when the output object is also an operand, wherever the operation allows it.",
["inputs","configurations"],"all 256-bit operands, with emphasis on limbs of all zeros/ones, carry chains, equal and adjacent values; both limb widths; aliased operands",
"Tests use a few random constants; carry propagation and quotient corrections fail on a vanishing share of random operands.",
["src/number/uint256_common.cpp","src/number/uint256_x64.cpp","include/gmlib/number/uint256.h"],
[("limb loops with carry","src/number/uint256_*.cpp")],
["number::internal::{common,x64}::uint256_*"])

p("C12","Montgomery arithmetic equals integer arithmetic modulo every odd modulus",
"For every odd 256-bit modulus the library may be configured with, converting to Montgomery form and back is the identity on residues, and addition, subtraction, negation, doubling, tripling, halving, multiplication, squaring, exponentiation and inversion, compared after conversion back, equal the same operations on integers modulo it. Every result is fully reduced, so equal residues have equal representations and equal encodings. Both limb widths agree, and outputs may alias inputs.",
["inputs","configurations"],"all odd moduli with the top bits set as the library uses them (SM2 and SM9 primes and orders, and random ones), all residues including 0, 1, p-1, all exponents, aliasing",
"Tests use fixed moduli and few operands; a missing final subtraction or an unreduced zero appears on rare operands only.",
["src/number/mont256_common.cpp","src/number/mont256_x64.cpp","include/gmlib/number/mont256.h"],
[("Montgomery reduction with final subtraction","mont256_mul/mont256_sqr"),("constants","Mont256CTX")],
["number::internal::{common,x64}::mont256_*"])

p("C13","Arbitrary-length limb integers are exact for every length and value",
"Every multi-limb operation of the variable-length integer module (addition, subtraction, multiplication, comparison, copying, byte conversion, compile-time constants) returns the exact integer result and carry or borrow for every limb count and value, in both limb widths. Comparison orders by value. No limb outside the stated lengths is read or written.",
["inputs","configurations"],"all limb counts and limb values, equal prefixes, all-ones limbs, both limb widths, aliased operands",
"Tests use a few fixed-size operands; comparison and carry errors need particular limb patterns.",
["src/number/mpz_common.cpp","src/number/mpz_x64.cpp","include/gmlib/number/mpz.h"],
[("limb loops","src/number/mpz_*.cpp")],
["number::internal::{common,x64}::mpz_*"])

p("C14","SM2 curve arithmetic is the group law for all points and scalars",
"SM2 field, order-field and curve operations equal the mathematical definition over the standard curve: point addition, doubling, negation, comparison and scalar multiplication (of the base point, of any point, and of combinations) return the correct group element for all points and all 256-bit scalars, including the point at infinity, equal points, opposite points, and scalars 0, 1, n-1, n and above. Point encodings in compressed, uncompressed and hybrid form decode back to the same point. The result does not depend on the internal representation of the operands.",
["inputs","configurations"],"all points (random, small multiples, equal, opposite, infinity, any projective scaling), all scalars, both limb widths",
"Tests multiply a few constants; exceptional cases of the addition formulas and digit recodings need particular points and scalars.",
["src/sm2/sm2p256v1.cpp","include/gmlib/sm2/internal/sm2p256v1.h"],
[("projective formulas","sm2_ec_j_add/dbl"),("signed-digit scalar multiplication","sm2_ec_j_mul*"),("square root and decoding","sm2_ec_a_from_bytes")],
["sm2::internal sm2_fp/fn/ec_* functions"])

p("C15","SM2 signing emits the GB/T 32918.2 signature and verification accepts it",
"For every private key, identity, message and source of randomness, SM2 signing yields the pair (r, s) that GB/T 32918.2 defines for some nonce in [1, n-1] drawn from that source, with r and s in [1, n-1] and encoded as 32-byte big-endian integers. The matching public key verifies it, in every build and for every identity and message length the standard allows. When a nonce would give a degenerate value, signing draws another instead of emitting it.",
["inputs","fault_sequences","configurations"],"all keys, identities, messages, all byte streams the random source may deliver (including all-zero and all-one blocks), both limb widths",
"Tests sign with one key, one message and a library random generator; extreme keys, nonces and identity lengths never occur.",
["include/gmlib/sm2/sm2.h","include/gmlib/sm2/internal/sm2_alg.h"],
[("nonce derivation and retry loop","SM2PrivateKey::sign"),("identity digest","compute_z in sm2_alg.h")],
["SM2PrivateKey::sign, SM2PublicKey::verify"])

p("C16","SM2 verification accepts exactly the valid signatures and never fails otherwise",
"SM2 verification returns true if and only if the given (r, s) satisfies the GB/T 32918.2 verification equation, with r, s in [1, n-1], r+s nonzero modulo n and a finite computed point, for the given public key, identity and message. It returns false for every other byte string, including signatures altered in any bit, out-of-range or non-reduced values, and signatures for another key, identity or message. It never crashes, hangs, throws or terminates the process, whatever the inputs.",
["inputs"],"all public keys, identities of any length, messages, and 64-byte strings, with emphasis on algebraic relatives of valid signatures and range boundaries",
"Tests verify one valid signature; soundness is a statement over all invalid ones.",
["include/gmlib/sm2/sm2.h","src/sm2/sm2p256v1.cpp"],
[("range checks and equation","SM2PublicKey::verify")],
["SM2PublicKey::verify result"])

p("C17","SM2 encryption emits the GB/T 32918.4 ciphertext and decryption inverts it",
"For every key pair, plaintext of any nonzero length, point format and source of randomness, SM2 encryption outputs the ciphertext C1, C3, C2 that GB/T 32918.4 defines for some nonce in [1, n-1] drawn from that source, with exactly the announced length, and decryption with the private key returns exactly the plaintext. When the derived key stream would be all zero, encryption draws another nonce. The decryption length query and the written length agree.",
["inputs","fault_sequences","configurations"],"all keys, plaintext lengths (around multiples of the digest length), three point formats, all random streams",
"Tests encrypt one short message; key-derivation counter boundaries, point formats and retries are not reached.",
["include/gmlib/sm2/sm2.h","include/gmlib/sm2/internal/sm2_alg.h"],
[("key derivation","sm2_alg.h KDF"),("encrypt/decrypt","SM2PublicKey::encrypt, SM2PrivateKey::decrypt")],
["ciphertext bytes, decrypted bytes, lengths"])

p("C18","SM2 decryption rejects every altered or malformed ciphertext safely",
"SM2 decryption of any byte string that is not a valid ciphertext for the private key ends in a reported error: altered in any bit, truncated, extended, with a point prefix of an unknown kind, or with a point that is not on the curve or has a coordinate outside the field. It never reads or writes outside the caller's buffers, never crashes or hangs, and leaves the key usable for the next ciphertext. Whatever it accepts is exactly what the standard's decryption accepts.",
["inputs","histories"],"all byte strings of all lengths, in particular one-field mutations of valid ciphertexts and invalid curve points",
"Tests only decrypt valid ciphertexts.",
["include/gmlib/sm2/sm2.h","src/sm2/sm2p256v1.cpp"],
[("point validation","sm2_ec_a_from_bytes"),("digest comparison","SM2PrivateKey::decrypt")],
["SM2PrivateKey::decrypt exception or output"])

p("C19","SM2 keys: only valid keys are accepted, and they round-trip in every form",
"A private key is accepted if and only if it is in [1, n-2], a public key if and only if it is a point on the curve with coordinates below the field prime, and a rejected key is reported without changing what a later valid key does. Exporting and importing any key, in every point format offered, returns the same key; the public key derived from a private key is always the standard one. Generated private keys are always valid and depend only on the bytes delivered by the given random source.",
["inputs","fault_sequences"],"all 256-bit private values and 64/65/33-byte encodings, with emphasis on 0, 1, n-2, n-1, n, p, off-curve and non-canonical coordinates; all random streams",
"Tests import one valid key; range edges and invalid encodings are unexercised.",
["include/gmlib/sm2/sm2.h","src/sm2/sm2p256v1.cpp"],
[("range and curve checks","set_pri/set_pub/gen_priv in sm2.h")],
["key import result, exported bytes"])

p("C20","SM9 extension fields and groups obey their algebra for all elements",
"The SM9 prime field and its degree-2, 4 and 12 extensions implement exact field arithmetic (addition, subtraction, doubling, tripling, negation, multiplication, squaring, inversion, square root, power) with canonical encodings that round-trip, for all elements including zero and one. Both curve groups implement the group law for all points, including infinity, equal and opposite operands, and scalar multiplication in the groups of order n is correct for all 256-bit scalars. Points encode to the standard forms, and decoding, in the forms it supports, accepts exactly the encodings of points on the curve with coordinates below the prime.",
["inputs","configurations"],"all field elements (sparse, zero, one, boundary coefficients), all points in any representation, all scalars, all encodings, both limb widths",
"Tests check fixed examples from the standard; special-case branches and coefficient carries need particular elements.",
["src/sm9/sm9_field.cpp","include/gmlib/sm9/internal/sm9_field.h"],
[("tower arithmetic","sm9_fp*/fp2/fp4/fp12"),("curve formulas","sm9_ec*/sm9_ec2*")],
["sm9::internal field and curve functions"])

p("C21","The SM9 pairing is the standard bilinear, non-degenerate map",
"For all non-identity points P of the first group and Q of the second, the SM9 pairing equals the GB/T 38635 R-ate pairing: e([a]P,[b]Q) = e(P,Q)^(ab) for all scalars a and b not divisible by n, it maps the two generators to the standard's value, and it is never one. Its value lies in the subgroup of order n; the variants with one argument fixed to a generator agree with it.",
["inputs","configurations"],"all pairs of points as multiples of the generators, scalars including 1, n/2 and n-1, both limb widths",
"Tests compute one or two fixed pairings.",
["src/sm9/sm9_field.cpp"],
[("Miller loop and final exponentiation","sm9_pairing in src/sm9/sm9_field.cpp")],
["pairing output bytes"])

p("C22","SM9 signing emits the GB/T 38635.2 signature and verification accepts it",
"For every master key, identity, message and source of randomness, the SM9 user key is the one GB/T 38635 defines, and signing yields the (h, S) it defines for some nonce in [1, n-1] drawn from that source, in each point format. The master public key verifies it for that identity and message, with any valid key material including boundary master keys, in every build. When a nonce would give a degenerate value, another is drawn.",
["inputs","fault_sequences","configurations"],"all master keys, identities, messages, point formats, random streams, both limb widths",
"Tests run the standard's example and one random round trip.",
["include/gmlib/sm9/sm9.h","include/gmlib/sm9/internal/sm9_alg.h","src/sm9/sm9_field.cpp"],
[("key extraction","SM9SignMasterPrivateKey::gen_SignPrivateKey"),("sign","SM9SignPrivateKey::sign"),("hash to range","sm9_alg.h")],
["signature bytes, verify result"])

p("C23","SM9 verification accepts exactly the valid signatures and never fails otherwise",
"SM9 verification returns true if and only if the signature satisfies the GB/T 38635.2 verification procedure for the given master public key, identity and message, with h in [1, n-1] and S a point on the curve given in canonical form. It returns false for every other byte string of every length, including altered, truncated, extended or non-canonical ones and those for another identity, message or master key. It never crashes, hangs, throws, or reads outside the signature it was given.",
["inputs"],"all signatures of all lengths, with emphasis on mutations and algebraic relatives of valid ones, range boundaries, invalid points and short buffers",
"Tests verify one valid signature.",
["include/gmlib/sm9/sm9.h","src/sm9/sm9_field.cpp"],
[("range, length and curve checks, equation","SM9SignMasterPublicKey::verify")],
["verify result"])

p("C24","SM9 keys: only valid keys are accepted, and they round-trip",
"A master private key is accepted if and only if it is in [1, n-1]; a master public key or a user private key if it is a canonical encoding of a point of its group, and never if it is not a canonical encoding of a point on its curve. Exporting and importing any key returns the same key, and the public key derived from a master private key is always the standard multiple of the generator. Generated master keys are always valid, depend only on the given random source, and key extraction reports the one undefined case instead of emitting a key.",
["inputs","fault_sequences"],"all private values and point encodings, boundary values, off-curve and non-canonical points, all random streams, all point formats",
"Tests import one valid key pair.",
["include/gmlib/sm9/sm9.h","src/sm9/sm9_field.cpp"],
[("range and curve checks","set_priv/set_pub in sm9.h")],
["key import result, exported bytes"])

p("C25","DER encoding and decoding are inverse for every value of every supported type",
"For every value of each supported ASN.1 type (boolean, unsigned integer, bit string, octet string, sequence, set, null on decoding) the encoder produces the DER encoding, of exactly the length the length function announces and within the declared maximum, and the decoder returns the same value and consumes exactly that encoding, whatever follows it. This holds for all content lengths, including zero, 127/128, 255/256 and beyond, and for integers with leading zero bytes or a set high bit.",
["inputs"],"all values and content lengths of each type, nested structures, all tags",
"Tests encode a few fixed values.",
["include/gmlib/asn1/asn1.h","src/asn1/asn1.cpp"],
[("tag/length/value encoder and decoder","src/asn1/asn1.cpp")],
["asn1 encode_*/decode_* functions"])

p("C26","DER decoding of arbitrary bytes is safe and never reads past the input",
"Every decoder, and the structure dump, applied to any byte string of any length returns an error, or a value that lies wholly inside the input and is the one encoded there. It never reads or writes outside the given buffers and always terminates within bounded stack, whatever the nesting. A declared length larger than the remaining input, another tag or class, malformed content, or a truncation at any point is always an error; every DER encoding of the type is accepted. The dump of a well-formed encoding shows each of its bytes once, in order.",
["inputs"],"all byte strings, in particular mutated, truncated, nested and length-inflated encodings",
"Tests decode only well-formed fixed input.",
["src/asn1/asn1.cpp","src/asn1/asn1_dump.cpp"],
[("length checks","decode_tlv"),("recursion in the dump","src/asn1/asn1_dump.cpp")],
["decoder results under memory checking"])

p("C27","SM2 keys, signatures and ciphertexts survive DER encoding exactly",
"Every SM2 signature, ciphertext, public key and private key value, whatever its leading bytes, encodes to the DER structure its standard defines, of exactly the announced length, and decodes back to the same object. Decoding any byte string that is not an encoding of the structure (missing, extra, negative, oversized or wrongly typed elements, wrong lengths, damage) reports an error. Buffer bounds are respected throughout.",
["inputs"],"all key, signature and ciphertext values, including those with leading zero or high-bit bytes and all plaintext lengths; all mutated encodings",
"Tests do not exercise these codecs at all.",
["include/gmlib/sm2/internal/sm2_asn1.h","src/sm2/sm2p256v1_asn1.cpp"],
[("structure codecs","src/sm2/sm2p256v1_asn1.cpp, sm2_asn1.h")],
["DER bytes and decoded objects"])

p("C28","Every build configuration computes the same results",
"For the same inputs and the same random bytes, every supported build configuration (with and without each CPU-feature and algorithm option) produces identical outputs, accept/reject decisions and errors from every public operation: ciphers, modes, hashes, MACs, GCM, SM2, SM9, number and memory helpers. A message processed by one configuration is understood by every other.",
["inputs","configurations"],"all inputs to the public operations crossed with all supported combinations of feature and algorithm definitions",
"Tests run each configuration against fixed vectors separately and never compare configurations on fresh inputs or build mixed feature sets.",
["CMakeLists.txt","include/gmlib","src"],
[("compile-time dispatch","#if defined(CPU_FLAG_*) / SUPPORT_* in include and src")],
["outputs of public operations per configuration"])

p("C29","Generators fill exactly the requested bytes; secrets come only from them",
"Every random generator fills exactly the requested number of bytes for every length and alignment, touches nothing else, and does not repeat its output within or across calls. Key generation, signing and encryption take all their secrets from the generator they are given, so equal generator output gives equal results, and no secret falls outside its valid range whatever the generator delivers.",
["inputs","fault_sequences"],"all request lengths and alignments, all generators, all byte streams a user generator may deliver",
"Tests call each generator once with a fixed length and look at no output bytes.",
["include/gmlib/rng","include/gmlib/sm2/sm2.h","include/gmlib/sm9/sm9.h"],
[("word loop with tail","include/gmlib/rng/*"),("secret derivation","gen_priv/sign/encrypt in sm2.h, sm9.h")],
["generated bytes, derived keys and signatures"])

p("C30","Independent objects never interfere, in any interleaving or thread schedule",
"Operations on distinct objects (ciphers, modes, hashes, MACs, keys) give the same results under every interleaving of their calls and under every thread schedule as when each object is used alone. Read-only use of one shared keyed object from several threads is also free of interference. No operation depends on hidden process-wide mutable state, so the first use, a use in a static initialiser before main and any later use all give the same results.",
["schedules","histories"],"all interleavings of calls on any set of objects in one thread, and all schedules of several threads each using its own objects or sharing read-only ones",
"Tests are single-threaded and use one object at a time.",
["include/gmlib/block_cipher_mode/gcm_mode.h","include/gmlib/sm2/sm2.h","include/gmlib/sm9/sm9.h","src"],
[("absence of mutable static state","all of include and src")],
["results per object compared with isolated runs; data-race detector"])
p("C31","The feature probes report exactly the extensions the processor has",
"For every processor, tools/cpuid.py and demo/cpuid.py name a build flag and its compiler option exactly when the CPUID bit the manuals assign to that extension is present and set, so that a build configured from their output uses no instruction the processor lacks and leaves out none it has. Data returned for leaves above the processor's highest one never counts. tools/cpuid.cpp reports, for each extension it lists, the state of that extension's bit, and all of them return CPUID's registers unchanged for every leaf and subleaf.",
["inputs","configurations"],"all processors: every vendor, highest leaf and value of every feature register",
"No test runs the probes, and one machine shows one set of registers.",
["tools/cpuid.py","demo/cpuid.py","tools/cpuid.cpp"],
[("bit table","tools/cpuid.py support_flag"),("CPUID machine code","tools/cpuid.py CPUID"),("bit table","tools/cpuid.cpp InstructionSet")],
["support_flag(), printed definitions and options; printed messages"])
p("C32","Every subset of the documented build options builds and works",
"For every subset of the documented build options (CPU_FLAG_* and SUPPORT_*), given the compiler options the feature probes print for them, and for g++ and clang++ from C++17 on, every source of the library compiles, each module links with only the modules that its own build under script/ names, and a program using any of its classes links and gives the results it gives without options. Each public header (other than those for Windows) can be included alone, after any others in any order, and in several source files of one program.",
["configurations","inputs"],"all option subsets, header sequences and combinations of source files",
"The tests are built in two configurations with one header order; whether the others compile or agree is never seen.",
["include/gmlib","src","README.md","tools/cpuid.py","script"],
[("header self-containment","include/gmlib"),("option combinations","src/ghash/ghash_pclmul.cpp, src/aes/aes_aesni.cpp, src/sm4/sm4_lang18.cpp, src/memory_utils/memxor.cpp, src/number")],
["success of compilation and linking; results of the linked program"])
p("C33","A refused or failed operation leaves the key object as it was",
"When importing, generating or assigning a key is refused or fails (invalid value, invalid point, a generator that throws part-way), the SM2 or SM9 key object, private, public, master or user, still holds exactly the key it held before: it exports that key, its private and public parts still belong together, and signing, verifying, encrypting and extracting give what a fresh object with that key gives. Operations that only use a key, successful or failing, never change it.",
["histories","fault_sequences"],"all histories of imports, generations, assignments and uses of a key object, with refused values and failing generators at any step",
"The tests import valid keys once into fresh objects; no test uses an object after one of its operations failed.",
["include/gmlib/sm2/sm2.h","include/gmlib/sm9/sm9.h"],
[("SM2 key objects","include/gmlib/sm2/sm2.h: set_pub, set_priv, gen_priv, decrypt"),("SM9 key objects","include/gmlib/sm9/sm9.h: set_priv, set_pub, gen_priv")],
["exported keys and results of uses after a reported failure"])
p("C34","The demo build script builds every demo for any processor, with right results",
"For every processor demo/make.py passes to the compiler exactly the options for the extensions that processor reports, none when it cannot be determined, and the demo program it names builds from the library's sources. Whatever random values the system delivers, each demo ends normally, and what it prints is consistent with the standards: the hash, MAC, ciphertexts and tags are those of the printed inputs, decryption gives the message back, the SM2 key pair belongs together and its signature verifies, and the SM9 signature is accepted.",
["inputs","configurations"],"all processors, all demo programs, all random streams",
"No test runs the demo build script or a demo program.",
["demo"],
[("build script","demo/make.py, demo/cpuid.py"),("demo programs","demo/sm2, demo/sm3, demo/sm4, demo/sm9")],
["compiler options, build result, printed values and exit status of the demos"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s); assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
print(len(P))
