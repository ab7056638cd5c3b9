"""The checks: sources, build variants (configuration, mode, share of the case
budget[, "thorough" = only in the thorough tier]) and the rule evidence reports."""
import os
SYM = ["ref_sym"]
V_SYM = [("portable", "san", 1.0), ("simd", "san", 1.0), ("simd", "opt", 1.0), ("plain", "san", 0.5, "thorough"), ("sse2", "san", 0.5, "thorough"), ("avx2", "san", 0.5, "thorough"), ("aespcl", "san", 0.5, "thorough")]

SM2REF = ["ref_num", "ref_sm2", "ref_sym"]
SM9REF = SM2REF + ["ref_sm9"]
V_EC = [("portable", "san", 1.0), ("simd", "san", 1.0), ("simd", "opt", 1.5), ("plain", "opt", 0.5)]
CHECKS = {
    "selftest": dict(src="selftest.cpp", ref=["ref_sym"], variants=[("plain", "opt", 1.0)], rule=""),
    "C01": dict(ref=SYM, variants=[("portable", "san", 1.0), ("simd", "san", 1.0), ("plain", "san", 0.5), ("simd", "opt", 1.0)],
                rule="A case is a history of 1-3 re-keyings of one object, each followed by 1-3 single-block or batch operations (0-139 blocks, any alignment, in place or not) in either direction, or a full 256-value sweep of one byte lane; or one batch of 2^31 to 2^32 bytes; non-trivial: a batch of more than one block, a re-keyed object, or a lane sweep."),
    "C02": dict(ref=SYM, variants=[("portable", "san", 1.0), ("simd", "san", 1.0), ("simd", "opt", 1.0)],
                rule="As C01, for AES-128/192/256 through the class, the table implementation and the hardware implementation; or one batch of 2^31 to 2^32 bytes; non-trivial: a batch of more than one block, a re-keyed object, or a 256-value byte-lane sweep."),
    "C03": dict(ref=SYM, variants=V_SYM, fuzz="simd",
                rule="A case is one message through one mode object over SM4, AES or a toy cipher of another block size and batch width: encryption compared with the mode's definition, then decryption; ECB/CBC with a partial final block must throw. Non-trivial: more than one block, or a rejected partial message, or a wrapping counter."),
    "C04": dict(ref=SYM, variants=V_SYM, fuzz="simd",
                rule="A case is a history of 1-4 messages through one mode object, each after a fresh construction, init or reset, cut into pieces (possibly empty), in place or not, possibly abandoned or failing, or one call of more than 2^31 bytes compared with the same in pieces; every call's reported length and bytes are checked. Non-trivial: more than one piece or a reused object."),
    "C05": dict(ref=SYM, variants=V_SYM, fuzz="simd",
                rule="A case is 1-4 GCM encryptions on one object with IVs of any length (including ones solved to make the 32-bit counter wrap), AAD and plaintext of any length cut into pieces; ciphertext and tag compared with a bitwise SP 800-38D model; or one with text, AAD or IV of 2^29 to 2^32 bytes and a sparse evaluation of that model. Non-trivial: AAD plus plaintext longer than a block."),
    "C06": dict(ref=SYM, variants=V_SYM, fuzz="simd",
                rule="A case is a sequence of 1-6 GCM decryptions over two objects, each authentic or altered (19 kinds of alteration, comparison-cancelling ones included), or one with text, AAD or IV of 2^29 to 2^32 bytes; the verdict must equal the reference tag comparison and accepted plaintexts must match. Non-trivial: a later message in a history, an altered message, or an all-single-bit-flips sweep."),
    "C07": dict(ref=SYM, variants=[("portable", "san", 1.0), ("simd", "san", 1.0), ("simd", "opt", 1.0), ("plain", "san", 0.5, "thorough"), ("aespcl", "san", 0.5)],
                rule="A case is a history of 1-4 messages through one GHASH object (constructed, re-keyed or reset, possibly abandoned or with a partial block), or 1-3 messages through one of the three implementations, or a 256-value byte-lane sweep; compared with a bitwise GF(2^128) model; or one message of 2^31 to 2^32 bytes against the same in pieces. Non-trivial: more than one block, or a reused object, or a sweep."),
    "C08": dict(ref=SYM, variants=[("portable", "san", 1.0), ("plain", "san", 1.0), ("simd", "opt", 1.0)], fuzz="portable",
                rule="A case is a history of 1-4 messages through one SM3 object (reset between them, cut into pieces, copied mid-way), or an implementation driven from an arbitrary state and prior length, or one message of more than 2^32 bits; or one call of 2^31 to 2^32 bytes against the same in pieces. Non-trivial: several pieces, a reset, an arbitrary prior state or a length of at least 56 bytes."),
    "C09": dict(ref=SYM, variants=[("portable", "san", 1.0), ("portable", "opt", 1.0), ("simd", "san", 0.5, "thorough")], fuzz="portable",
                rule="A case is a history through a recording hash of one of ten block sizes (what reaches the compression step is compared with the message), or 1-4 keyings of an HMAC over SM3 or a toy hash compared with RFC 2104; or an HMAC key or message of 2^31 to 2^32 bytes. Non-trivial: several pieces, a reused object or a key longer than a block."),
    "C10": dict(ref=[], variants=[("plain", "san", 1.0), ("sse2", "san", 1.0), ("simd", "san", 1.0), ("simd", "opt", 1.0), ("plain", "opt", 1.0), ("msvc", "san", 0.5)],
                rule="A case is a load/store pair at one alignment, an XOR of two ranges (any length, alignment, aliasing; guard bytes and exact-size buffers), an XOR of 2, 4, 16 or 32 GiB, or one memory dump compared with a model of its format. Non-trivial: asymmetric bytes, non-empty ranges, multi-line dumps."),
    "C11": dict(ref=["ref_num"], variants=[("portable", "san", 1.0), ("simd", "san", 1.0), ("simd", "opt", 2.0), ("plain", "opt", 1.0), ("msvc", "san", 0.5)],
                rule="A case is one operation of one limb width on one pair of 256-bit operands (limbs of zeros/ones, equal, adjacent, complementary), any aliasing, compared with arbitrary-precision integers, result and reported carry/borrow/remainder; or the reduction of a byte string of up to 200 bytes. Non-trivial: a carry, borrow, reduction or nonzero product occurred, or every bit/comparison was checked."),
    "C12": dict(ref=["ref_num"], variants=[("portable", "san", 1.0), ("simd", "san", 1.0), ("simd", "opt", 2.0), ("plain", "opt", 1.0), ("msvc", "san", 0.5)],
                rule="A case is one Montgomery operation of one limb width for one odd modulus (15 primes, or any odd modulus of up to 256 bits) on residues near its ends, any aliasing, compared in representation (value times 2^256 modulo m, hence fully reduced) with arbitrary-precision integers; or a straight-line program of 3-32 operations over four residues. Non-trivial: a reduction or borrow occurred, or operands and exponents above 1."),
    "C13": dict(ref=["ref_num"], variants=[("portable", "san", 1.0), ("simd", "san", 1.0), ("simd", "opt", 2.0), ("plain", "opt", 1.0), ("msvc", "san", 0.5)],
                rule="A case is one multi-limb operation of one limb width on 0-40 limbs (related operands, carry and borrow inputs, any aliasing, exact-size buffers), or constants of 8, 24 and 32 bytes. Non-trivial: more than one limb, or a carry/borrow."),
    "C14": dict(ref=SM2REF, variants=V_EC,
                rule="A case is one field or order-field operation, one group operation on a pair of points (random, equal, opposite, infinity, rare x coordinate) in random projective scalings with results overwriting operands, one scalar multiplication (scalars 0, near n, n/2, n/3, 2^256, sparse, random), a chain of 2-13 group operations, an encoding round trip, or a decode of a crafted string; compared with affine textbook formulas over arbitrary-precision integers. Non-trivial: special pairs, non-unit scalings, scalars above 2, operands above 1, known prefixes."),
    "C15": dict(ref=SM2REF, variants=V_EC,
                rule="A case is 1-3 signatures by one key object (set, re-set) over identities of 0-8191 bytes and messages, from a scripted random stream (zero, all-one, near-n and random blocks), under SM3 or other hashes; or a signature whose message digest is solved so that the first nonce is degenerate. The nonce is recovered from the signature and the defining equation evaluated; or a message or identity of 2^31 to 2^32 bytes under a hash that counts bytes. Non-trivial: a non-empty message, or a redrawn nonce."),
    "C16": dict(ref=SM2REF, variants=V_EC,
                rule="A case is one signature built by the reference with a chosen nonce (and, with a tail hash, a chosen digest) and one of 16 transformations (bit flip, range ends, unreduced values, n-s, swap, r+s=n, point at infinity, other key/message/identity, negated key, ...), judged by the verification equation evaluated through the known discrete logarithm; a signature or key built around a point with a rare x coordinate (0, tiny, near n or p); a sweep of all 512 single-bit flips; or identities around and above 8191 bytes; or a message or identity of 2^31 to 2^32 bytes under a hash that counts bytes. Non-trivial: all but uniformly random pairs."),
    "C17": dict(ref=SM2REF, variants=V_EC,
                rule="A case is 1-3 encryptions (plaintexts around multiples of the digest, up to 2 MB in the optimised builds) in the three point formats from scripted streams, under SM3 and hashes of 1, 2, 20, 33 and 48 bytes; C1, C3, C2 recomputed from the nonce, then decrypted; or to a key or shared point with a rare x coordinate; or a plaintext of more than 2^32 bytes. Non-trivial: more than one byte or a redrawn nonce (all-zero key stream)."),
    "C18": dict(ref=SM2REF, variants=V_EC,
                rule="A case is one reference-made ciphertext with one of 15 alterations (bit flip, truncation, extension, prefix, invalid-curve point with consistent rest, non-canonical point, reordered parts, C1 or shared point with a rare x coordinate, ...), judged by a reference decryption, in exact-size buffers; or all bit flips and truncations of one ciphertext. Non-trivial: all but random strings."),
    "C19": dict(ref=SM2REF, variants=V_EC,
                rule="A case is 1-3 private or public keys set in turn on one object (values around 0, n, p, 2^256, off-curve, non-canonical and rare points), accept/reject compared with the definition and accepted keys used; or a key generated from a scripted stream. Non-trivial: all but the private keys 0 and 1."),
    "C20": dict(ref=SM9REF, variants=V_EC,
                rule="A case is one operation of F_p, F_n, F_p2, F_p4 or F_p12 on elements with random, sparse, zero, one and near-p coefficients, any aliasing, compared with polynomials in w modulo w^12+2; one group operation of either curve on a pair of points (random, equal, opposite, infinity, rare x coordinate, outside the subgroup) in random projective scalings; one scalar multiplication; a chain of group operations; an encoding round trip or a decode of a crafted string. Non-trivial: operands above 1, special pairs, non-unit scalings, scalars above 2, known prefixes."),
    "C21": dict(ref=SM9REF, variants=V_EC,
                rule="A case is one pairing of multiples of the generators by scalars in [1,n-1] (1, near n, n/2, n/3, sparse, random), compared with a power of the generators' pairing value computed by polynomial arithmetic modulo w^12+2; one relation (additivity in either argument, negation, order n, powers); also of points with rare x coordinates; or all 36 pairs of multiples +-1..+-6. Non-trivial: not the pair of generators itself."),
    "C22": dict(ref=SM9REF, variants=V_EC,
                rule="A case is one master key and 1-2 identities with 1-2 signatures each in the three point formats from a scripted random stream, under SM3 or hashes of 20, 33, 40 and 48 bytes: user key, h and S recomputed from the nonce, then verified; or a message solved so that the first nonce(s) are degenerate; or an identity solved so that h1+ks is 0, near 0 or h1=ks; or a message or identity of 2^31 to 2^32 bytes under a hash that counts bytes. Non-trivial: a non-empty message or a solved case."),
    "C23": dict(ref=SM9REF, variants=V_EC,
                rule="A case is one reference-made signature with one of 17 transformations (bit flip, range ends and unreduced h, negated or other point, other message/identity/hid/key, any length, non-canonical or off-curve point, prefixes, formats), judged by the verification equation evaluated through known discrete logarithms; or one under a hash that lets the message choose h; or one whose S has a rare x coordinate; or a forgery for an identity with h1+ks=0; or all single-bit flips and truncations of one signature; or a message or identity of 2^31 to 2^32 bytes under a hash that counts bytes. Non-trivial: all but random strings."),
    "C24": dict(ref=SM9REF, variants=V_EC,
                rule="A case is 1-3 master private, master public or user keys set in turn on one object (values around 0, n, p, 2^256; rare, off-curve, non-canonical, swapped coordinates), accept/reject compared with the definition and accepted keys exported and used; or a master key generated from a scripted stream. Non-trivial: all but the private keys 0 and 1."),
    "C25": dict(ref=[], variants=[("portable", "san", 1.0), ("simd", "opt", 1.0)],
                rule="A case is one value of one type (integers with leading zeros and high bits, bit strings of any bit count, contents around 127/128, 255/256, 65535/65536) encoded into a guarded buffer of the announced length, compared with an independent DER encoder, then decoded with other bytes following; headers for any 63-bit length; or a sequence of up to 5 values. Non-trivial: non-empty content, multi-byte integers, lengths of at least 128, sequences of at least two values."),
    "C26": dict(ref=[], variants=[("portable", "san", 1.0), ("simd", "opt", 0.5)], fuzz="plain",
                rule="A case is one byte string (random, well-formed nested BER, or damaged: truncated, flipped, inflated lengths) given in an exact-size buffer to all eight decoders and judged by an independent parser; every truncation of one valid encoding; one dump, its result and shown bytes compared; or nesting up to 200,000 levels. Non-trivial: at least two bytes, depth above 3."),
    "C27": dict(ref=SM2REF, variants=[("portable", "san", 1.0), ("simd", "opt", 1.0)],
                rule="A case is one private key, public key, signature or ciphertext (values with leading zero bytes or set high bits) encoded, compared with an independent DER encoder, then a decode of it or of an altered encoding (damage, extra or missing elements, negative or long integers, other lengths), judged by an independent parser; or a real signature taken through DER and verified. All are non-trivial."),
    "C28": dict(ref=SM9REF, variants=[("plain", "opt", 1.0)], plugin_src="C28_plugin.cpp", random_plugins={"quick": 3, "thorough": 24},
                plugins=[("plain", "opt"), ("portable", "opt"), ("simd", "opt"), ("sse2", "opt"), ("num64", "opt"), ("avx2", "opt"), ("aespcl", "opt"),
                         ("lang18", "opt"), ("yang15", "opt"), ("aesonly", "opt"), ("msvc", "opt"), ("simd", "o0", "thorough"), ("simd", "o3", "thorough"), ("plain", "o0", "thorough"),
                         ("plain", "o3", "thorough"), ("simd", "clang", "thorough"), ("plain", "clang", "thorough")],
                rule="A case is one operation or history (keyings and batches of blocks at any alignment and in place, messages through a mode or GCM with re-keying and in place, hash/HMAC/GHASH histories with copies, numbers of any length with aliasing, memory helpers, SM2 or SM9 key generation, imports, signing, encryption, verification and decryption of good and altered data, point and field arithmetic and decoding, key derivation, pairing, DER encoding, decoding and printing) carried out by ten build configurations, loaded as separate shared objects into one process; the transcripts (values, lengths, verdicts, exception types) must be equal, and what one produced must be accepted by all. Non-trivial: more than a block of data, operands above 1, every asymmetric case."),
    "C29": dict(ref=SM9REF, variants=[("portable", "san", 1.0), ("simd", "san", 1.0), ("simd", "opt", 2.0)], extra=["../checks/C29_hw.cpp", "../checks/C29_win.cpp", "../checks/C29_winhuge.cpp"], flags=["-I" + os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness/win"],
                rule="A case is ten fills (any length and alignment, guarded buffer) or 64 short ones of one generator (library, C, and RDRAND/RDSEED over the real instructions), several generator objects side by side, the hardware generators over stand-in instructions with scripted failures (survivable or permanent), or one use (SM2/SM9 key generation, signing, encryption) of a scripted generator: repeated, with each bit of the delivered block flipped, constant or periodic, or failing part-way; or one hardware-generator fill of 2^31 to 2^32 bytes. Non-trivial: non-empty requests and every use."),
    "C30": dict(ref=SM9REF, variants=[("portable", "tsan", 0.5), ("simd", "tsan", 1.0), ("portable", "san", 1.0), ("simd", "opt", 3.0)], schedule=True,
                technique="property-based testing: generated interleavings and thread programs against isolated runs of the same objects, under ThreadSanitizer and AddressSanitizer",
                rule="A case is 2-5 objects (modes, GCM, hashes, MACs, ciphers, SM2/SM9 keys, helpers), each a step machine determined by a seed, stepped in a random order with copies made and disturbed on the way; or 2-4 threads each running such machines on objects of their own, or using shared keyed objects read-only, in a warm or a fresh process, or the machines run in a static initialiser before main; every log must equal the one the same machine writes alone, and no data race may be reported. All are non-trivial."),
    "C31": dict(py="C31.py", variants=[("python", "and C++")],
                technique="property-based testing: generated processors (scripted CPUID results) against the manuals' bit positions, with shrinking; differential test of the CPUID machine code",
                rule="A case is a scripted processor (registers of every leaf and subleaf, any highest leaf, any vendor, garbage above the highest leaf) given to tools/cpuid.py and demo/cpuid.py (function and program), their helpers, or tools/cpuid.cpp built with a stand-in intrinsic; or one CPUID leaf read through the scripts' machine code and through the compiler. All are non-trivial."),
    "C32": dict(py="C32.py", variants=[("python", "and C++")],
                technique="property-based testing: generated build configurations (option subsets, compilers, header orders) against the compiler, the linker and the program's results in the build without options, with shrinking",
                rule="A case is a source file including public headers in any order and then naming everything they declare, one library source, one module linked with only the modules its build under script/ names, or a whole program of two units that include every header and use every class, under a random subset of the documented options (with the compiler options the probes print for them), one of two compilers, C++17 or C++20, at -O0 to -O2. All are non-trivial."),
    "C33": dict(ref=SM9REF, variants=[("portable", "san", 1.0), ("simd", "opt", 2.0)],
                rule="A case is a history of imports, generations and uses of one SM2 or SM9 key object, many of them failing (invalid keys, one or both parts of a user key; a generator that stops after 0-31 bytes; too long an identity; altered ciphertexts; throwing constructors), against a model holding the key: after each step the object must export that key and, in a third of the steps, sign, encrypt, verify and extract like a fresh twin. Non-trivial: at least one failure."),
    "C34": dict(py="C34.py", variants=[("python", "and C++")],
                technique="property-based testing: generated processors for the build script and generated random streams for the demo programs it builds, against independent implementations, with shrinking",
                rule="A case is a demo program, a processor (scripted CPUID registers: feature subsets, short leaf ranges; or one whose features cannot be determined) that demo/make.py builds it for, and streams (zeros, ones, small values, values around n, random bytes) from which the demo draws its keys and messages. Non-trivial: every build; a run counts when the host can run the build."),
}
