#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the file stays uniform)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

DG = ["src/digest/md2.c", "src/digest/md4.c", "src/digest/md5.c", "src/digest/sha1.c", "src/digest/sha2.c", "src/digest/has160.c", "src/digest/sha1_x86.c", "src/digest/sha2_x86.c"]
BC = ["src/cipher/block_cipher.c", "src/cipher/aes.c", "src/cipher/aes_x86.c", "src/cipher/des.c", "src/cipher/seed.c", "src/cipher/aria.c", "src/cipher/blowfish.c"]
BN = "src/com/bignumber.c"

p("D01", "Digests equal their published standards for every message",
  "For every message of every length, the one-shot and the create/init-update-final interfaces of MD2, MD4, MD5, SHA-1, SHA-224/256/384/512, SHA-512/224, SHA-512/256 and HAS-160 produce exactly the digest defined by the published standard. The digest has the documented length and nothing beyond it is written.",
  ["inputs"], "all messages (content, length, alignment), all eleven algorithms, both interfaces, accelerated and portable code",
  "the tests hash two fixed strings; padding-boundary lengths, binary content, misaligned buffers and the portable code paths are never compared with an independent implementation",
  DG, [("per-algorithm compression function and final padding", "src/digest/*.c *Process/*Final"), ("runtime CPU dispatch", "src/digest/sha1_x86.c, src/digest/sha2_x86.c")], observe=["digest bytes returned by *Final and the one-shot functions"])
p("D02", "Digest results do not depend on how the message is fed or on other contexts",
  "Splitting a message into any sequence of update calls (including empty ones) yields the same digest as hashing it at once. A context that is re-initialised at any moment behaves as new, a context copied mid-message continues independently of the original, and any number of contexts used alternately do not influence each other.",
  ["inputs", "histories"], "all partitions of all messages; all interleavings of operations on several contexts, with re-initialisation and copying at any point",
  "the tests feed each message in one call and use one context at a time, so buffered-tail handling and context residue are hardly sampled",
  DG, [("partial-block buffer and total length counter in each context", "src/digest/*.c *Update")], [("totalLen_*/buffer", "bytes seen so far and the pending partial block", "src/include/racrypt_digest.h")])
p("D03", "Digests stay correct for very long messages",
  "Digest results remain equal to the standard when the total message length exceeds 2^29 bytes (bit length beyond 32 bits) and 2^32 bytes, whether the data arrives in large single updates or in many small ones.",
  ["inputs", "histories"], "all messages up to lengths beyond the 32-bit bit counter and (thorough) beyond 4 GiB, fed in any chunk sizes an int can express",
  "every test message is shorter than 200 bytes; the high words of the length counters are never non-zero",
  DG, [("carry from low to high length word", "src/digest/*.c *Update/*Final")], [("totalLen_l/h/hh", "length counters", "src/include/racrypt_digest.h")])

p("S01", "Block ciphers implement their standards for every key and block, and invert",
  "For every key and every block, AES-128/192/256, DES, two-key and three-key 3DES, SEED, ARIA-128/192/256 and Blowfish (every key length from 1 to 72 bytes) encrypt to exactly the ciphertext the published standard defines. Decryption with the same key maps that ciphertext back to the block.",
  ["inputs"], "all keys, key sizes and blocks",
  "the tests use one fixed key per cipher (AES-192, EDE2/EDE3, ARIA-192/256 and other Blowfish key lengths are not compared with any reference) and random data is only round-tripped, which a matching encrypt/decrypt error passes",
  BC, [("key schedules and lookup tables", "src/cipher/{aes,des,seed,aria,blowfish}.c"), ("AES-NI dispatch", "src/cipher/aes_x86.c")])
p("S02", "ECB, CBC, CFB and OFB match the standard modes, and the IV is tracked exactly",
  "For every cipher, key, IV and data length, encryption and decryption in ECB, CBC, full-block CFB and OFB equal the standard mode of operation. After any number of processed blocks the readable IV is the chaining value the standard defines, so reading it and setting it in another context of the same key continues the stream exactly; a fresh context starts with an all-zero IV.",
  ["inputs", "histories"], "all ciphers x modes x keys x IVs x data lengths, with the IV read or replaced at any block boundary",
  "known-answer tests cover one key/IV/message per cipher and mode, and never read back the IV or hand it over to another context",
  BC, [("mode logic around the raw block function", "src/cipher/block_cipher.c")], [("iv", "chaining value", "src/cipher/block_cipher.h, racrypt_cipher.h")])
p("S03", "Streaming encryption/decryption is independent of how data is split",
  "For every sequence of encrypt (or decrypt) calls with arbitrary lengths, the concatenated output equals that of a single call over the concatenated input; each call returns exactly the number of bytes it wrote, which is every complete block available so far, and keeps only the incomplete remainder. Data may be processed in place when calls are block-aligned.",
  ["inputs", "histories"], "all partitions of all inputs (zero-length and negative-length calls included), all ciphers, modes and both directions",
  "the tests split one random message a few times per run with no independent expectation for the per-call return value",
  ["src/cipher/block_cipher.c"], [("partial block buffer", "src/cipher/block_cipher.c")], [("buffer/bufferFilled", "bytes waiting for a complete block", "struct RaBlockCipher")])
p("S04", "Padding and finalisation: exact round trip and lengths, safe on bad padding",
  "For every plaintext, final encryption with PKCS7 always adds 1..blocksize padding bytes and final decryption removes exactly those; ZERO padding pads only an incomplete block; NONE drops an incomplete block. Final decryption never returns more than it wrote, strips padding only when all padding bytes are well-formed and otherwise returns the data unchanged; after a final call no data of the finished message leaks into the next one.",
  ["inputs", "histories"], "all plaintext lengths, all final-block contents (well-formed and malformed padding), all ciphers, modes, and splits between update and final calls",
  "only valid PKCS7 data of a few lengths is decrypted; malformed padding bytes and re-use after a final call are not exercised",
  ["src/cipher/block_cipher.c"], [("EncryptFinal/DecryptFinal", "src/cipher/block_cipher.c")])
p("S05", "RC4 equals the standard keystream, continuously, for every key",
  "For every key of 1..256 bytes (a missing or empty key counts as a single zero byte) RC4 output is the input XOR the standard keystream, continued seamlessly across calls of any size and identical in the encrypting and decrypting direction; every call returns its length and may work in place.",
  ["inputs", "histories"], "all keys and key lengths, all data lengths and partitions",
  "one fixed key is compared with a known answer; other key lengths, long streams and call boundaries are only round-tripped",
  ["src/cipher/rc4.c"], [("key schedule and generator state", "src/cipher/rc4.c")], [("S/x/y", "generator state", "struct RaRc4Ctx")])
p("S06", "Cipher contexts are independent and fully reset by initialisation and SetIV",
  "Re-initialising a context with any key, key type and mode at any moment makes it indistinguishable from a new one, and setting the IV discards buffered input and restarts chaining at that IV. Operations on one context never influence another, whatever their ciphers and modes.",
  ["histories"], "all interleavings of init, set-IV, encrypt, decrypt and final calls over several live contexts of all ciphers",
  "each test creates one context, uses it in one direction and destroys it",
  BC + ["src/cipher/rc4.c"], [("*Init / RaBlockCipherInit / RaBlockCipherSetIV", "src/cipher/*.c")])
p("V01", "Every build configuration and accelerated path computes the same results",
  "Digest, cipher, big-number, random-generator and RSA results are identical whether the library uses the x86 accelerated code or the portable code, small or full tables, unrolled or rolled digests, 64-bit or 32-bit big-number words, assertions on or off, and whichever of gcc or clang at any optimisation level compiled it. (How many generator bytes a random big number consumes may depend on the word size, and the primes found from given generator bytes on the size of the trial-division table.)",
  ["configurations", "inputs"], "all supported configuration macros, compilers and optimisation levels; all inputs",
  "the suite is run for the one configuration cmake selects; the other branches of the configuration macros are not even compiled",
  DG + BC + [BN, "src/com/montexpmod.c", "src/com/prime.c", "src/include/racrypt.h"], [("configuration macros", "src/include/racrypt.h, racrypt_bn.h"), ("CPU dispatch", "src/cipher/aes_x86.c, src/digest/sha*_x86.c")])

p("B01", "Signed addition, subtraction, doubling and comparison are exact",
  "For all integers (any sign and size that fits), big-number addition, subtraction and doubling return exactly the mathematical result, also when the result replaces the first operand, and comparison orders numbers exactly as integers.",
  ["inputs"], "all operand pairs, all signs and word counts, including long carry/borrow chains, equal magnitudes and zero",
  "the tests add and subtract a handful of positive constants",
  [BN], [("magnitude add/sub with carry chains and sign dispatch", BN + " BnAdd/BnSub/_BnAdd/_BnSub/_BnAddR/_BnSubR/BnDouble/BnCmp")])
p("B02", "Multiplication and squaring are exact",
  "For all integers whose bit lengths together fit the result, big-number multiplication and squaring (also by a single signed or unsigned word) return exactly the mathematical product, and squaring agrees with multiplying a number by itself.",
  ["inputs"], "all operand pairs, all signs and word counts, including all-ones and sparse words that maximise carries",
  "a few constants are multiplied; carry patterns between partial products are not sampled",
  [BN], [("schoolbook multiplication with 128-bit partial products", BN + " BnMul/BnSqr/BnMulInt/BnMulUInt/_BnMul128")])
p("B03", "Division and modulo satisfy the exact division identity",
  "For all integers a and non-zero b, division yields q and r with a = q*b + r, |r| < |b| and r zero or of the sign of b (floored division); modulo yields r congruent to a modulo b with |r| < |b| and r zero or of the sign of a. Dividing by zero is reported as an error, never a result.",
  ["inputs"], "all operand pairs including multi-word divisors with estimated quotient digits that need correction, equal operands, and dividends shorter than divisors",
  "three divisions of constants are checked; the quotient-correction and equal-word branches are practically unreachable by such samples",
  [BN], [("Knuth-style division with normalisation and quotient estimation", BN + " BnDiv/BnMod/_BnDiv128")])
p("B04", "Single-word arithmetic, conversions and comparisons are exact at every value",
  "Assigning, reading back, adding, subtracting, multiplying, dividing, taking remainders of and comparing with a machine-word integer is exact for every signed and unsigned value including the extreme ones, for big numbers of every sign and size. Division by a word truncates toward zero and reports the remainder's magnitude.",
  ["inputs"], "all big numbers x all 32/64-bit signed and unsigned words, including 0, the minimum and the maximum",
  "a few small positive constants are used; sign changes, word-boundary borrows and extreme values are not sampled",
  [BN], [("BnSetInt*/BnAddInt/BnSubInt/BnMulInt/BnDivInt/BnModUInt/BnCmpInt", BN)])
p("B05", "Shifts and bit length are exact for every distance",
  "Shifting any number left or right by any distance multiplies or (on the magnitude) floor-divides it by the power of two exactly, for distances of zero, below, at and beyond word boundaries and beyond the number's own length; the reported bit length is that of the magnitude (1 for zero).",
  ["inputs"], "all numbers, signs and shift distances, with the result using any part of the available capacity up to all of it",
  "shifts are only exercised indirectly by the division code with distances below one word",
  [BN], [("BnShiftL/BnShiftR/BnGetBitLength", BN)])
p("B06", "Byte-array conversions are exact, minimal and bounded",
  "Converting any number to bytes yields its minimal two's-complement big-endian form, or its unsigned form zero-extended to the requested width, and parsing signed or unsigned bytes of any length restores exactly the encoded value. A length query reports the exact size, a buffer that is too small is refused with a zero return, and no byte beyond the result is written.",
  ["inputs"], "all numbers (positive, negative, powers of two and their neighbours) x all buffer sizes; all byte strings including redundant sign bytes",
  "a few positive values are converted; negative powers of two, sign-extension bytes and too-small buffers are not tested",
  [BN], [("BnSetByteArray/BnSetUByteArray/BnToByteArray/BnToFixedByteArray", BN)])
p("B07", "Results are always canonical, so equality is numeric equality",
  "Every number produced by any sequence of library operations is in canonical form - no leading zero words, a length of at least one word within its capacity, and zero is never negative - so comparing two numbers answers 'equal' exactly when their values are equal, however they were computed.",
  ["histories", "inputs"], "all sequences of big-number operations over a pool of numbers, followed by pairwise comparison",
  "tests compare single results with constants and never chain operations whose intermediate results are zero or shrink",
  [BN, "src/com/gcd.c", "src/com/montexpmod.c"], [("length trimming and sign assignment at the end of every operation", BN)], [("length/sign", "canonical representation", "struct RaBigNumber")])
p("B08", "Results that do not fit are refused with an error and never overrun memory",
  "When a result or value does not fit the destination's capacity the operation returns an error instead of success, no memory outside the numbers involved is read or written, and the number remains usable; when the destination has room for the result and for what the operation documents by its checks (the longest operand for sums and differences, the operands' combined bit length for products, the divisor for remainders), even exactly, the operation succeeds. (Builds with assertions disabled; with assertions on such misuse stops at an assertion.)",
  ["inputs", "configurations"], "all operations x all destination capacities from too small to exactly enough",
  "tests always allocate generously, so neither the refusals nor exact fits are exercised",
  [BN, "src/com/gcd.c", "src/com/montexpmod.c"], [("max_length checks", BN)], [("max_length", "capacity in words", "struct RaBigNumber")])
p("B09", "GCD and extended GCD are correct, with valid Bezout coefficients and inverses",
  "For all positive integers m and n of any relative size, gcd returns the greatest common divisor and the extended form additionally returns a and b with a*m + b*n = gcd. In the unsigned form, when m and n are coprime, a is the inverse of m modulo n in [0, n) and b the inverse of n modulo m in [0, m) (up to the trivial modulus 1).",
  ["inputs"], "all pairs of positive numbers: coprime, sharing factors, equal, one dividing the other, Fibonacci-like, differing greatly in length",
  "one inverse is computed in the tests",
  ["src/com/gcd.c"], [("Euclid / extended Euclid over BnDiv/BnMod", "src/com/gcd.c")])
p("B10", "Modular exponentiation is exact for every base, exponent and odd modulus",
  "For every odd modulus greater than 1, every non-negative base not longer than the modulus and every non-negative exponent, Montgomery exponentiation returns base^exponent mod modulus reduced into [0, modulus), also when the result overwrites the base and however often the context is reused. A base that is too long or a modulus that is zero or even is refused with an error.",
  ["inputs", "histories"], "all (modulus, base, exponent) triples, including exponent 0/1, base 0/1/N-1/>=N, moduli of all-ones words, sequences of calls on one context",
  "two or three exponentiations with fixed operands are compared; window and carry edge cases are not",
  ["src/com/montexpmod.c"], [("Montgomery reduction and sliding window", "src/com/montexpmod.c")], [("n0/Rl/tmp/mul", "per-modulus constants and scratch", "struct RaMontCtx")])

p("P01", "Primality decisions are right and always terminate",
  "The primality test accepts every prime and rejects every composite (for random-base rounds, with overwhelming probability), zero, one and even numbers above two, for numbers of every bit length including the smallest ones and those around word boundaries, and always finishes.",
  ["inputs"], "all non-negative integers: exhaustively for small ones, then primes, Carmichael numbers, strong pseudoprimes, semiprimes, prime powers of every bit length",
  "two known numbers are tested; termination for special bit lengths is never exercised",
  ["src/com/prime.c", BN], [("Miller-Rabin with random bases", "src/com/prime.c")])
p("P02", "Prime generation gives primes of exactly the requested size; cancel works",
  "Prime generation returns a probable prime whose bit length is exactly the requested one, reproducibly for a given seeded generator, and calls the progress callback with 1, 2, 3, ... before each attempt. When the callback asks to stop, generation stops at once and does not report success; nothing is leaked on any path.",
  ["inputs", "histories"], "all bit lengths from 2 upward, all generator seeds, all points at which the callback cancels",
  "a few fixed sizes are generated once and the result is only printed; cancellation is not tested",
  ["src/com/prime.c"], [("incremental sieve and Miller-Rabin loop", "src/com/prime.c")])

p("K01", "Generated RSA keys are valid and of exactly the requested size",
  "For every even size from 34 bits upward, key generation succeeds and the key has a modulus of exactly the requested bit length that is the product of two distinct primes of half that length, public exponent 65537, a private exponent inverse to it modulo (p-1)(q-1), and consistent CRT exponents and coefficient. From 256 bits upward two generated keys never share a modulus or a prime.",
  ["inputs", "histories"], "all even key sizes from 34 bits and all runs of the generator",
  "the tests generate a key or two and check a single encrypt/decrypt round trip",
  ["src/pk/rsa.c", "src/com/prime.c"], [("RaRsaCreateKeyPair", "src/pk/rsa.c")], observe=["exported private key parsed by an independent DER parser"])
p("K02", "RSA operations equal the textbook primitives and invert each other",
  "For every valid key and every representative m in [0, n), encryption returns m^e mod n, decryption and signing return m^d mod n, and each undoes the other; a public key refuses private operations with an error. The key is never modified by being used.",
  ["inputs", "histories"], "all keys (generated, imported, odd sizes), all representatives including 0, 1, n-1, multiples of p and q; arbitrary operation sequences on one key",
  "one fixed key and message are checked",
  ["src/pk/rsa.c", "src/com/montexpmod.c"], [("RaRsaEncrypt/Decrypt/Sign", "src/pk/rsa.c")])
p("K03", "Signature verification accepts exactly the matching signatures and never crashes",
  "Verification succeeds exactly when the signature is a number in [0, n) and signature^e mod n equals the message representative; it fails with an error for every other signature, message or key, including signatures that are altered in any bit, longer than the modulus or outside its range. It never crashes, aborts or reports success because an internal step failed.",
  ["inputs", "fault_sequences"], "all signatures and messages incl. single-bit alterations, oversized and out-of-range values, wrong keys; memory exhaustion at any point",
  "one valid signature is verified; nothing ever has to be rejected",
  ["src/pk/rsa.c"], [("RaRsaVerify", "src/pk/rsa.c")])
p("K04", "Key export and import are lossless, standard, and respect buffer sizes",
  "Exporting any key yields standard DER (PKCS#8 private, SubjectPublicKeyInfo public) that other implementations parse to the same numbers, importing restores a key that exports to identical bytes, and keys encoded by other implementations are imported with the same numbers. A null buffer only queries the exact size, a buffer that is too small is refused without writing, and no byte beyond the reported length is written.",
  ["inputs"], "all keys and sizes (values with and without a leading sign byte, short and long length encodings), all buffer sizes",
  "one fixed key is imported; export is compared with nothing independent and buffer handling is not tested",
  ["src/pk/rsa.c", "src/pk/asn1.c"], [("DER writer and RaRsaCreateKey* readers", "src/pk/rsa.c")])
p("K05", "Importing arbitrary bytes as a key is memory-safe: a usable key or an error",
  "For every byte string given to any of the key import functions the call returns, without reading outside the string, crashing, aborting, hanging or leaking, either an error or a key that can then be exported, used, verified and destroyed safely. Truncated key encodings are always refused.",
  ["inputs"], "all byte strings, in particular mutated, truncated, nested, indefinite-length and oversized-length DER; assertions on and off",
  "only well-formed keys are imported in the tests",
  ["src/pk/asn1.c", "src/pk/rsa.c", BN], [("bounds checks in ASN1Read/ASN1Parse; field type checks", "src/pk/asn1.c, src/pk/rsa.c")])
p("K06", "Import takes exactly the numbers that were encoded, or refuses",
  "Whenever a key import succeeds, every number in the key equals the integer encoded at its place in the input, in definite or indefinite-length encoding, and the algorithm identifier is exactly rsaEncryption. Well-formed BER encodings of a key with non-minimal (up to four length octets) or indefinite lengths are accepted. Inputs with another algorithm, wrong element types, missing elements, or a modulus that is zero, negative or even are refused.",
  ["inputs"], "all key encodings incl. BER variants of valid keys, substituted types, foreign OIDs, reordered or missing fields, other nesting depths",
  "the tests import one key and only check that a signature round trip works",
  ["src/pk/asn1.c", "src/pk/rsa.c"], [("RaRsaCreateKeyFromByteArray/Pub/Priv", "src/pk/rsa.c"), ("ASN.1 tree builder", "src/pk/asn1.c")])
p("K07", "Key verification accepts every valid key and detects every inconsistent one",
  "Key verification returns success for every consistent key pair (private exponent modulo (p-1)(q-1) or modulo lcm(p-1, q-1)) and for public keys with exponent below the modulus, and returns an error for any private key in which a single number - modulus, public or private exponent, either prime, either CRT exponent or the coefficient - has been changed so that the numbers no longer fit together, exponents and coefficient reduced as PKCS #1 requires. It terminates and never crashes whatever the numbers are.",
  ["inputs"], "all valid keys; all single-field alterations of all keys, incl. fields set to 0, 1, negative, composite, swapped or oversized values",
  "verification is called on one good key at most",
  ["src/pk/rsa.c"], [("RaRsaVerifyKey", "src/pk/rsa.c")])

p("R01", "Seeded generators are reproducible functions of algorithm, seed and position",
  "For a given algorithm and seed the generated byte stream is always the same documented hash chain (digest over all previous state plus a block counter), whatever the sizes of the requests that consume it, and generators do not influence each other. Different seeds or algorithms give different streams and the stream does not repeat.",
  ["inputs", "histories"], "all algorithms, seeds and seed lengths, all partitions of the consumed stream, interleaved generators",
  "no test compares generator output with anything",
  ["src/com/random.c"], [("hash-chain update and output buffer", "src/com/random.c")], [("buffer/buffer_offset/count", "position in the stream", "struct RaRandom")])
p("R02", "Random values respect their documented ranges and cover them",
  "Random reals lie strictly between 0 and 1, random integers lie in [min, max] for every min <= max including the full 32-bit range, and random big numbers are non-negative, below 2^bits (odd, or odd with the top bit set, for the odd/RSA variants) for every positive bit count. Every value of a small range, and every bit of a number, that should be possible does occur.",
  ["inputs", "histories"], "all ranges and bit counts, all generator states (including extreme raw outputs)",
  "the values are only printed or used indirectly; extreme raw generator outputs never occur in a short run",
  ["src/com/random.c", BN], [("RaRandom/RaRandomInt", "src/com/random.c"), ("BnGenRandom/BnGetRandomOdd/BnGetRandomRSA", BN)])
p("R03", "Unseeded generators draw fresh system entropy every time and release resources",
  "Generators created without a seed never share a stream, even when created at the same clock reading, in different threads or processes, or with the standard descriptors closed, because system entropy enters every seed in full. Creating and destroying generators leaks no memory or file descriptors, and without system entropy generators of different clock readings still differ.",
  ["histories", "fault_sequences"], "all numbers and timings of generator creations, fork/thread contexts, descriptor states, failures of the entropy source",
  "tests never create two unseeded generators and compare them, nor run with a frozen clock or a closed stdin",
  ["src/com/random.c"], [("RaRandomGetRandomSeedBytes", "src/com/random.c")])

p("M01", "Running out of memory at any point is reported cleanly",
  "For every API operation and every allocation inside it, failing that allocation makes the operation return the out-of-memory error (a null object from calls that return one, length zero from byte-array conversion) without crashing, aborting, hanging, leaking or handing out a partial object, and a later retry succeeds with the right result.",
  ["fault_sequences"], "all operations x all positions k of the failing allocation (single failure, and all allocations from k on)",
  "no test makes an allocation fail",
  ["src/com/bignumber.c", "src/com/gcd.c", "src/com/montexpmod.c", "src/com/prime.c", "src/com/random.c", "src/pk/rsa.c", "src/pk/asn1.c", "src/digest/", "src/cipher/"], [("NULL checks and _EXIT cleanup paths", "all modules")])
p("M02", "Legal use is free of memory errors, undefined behaviour, leaks, stale reads",
  "Every sequence of documented calls, with valid arguments in any order allowed by the interface, runs without out-of-bounds access, use after free, undefined arithmetic, reads of uninitialised data, assertion failures or leaked memory, and destroying a null or partially used object is harmless where the interface allows it.",
  ["histories", "inputs"], "all legal call sequences over all modules, with exact-size heap buffers, on accelerated and portable code and both word sizes",
  "the suite is not run under any sanitizer and covers short fixed sequences",
  ["src/"], [("buffer sizing and initialisation everywhere", "src/**")])
p("M03", "Calls read only their inputs and write only their outputs",
  "Every call reads input buffers only within the given length and writes output buffers only within the documented extent; input data, keys, IVs, seeds and the operands of big-number operations are never modified, whatever their alignment and placement. This includes the accelerated code paths.",
  ["inputs"], "all operations with inputs in read-only memory directly before an inaccessible page, outputs directly before an inaccessible page or surrounded by canaries, all alignments",
  "tests use ordinary arrays, where a few bytes of over-read or over-write go unnoticed; compiler sanitizers cannot see accesses made by inline assembly",
  DG + BC + [BN, "src/pk/rsa.c"], [("length handling in update/encrypt loops; const parameters", "src/**")])
p("M04", "Distinct objects may be used from different threads at the same time",
  "Threads that work on different objects (contexts, numbers, keys, generators), including first use of every algorithm at the same moment, never race and each obtain the same results as when run alone.",
  ["schedules"], "all interleavings of threads running any mix of operations on disjoint objects",
  "the suite is single-threaded",
  ["src/"], [("no mutable global state; constant tables; CPU feature detection", "src/**")])
p("M05", "Destroying an object erases the secrets it held",
  "When a cipher, digest, random-generator, Montgomery or RSA key object is destroyed - or a big number is cleared and freed - no key, round key, private number, state or buffered data remains in the memory it releases.",
  ["histories", "configurations"], "all object kinds, key sizes and points of destruction, in optimised builds",
  "tests cannot see freed memory, and a compiler may silently drop a final memset",
  ["src/cipher/", "src/digest/", "src/com/random.c", "src/com/montexpmod.c", "src/com/bignumber.c", "src/pk/rsa.c"], [("memset before free / BnClearFree", "all *Destroy functions")])
p("N01", "Secret-independent timing and attacker-proof unpredictability",
  "Execution time and memory access patterns do not depend on secret data, and the output of unseeded generators cannot be predicted by an attacker.",
  ["inputs", "schedules"], "all secrets and all observers",
  "timing and unpredictability are not visible in return values",
  ["src/"], [("none: table-based ciphers and data-dependent big-number code by design", "src/**")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
