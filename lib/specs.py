"""What each check runs: harness sources, configurations (with the share of the case budget) and fuzz targets."""
COMMON = ['main.cpp', 'vf_alloc.c', 'vf_cfg.c', 'ref.cpp']
PLAIN = ['hist.c', 'threads.c', 'pmain.c']     # for the configurations whose libc calls are left alone
SPECS = {}


def spec(pid, harness, variants, rule, fuzz=(), **kw):
    SPECS[pid] = dict(harness=COMMON + (PLAIN[:2] if harness == 'life.cpp' else []) + [harness], variants=list(variants), rule=rule, fuzz=list(fuzz), **kw)


spec('D01', 'digest.cpp', [('ship', 1), ('san', .15), ('w32', .15), ('port', .5)],
     'messages of every length 0..559 (thorough 0..4199) for all 11 digests one-shot and streamed, random textured messages to 400 kB biased to padding boundaries, self-feeding chains, libFuzzer inputs; non-trivial: every message (distinct by content, algorithm and interface)',
     fuzz=[('fuzz', (120000, 3000000), 600)])
spec('D02', 'digest.cpp', [('ship', 1), ('san', .15), ('w32', .15)],
     'random histories of open/update/copy/re-init/final over 4 contexts, all two-way (with random three-way) splits of messages of 0..289 bytes, fixed chunk sizes 1..140; non-trivial: a history with at least one update, distinct by the sequence of operations and sizes',
     fuzz=[('fuzz', (60000, 1500000), 600)])
spec('D03', 'digest.cpp', [('ship', 1)],
     'every digest is streamed past 2^24, 2^29, 2^31 and 2^32 bytes (thorough 2^33), crossing each power both in steps of 0..39 bytes with a digest taken after each step and in one large update; single updates of almost 2^31 bytes; MD2 only to 2^25 (thorough 2^29); non-trivial: each digest taken at a distinct total length')
CIPH = [('ship', 1), ('san', .12), ('w32', .12), ('port', .5)]
spec('S01', 'cipher.cpp', CIPH, 'random and textured keys and blocks for 11 ciphers (all Blowfish key lengths 1..72), single-bit keys and blocks, DES weak/semi-weak/degenerate keys, 1000-step chains, libFuzzer inputs; each block is compared with OpenSSL in both directions; non-trivial: every distinct (cipher, key, block)', fuzz=[('fuzz', (60000, 1500000), 300)])
spec('S02', 'cipher.cpp', CIPH, 'random multi-call whole-block messages in 4 modes x 11 ciphers x 2 directions with explicit or initial IV and GetIV/SetIV hand-over between contexts, all block counts 0..20, messages of thousands of blocks; non-trivial: distinct (cipher, mode, direction, key, data)', fuzz=[('fuzz', (60000, 1500000), 400)])
spec('S03', 'cipher.cpp', CIPH, 'random call sequences with lengths biased to the buffered remainder, all two-way splits of short streams, calls up to 1 MB, in-place aligned calls; return value, output bytes and surroundings compared with a reference stream; non-trivial: distinct (key, sequence of lengths)', fuzz=[('fuzz', (60000, 1500000), 400)])
spec('S04', 'cipher.cpp', CIPH, 'every cipher x mode x padding x length 0..69 round trip, random lengths and split points, decryption of chosen padding tails (all last-byte values, corrupted interiors, incomplete blocks), next-message checks; non-trivial: distinct (cipher, mode, padding, data)', fuzz=[('fuzz', (60000, 1500000), 400)])
spec('S05', 'cipher.cpp', CIPH, 'every key length 0..256 with random call sequences in both directions and in place, megabyte streams, alternating and re-initialised contexts against OpenSSL RC4; non-trivial: distinct (key, stream length)', fuzz=[('fuzz', (40000, 1000000), 400)])
spec('S06', 'cipher.cpp', CIPH, 'random histories (create, init, SetIV, GetIV, encrypt, decrypt, final) over 3 contexts against a model per context, every ordered pair of key type and mode on one context; non-trivial: distinct histories', fuzz=[('fuzz', (40000, 1000000), 400)])
TECH = 'run-time monitoring: reference-model oracle over generated and fuzzed workloads, sanitizer and portable builds'
BNV = [('ship', 1), ('port', 1), ('w32f', 1), ('san', .15), ('w32', .15)]
BNF = [('fuzz', (60000, 1500000), 300), ('fuzzw32', (40000, 1000000), 300)]
BNR = ' operands of 0..70 words with boundary textures (all ones, powers of two and neighbours, sparse and repeated words, related pairs), both word sizes, every result and operand compared with OpenSSL BIGNUM; non-trivial: distinct operand tuples'
spec('B01', 'bn.cpp', BNV, 'sum, difference, in-place forms, doubling, comparison, copies of' + BNR, fuzz=BNF)
spec('B02', 'bn.cpp', BNV, 'products, squares and word products (exact-fit destinations) of' + BNR, fuzz=BNF)
spec('B03', 'bn.cpp', BNV, 'floored division and truncated modulo, dividends built from chosen quotient digits and remainders, equal top words, division by zero (assertions off);' + BNR, fuzz=BNF)
spec('B04', 'bn.cpp', BNV, 'assignment, read-back, word add/sub/mul/div/mod and comparison with extreme words, full grid of boundary numbers x words x operations;' + BNR, fuzz=BNF)
spec('B05', 'bn.cpp', BNV, 'shifts by all distances 0..599 over boundary textures and random distances to 3000 with exact capacity, bit length;' + BNR, fuzz=BNF)
spec('B06', 'bn.cpp', BNV, 'signed and fixed-width output into buffers of every relation to the size, parsing of random, sign-extended and exhaustive 1-2 byte strings;' + BNR, fuzz=BNF)
spec('B07', 'bn.cpp', BNV, 'random histories of 2-25 operations over 5 numbers with canonical-form and value checks after each and all pairwise comparisons, and values recomputed by 9 routes;' + BNR, fuzz=BNF)
spec('B08', 'bn.cpp', [('port', 1), ('sannd', .3), ('w32nd', .3)], '19 operations plus gcd and expmod with destination capacities from below to just above the need (assertions off), AddressSanitizer and heap canaries watching;' + BNR, fuzz=[('fuzznd', (60000, 1500000), 300)])
spec('B09', 'bn.cpp', BNV, 'gcd, Bezout identity and inverses for products with common factors, equal, divisible, Fibonacci, power-of-two and small pairs (all 1..120);' + BNR, fuzz=[('fuzz', (10000, 400000), 300)])
spec('B10', 'bn.cpp', BNV, 'base^exponent for odd moduli to 3000 bits, unreduced bases, window-boundary exponents, in place, repeated on one context, even/zero moduli and long bases refused;' + BNR, fuzz=[('fuzz', (6000, 200000), 300)])
PV = [('ship', 1), ('port', .5), ('w32f', .5), ('san', .1), ('w32', .1)]
spec('P01', 'prime.cpp', PV, 'all numbers below 25600 (thorough 384000), primes and near-powers of two of every bit length 2..701, semiprimes, powers, Carmichael numbers, worst-case and published pseudoprimes, k*2^s+1 with s across word boundaries, primes of named standards; a composite is reported when it passes again in 6 of 16 independent tests; the acceptance rate of worst-case composites is measured against 4^-5 and 4^-3; non-trivial: distinct numbers')
spec('P02', 'prime.cpp', PV, 'prime generation for every bit length 2..331, word boundaries, up to 1027 bits, all four seeded generators, repeated with the same seed, cancelled at the first, a random and the last attempt, with and without own generator; non-trivial: distinct (seed, length)')
RV = [('ship', 1), ('port', .5), ('w32f', .5), ('san', .15), ('w32', .15)]
spec('R01', 'random.cpp', RV, 'random seeds of 0..400 bytes, four algorithms, up to three interleaved generators, random request sizes, all two-way partitions, streams of tens of thousands of blocks and requests over a megabyte, compared byte by byte with an independent model of the hash chain (OpenSSL digests); related seeds; non-trivial: distinct seeds and request sequences', fuzz=[('fuzz', (30000, 1000000), 300)])
spec('R02', 'random.cpp', RV, 'reals and integers with raw outputs of 0, 2^32-1 and neighbours injected, ranges with boundary limits incl. the full range, frequency of every value of small ranges, all bit counts 1..300 (to 1500) for the three number generators with every free bit seen both ways, every value of short numbers; non-trivial: distinct results or ranges', fuzz=[('fuzz', (30000, 1000000), 100)])
spec('R03', 'random.cpp', RV, 'unseeded generators at one frozen clock reading (in a row, in threads, in forked processes, implicit ones, with closed standard descriptors), scripted entropy with every bit flipped, entropy source that cannot be opened, fails, is interrupted or returns short reads; descriptors and blocks counted; non-trivial: distinct streams')
KV = [('ship', 1), ('port', .5), ('w32f', .5), ('san', .1), ('w32', .1)]
KVV = KV + [('shipv', .5)]
spec('K01', 'rsa.cpp', KV, 'key generation for every even size 34..352, word boundaries, sizes to 2048 (thorough 3072), thousands of 34-64 bit keys, scripted and system entropy; every number of the key recomputed with OpenSSL BIGNUM, all numbers of keys of 256 bits and more compared with those of all earlier keys; non-trivial: distinct keys')
spec('K02', 'rsa.cpp', KVV, 'balanced and unbalanced keys of 6..2048 bits (e 3, 17, 65537, large; d modulo phi and lcm), representatives 0, 1, n-1, multiples of the primes, powers of two; histories with refused operations in between, in place, exact destinations, every representative of tiny keys; key bytes compared before and after; non-trivial: distinct (key, representative)', fuzz=[('fuzz', (8000, 300000), 200)])
spec('K03', 'rsa.cpp', KVV, 'for each key and message: the signature, every altered bit (also beyond the modulus), s+kn, -s, n-s, messages +-n, +kn, shifted and shortened numbers, other keys, every (signature, message) pair of tiny keys, unusual exponents, failing allocations; outcome compared with 0<=s<n and s^e mod n = m; non-trivial: distinct (key, signature, message)', fuzz=[('fuzz', (16000, 400000), 200)])
spec('K04', 'rsa.cpp', KVV, 'exports compared byte for byte with an independent DER writer for keys of 6..2048 bits and arbitrary numbers (lengths at every step of the encoding, over 65535 bytes), all buffer sizes 0..length+3 (sampled for long ones), exchanged with OpenSSL in both directions in four formats; non-trivial: distinct (key, buffer size)')
spec('K05', 'rsa.cpp', KVV + [('sannd', .3), ('w32nd', .3)], 'mutated, truncated (every prefix), random-structure, deeply nested, extreme-length and raw inputs to the three import functions; each imported key is exported, verified and used; AddressSanitizer and UBSan, assertions on and off, leak accounting; non-trivial: distinct inputs', fuzz=[('fuzz', (120000, 4000000), 600), ('fuzznd', (40000, 2000000), 600), ("fuzzw32", (40000, 2000000), 600)])
spec('K06', 'rsa.cpp', KV, 'mutated and random-structure inputs read by an independent lazy BER reader whenever the import succeeds; well-formed encodings with random length forms; one defect in a good encoding (14 kinds); every identifier bit flipped; non-trivial: distinct inputs', fuzz=[('fuzz', (120000, 4000000), 600)])
spec('K07', 'rsa.cpp', KVV, 'valid keys (d modulo phi and lcm, balanced and unbalanced, both prime orders), every bit of every number flipped, 15 kinds of alteration of each number (also congruent but unreduced values), 12 kinds of keys with exactly one broken relation, all pairs of small primes, arbitrary numbers; outcome compared with the definition; also with verification at import; non-trivial: distinct keys', fuzz=[('fuzz', (24000, 600000), 300)])
LIFE = 'life.cpp'
spec('M01', LIFE, [('ship', 1), ('port', .4), ('w32f', .4), ('san', .5), ('w32', .4), ('sannd', .3), ('w32nd', .3), ('shipv', .3)],
     'every allocation of every call is made to fail in turn (alone, and with all later ones) in the middle of random histories over all modules, which must return out-of-memory, leave no block behind and give the same transcript as an undisturbed run once repeated; every object-making call (31 kinds, RSA imports, key generation, Montgomery, numbers) with every failing position, output pointer and retry checked; non-trivial: distinct (history state, call, failing position)')
spec('M02', LIFE, [('ship', 1), ('port', .5), ('w32f', .5), ('san', 1), ('w32', 1), ('sannd', .5), ('w32nd', .5), ('msan', .5), ('msan32', .5), ('shipv', .3)],
     'random legal histories of 3-80 operations over all modules with exact-size buffers, caller- and library-owned contexts, copies and re-initialisation, destroyed in varying order, and documents of up to hundreds of elements given to every import function, under AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, heap canaries, live-block accounting and assertions; libFuzzer-chosen histories; non-trivial: distinct transcripts',
     fuzz=[('fuzz', (24000, 1000000), 400)])
spec('M03', LIFE, [('ship', 1), ('port', .5), ('w32f', .5), ('clangO2', .3)],
     'inputs, keys, IVs, seeds, encodings and operands in read-only pages that end at an inaccessible page (or start after one at every offset 0..17), outputs of the documented extent likewise with the surrounding bytes checked, contexts and library blocks in pages of their own, for digests, all ciphers and modes, RC4, generators, 24 number operations, RSA import/export/operations and whole random histories, compared with the results for ordinary placement; non-trivial: distinct (operation, sizes, placement)')
spec('M04', LIFE, [('ship', 1), ('port', .4), ('w32f', .4), ('clangO3', .4), ('tsan', 1), ('tsanp', 1)],
     'processes with 2-8 threads that use every algorithm for the first time at the same moment (or staggered, or unsynchronised) and then run random histories on objects of their own with injected yields and sleeps, results compared with the same work done one after the other in a fresh process; ThreadSanitizer on accelerated and portable code; non-trivial: distinct interleavings (order in which the threads complete their operations)')
spec('M05', LIFE, [('ship', 1), ('gccO3', .5), ('clangO2', .5), ('clangO3', .5), ('gccO0', .3), ('w32f', .5), ('port', .5)],
     'pairs of equal object lives that differ in their secrets only (keys, IVs, data, seeds, entropy, private numbers of RSA keys with one modulus): every byte released by the destruction, captured at free(), must be the same in both; generated keys: no part of a private number in the released blocks; 11 digests, 11 ciphers, RC4, generators, numbers, Montgomery contexts, RSA keys at several points of their lives in seven optimisation settings; non-trivial: distinct (kind, history of sizes)')
spec('V01', LIFE, [(v, 1) for v in ('ship', 'port', 'w32f', 'w32c', 'gccO0', 'gccO3', 'gccOs', 'clangO1', 'clangO2', 'clangO0', 'clangO3')],
     'the same seeds run in eleven configurations (accelerated or portable, full or small tables, unrolled or rolled digests, 64- or 32-bit words, assertions on or off, gcc and clang at -O0 to -O3 and -Os): transcripts of random histories over all modules, long inputs to every algorithm, prime generation and key pairs from seeds compared across all of them; a configuration that no longer compiles is a violation; non-trivial: distinct results',
     compare=True, all_configs=True)

# the cheap checks run a multiple of their written case counts
for _p, _m in dict(S01=3, S02=5, S03=5, S04=5, S05=4, S06=5, B02=5, B03=4, B04=5, B05=5, B06=5, B07=5, B08=2, B09=4, B10=5, P02=2, R01=4, R02=4, R03=4, M01=2, M02=3, M03=2, M05=3).items():
    SPECS[_p]['quick'] = _m
