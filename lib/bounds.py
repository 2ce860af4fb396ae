"""What each check enumerates (used for the evidence files and the manifest).
BOUNDS[id] = (text, oracle); the thorough tier only enlarges the spaces: the
larger figures are in brackets."""
BOUNDS = {
"C01": ("All pairs of values of at most 3 [5] digits over the digit alphabet {0,1,2,mid-1,mid,top-1,top} and both signs, with 8-bit digits also all pairs in -270..270 [-1300..1300], and carry/borrow chains of up to 33 64-bit digits, values of 65535..65540 digits and shifts and values up to 1048577 bits, every value of the leading byte at every byte position of two digits; through add, sub, mul, sqr, their magnitude forms, digit forms, cmp, abs, copy, swap, count_bits; every aliasing pattern of destination and operands, destinations pre-filled with every kind of previous content; every shift 0..33 (8-bit digits) or around each digit boundary (64-bit); all histories of 2 [3] operations out of 6 on two registers. Digit widths 8 and 64.",
        "GMP (mpiref.hpp builds and reads the representation itself), plus structural invariant of the result (canonical form, allocation, sign of zero)"),
"C02": ("8-bit digits: every 16-bit dividend by every 8-bit divisor [every 16-bit by every 16-bit], all signed pairs within +-400 [2000], products q*b+d for 20^3 three-digit divisors and structured quotients (forces the estimate-too-large and add-back cases); both widths: all pairs of <=3-digit values over the edge alphabet with all sign combinations, dividends of up to 17 digits of long runs, 23 x 23 sizes of quotient and divisor up to 513 digits x 18 [36] content kinds, divisors of 65534..65600 digits, quotients of up to 65540 digits; every choice of omitted outputs and every aliasing; every zero divisor.",
        "q and r compared with GMP floor division (native 64-bit arithmetic for the 8-bit digit sweeps)"),
"C03": ("Every pair of sizes 1..20 [40] x digit patterns (all ones, top bit, sparse, alternating, carry-cancelling) x every multiplier, with and without aliasing; every squarer for sizes 1..72 [200] and every 2-digit 8-bit value; sizes 60..136 and 296..310 around the Karatsuba/Toom-3 thresholds; a list of balanced and unbalanced sizes up to 905 digits including 254..259 (8-bit column accumulator limit). Digit widths 8 and 64.",
        "GMP product"),
"C04": ("gcd/lcm: all |a|,|b| <= 330 (8-bit digits) or 60; inverse: every modulus <= 330 and every a in -m-3..2m+3, by both inversion algorithms; modular powers: every modulus <= 26, base and exponent; square root: every value below 2^19 [2^23]; structured 3 to 6 digit families for all, sizes of real keys (7..66 [256] digits, 6 content kinds, full-length exponents), exponents of up to 65537 bits, gcd/inverse/root operands of thousands of bits, every aliasing of the result, refusals. Digit widths 8 and 64.",
        "GMP number theory"),
"C05": ("Bytes: lengths 0..14 (8-bit) / 0..42, every number of leading zeros, 8 patterns, every 3-byte value below 2^17 [2^24], stores into every room size (exact-size buffers), rooms and leading zeros up to 1000 and around 65536 bytes, byte strings and hexadecimal text of up to 140000 characters; text: every radix 2..36, all |v| <= 2600 plus digit-edge families and numbers of up to 129 digits, every text of <= 3 [4] characters over a 26-character alphabet for refusal; machine integers: all edges of every C integer width; printing of the same values.",
        "independent conversions"),
"C06": ("rand: every generator answer for up to 16 bits and structured answers for every size up to 330 bits and 29 sizes up to 1048577 bits; rand_range: every max <= 140 and every answer; is_prime: every value -1024..66000 with 7 generator answers, primes with every 2-byte answer, the complete strong-liar sets of 8 composites, 400 base sequences for each of 40 larger Carmichael/square/close-factor composites; primes of up to 2048 bits; prime generation up to 2048 [3072] bits: every answer sequence of <= 2 bytes at 8 bits, all sequences over an alphabet at 16 bits, every iteration budget. The generator is the environment: its answers are enumerated.",
        "sieve, independent Miller-Rabin liar computation, bit-length predicates"),
"C07": ("Every non-singular curve over p in {5,7,11,13}: every pair of points, doubling, every aliasing; four larger curves with every pair; every multiple k <= 2*#E+20 of every point; every scalar below 4200 [70000] on one curve and all scalars with two set bits / one run of set bits up to 130 bits, scalars of up to 65537 bits; three scalar multiplication methods; digit widths 8 and 64.",
        "group law on integers modulo p (textbook chord and tangent)"),
"C08": ("All 11 named curves: every parameter, membership of the generator, order; generator multiplied by 0..~70, all powers of two and neighbours, window and digit boundary values, n-2..2n+2, runs; exceptional additions; identifiers -3..63. Digit widths 64 and 32 [8].",
        "OpenSSL's curve parameters and point arithmetic; independent affine arithmetic"),
"C09": ("Groups (p,q) = (7,3),(23,11),(43,7),(67,11),(47,23),(131,13): every private key, every hash value, every r,s in -2..2q+1; signing with every byte the generator can deliver; message lengths around the length of q and up to 65560 bytes; structured groups up to 2048/256 [3072/512] bits with every single-bit alteration; key generation over enumerated generator streams, with each of the last 4 [8] and first [4] answers replaced by each of 18 extreme values (0, 1, p-1, p, q-1, q, ...).",
        "DSA equation evaluated by independent arithmetic"),
"C10": ("Every prime-order curve over p <= 23: every key, hash value, r, s (also zero, out of range, identity sums); signing with every generator byte; named curves with structured keys, messages of all lengths around the order's length and up to 65536 bytes, every single-bit alteration; key generation.",
        "ECDSA equation evaluated by independent arithmetic"),
"C11": ("p in {5,7,11,13}: every generator, private key, message value, r, s, both call pairs; signing with every generator byte; structured groups up to 2048 bits with alterations; messages of every length 0..300 and up to 2^20+3 bytes (refused when longer than p).",
        "ElGamal equation evaluated by independent arithmetic"),
"C12": ("Tiny moduli (1-2 bytes): every message value and every signature value; padded: moduli of 96..2048 [4096] bits (the long ones with lengths at the block edges), every message length up to 3 blocks and 18 lengths up to 66000 [131077] bytes, contents incl. leading zeros and padding-like bytes; every shape of a decoded block (each padding byte position and value class); every generator answer class for the padding; key generation for sizes 16..512 [1024], 16-bit keys for every sequence of the first 5 generator answers over 7 values; every wrong length.",
        "independent PKCS#1 v1.5 and modular arithmetic"),
"C13": ("All histories of 5 [6] operations (DH) and 4 [6] (ECDH) over a 10-operation alphabet of two parties (init, set secrets, agree, finalise, export, import, clear, re-run); every generator and exponent pair of small groups; moduli up to 2048 bits and named curves with structured exponents; all export and import sizes up to 119 bytes and around every power of two up to 2^17.",
        "protocol model: g^(ab) by independent arithmetic and a per-context state machine replayed in lock step"),
"C14": ("Each key byte at every value over 3 backgrounds, each plaintext byte at every value x 3 keys, all pairs of key bits, long runs, 0..40 blocks x 9 buffer offsets, long lengths around every power of two from 2^11 to 2^17 (2^20); all histories of 6 [7] (AES) / 5 [6] (DES, 3DES) operations over {set key of each size, encrypt/decrypt of 0,1,2,3 blocks, in place or not}.",
        "OpenSSL block ciphers"),
"C15": ("AES-128/256, DES, 3DES x 7 mode directions: every length up to 1100 [2200] in place and not, plus long lengths around every power of two from 2^11 to 2^17 (2^20); all 2^8 [2^11] compositions of a 9 [12]-unit message into calls x 4 in-place patterns x tails; counter starts with every number of trailing FF bytes; all histories of 5 [6] (CFB: 4 [5]) operations of key, IV, crypt, clear.",
        "textbook mode over OpenSSL block functions, replayed in lock step"),
"C16": ("3 key sizes x 20 IV lengths x every associated-data length 0..66 [150] x every text length 0..80 [200]; long IVs, associated data and texts up to 131093 [2^20] bytes; every block split of associated data and text; counters at all wrap edges (IV computed backwards from the wanted counter); every single-bit change of each input; all histories of 6 [7] operations out of 9; 2^29+16 byte inputs (bit lengths above 2^32).",
        "GCM model over OpenSSL AES, itself compared with OpenSSL GCM on every fifth shape"),
"C17": ("RC4: every key length 1..256 x 24 [256] contents, every two-byte key, every length 0..600 plus long lengths around every power of two from 2^11 to 2^17 (2^20), all 2^12 [2^15] splits of 13 [16] bytes; Trivium: every key/IV bit over 3 backgrounds, key and IV sizes 0..12, lengths 0..200 [600] plus long lengths around every power of two from 2^11 to 2^17 (2^20), all 4-byte splits; all histories of 5 [6] operations.",
        "RC4 model and bit-level Trivium model written from the specifications"),
"C18": ("Every length 0..1100 [4200] x 3 contents, every byte value at each position of a block; every division into two (and, near the edges [always], three) updates of all lengths up to 2 [3] blocks, all compositions of 10 [12] bytes straddling the padding and block edges; all histories of 7 [8] operations; 512 MB messages (length counter above 2^32 bits) and messages of more than 4 GB in a single update.",
        "OpenSSL digests"),
"C19": ("HMAC-MD5/SHA-1/SHA-256: every key length 0..140 [300] x message length 0..130 [200]; CMAC: 3 key sizes x lengths 0..300 [600]; long keys and messages up to 2^20+3; every division into three updates, all compositions of 11 [14] bytes after 5 prefixes; every key bit; hash and cipher interfaces without the optional calls; all histories of 6 [7] operations.",
        "OpenSSL HMAC; CMAC model over OpenSSL AES"),
"C20": ("Every 3-byte message for each of the 4 CRCs (reaches every 16-bit register value with every next byte), every length 0..300 with every two-way split, long lengths up to 2^20+3, all 2^13 [2^17] compositions of 14 [18] bytes, 5-byte messages for the 32-bit register, every 16-bit start value and flag combination of the generic form.",
        "bit-serial polynomial division"),
"C21": ("Seed lengths 0..80 x 4 contents x 3 previous states, every request length 0..70 [200] from every offset 0..19, long requests and seeds up to 2^20+3, single-bit seeds, counter carries at every byte, component values 0..299 around the minima, all histories of 5 [6] operations out of 13 (8 request sizes, 5 seeds).",
        "models of the published algorithms over OpenSSL AES, replayed in lock step"),
"C22": ("Every 1- and 2-byte string, 3-byte strings (a 1/15 sub-lattice [all 2^24]), lengths 0..1000 [4000] and up to 2^20+5; every character value at every position of 1-3 groups, all 4-character texts over 20 characters, all 8-character texts over 6 [7], every length 0..300 with every kind of padding; exact-size buffers under AddressSanitizer.",
        "independent codec"),
"C23": ("3 key sizes x every length of 2..100 [400] blocks and up to 11000 blocks (step counter above 2^16), every data/key bit; every single-bit flip, byte replacements, block swaps and truncations of wrapped data of 5 sizes; refused lengths.",
        "RFC 3394 model over OpenSSL AES"),
"C24": ("Every placement of two sources and the destination in a common arena for sizes 0..13 [20] and 16..33 (every overlap), every placement of source/destination for sizes 0..48, overlaps of 20 sizes up to 4097 at 37 distances (and pairs of distances), every alignment for sizes 0..300 [700] and long sizes up to 2^20+3 in exact-size buffers.",
        "byte-wise XOR of a snapshot"),
"C25": ("Hill: every 1x1 key, 2x2 keys over 12 [15] values, all 3x3 over {0,1,255}, a lattice of 4x4, patterns up to 8x8 [9x9], data of up to 2^20+8 bytes, supplied inverses right and wrong, generated keys over enumerated draws; affine: every (a,b) with every byte, key lengths 1..40 x data lengths 0..100 and up to 2^20+3, an even multiplier at every position.",
        "textbook formula and independent determinant modulo 2"),
"C26": ("For every one of about 100 operation scenarios (integers, curves, public-key operations, key generation): every single failing allocation and every 'all fail from n on', all values of n (about 490000 executions). Integer results into fresh and used destinations; after a failure the result object must be canonical. DSA key generation: the first 300 [4000] allocations only.",
        "result of the run without failure; operands, objects and the heap (leaks, double frees) inspected after each failed call"),
"C27": ("All ordered pairs of 85 operations (about 7200 pairs), with short and long inputs, refusals included; the library is built at -O0 so that the optimiser removes no access; random numbers come from a generator per thread, so that pairs of signing, encrypting and key generating operations are explored too (only the two generators themselves are not paired with themselves). The memory accesses of both are recorded by compiler instrumentation and library interposition; if no access conflicts, every interleaving is equivalent to the serial one (partial-order argument); where a conflict exists the interleavings at conflicting accesses are executed under a controlled scheduler.",
        "results of the operations executed alone"),
"C28": ("All operation sequences of 3..5 [+1] steps on every context type (ciphers, modes, hashes, MACs, PK contexts) executed twice with different secrets: the cleared contexts must be byte-identical; every heap block released during a clear must be wiped; every re-initialised context is run through a probe sequence and compared with a fresh one.",
        "two-secret non-interference, differential comparison with a fresh context"),
"C29": ("33 [62] build configurations (4 digit widths x option sets, x86/x86-64 assembler, -O0/-Os/-O2/-O3, AddressSanitizer) x a workload of about 12600 operation cases (integers of both signs with every aliasing of outputs and operands, curves, signatures, RSA, DH).",
        "reference arithmetic for each case, and equality of the digest of all outputs over all configurations"),
}
