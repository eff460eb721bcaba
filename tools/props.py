TRUST = ("Trusted: clang 18's lowering of the source to LLVM IR, the IR interpreter in vlib (engine.py, anf.py) and the "
         "reference definitions written down in the check. ")
BOUND = ("Data, keys and buffered state are fully symbolic; message lengths and call splits are enumerated "
         "over every alignment of the block/lane structure, not proved by induction over the length. ")

prop("C01", "AES computes FIPS-197 for every key and block, in every implementation",
     """For every 16, 24 or 32 byte user key and every block, AES encryption and decryption produce exactly the FIPS-197
     result, in both the table-based and the hardware implementation, also when the output buffer is the input buffer.
     No call reads outside the user key or the input block or writes outside the output block.""",
     ["inputs", "configurations"], "all keys of the three sizes, all blocks, all table entries and both implementations",
     """Tests sample a few hundred of 2^256 key/block pairs; one wrong table entry, a wrong round-key index or an
     over-read of a few key bytes only shows for particular values or at a page end.""",
     ["src/aes/aes_lut.cpp", "src/aes/aes_aesni.cpp", "include/gmlib/aes/aes.h"],
     [("table rounds and tables", "src/aes/aes_lut.cpp"), ("AES-NI key expansion and rounds", "src/aes/aes_aesni.cpp"),
      ("dispatch", "include/gmlib/aes/aes.h")],
     "abstract interpretation of the LLVM IR in an algebraic-normal-form value domain; value graph compared with the FIPS-197 value graph",
     TRUST + "Every input bit symbolic; all paths covered; the AES instructions are modelled by their documented semantics.")

prop("C02", "SM4 computes GB/T 32907 for every key and block, in every implementation",
     """For every key and every block, SM4 encryption and decryption produce exactly the GB/T 32907 result in the portable
     and the vectorised implementation, and multi-block calls produce for each block what a single-block call produces,
     also in place. No call reads or writes outside its buffers.""",
     ["inputs", "configurations"], "all keys, all blocks, every lane position of the multi-block routines, both implementations",
     "Tests sample a few blocks; a wrong table entry or lane shuffle shows only for particular byte values in particular lanes.",
     ["src/sm4/sm4_common.cpp", "src/sm4/sm4_lang18.cpp", "include/gmlib/sm4/sm4.h"],
     [("portable rounds", "src/sm4/sm4_common.cpp"), ("byte-sliced rounds", "src/sm4/sm4_lang18.cpp"), ("dispatch", "include/gmlib/sm4/sm4.h")],
     "abstract interpretation of the LLVM IR in an algebraic-normal-form value domain; value graph compared with the GB/T 32907 value graph",
     TRUST + "Every key and data bit symbolic; AVX2/AES-NI instructions modelled by their documented semantics.")

prop("C03", "SM3 computes GB/T 32905 for every message and every way of splitting it",
     """For every message the SM3 digest is exactly the GB/T 32905 value, in the portable and the vectorised implementation,
     however the message is cut into update calls and whether or not the last piece is given to the final call.
     After finishing or resetting, the object hashes the next message as a fresh one.""",
     ["inputs", "histories", "configurations"], "all message contents, chaining values and buffered bytes; lengths and splits around every padding boundary",
     "Tests sample contents; padding and buffering errors show only for particular residues of the length and particular call sequences.",
     ["src/sm3/sm3_common.cpp", "src/sm3/sm3_yang15.cpp", "include/gmlib/sm3/sm3.h", "include/gmlib/hash_lib/hash.h"],
     [("compression", "src/sm3/sm3_common.cpp"), ("vectorised compression", "src/sm3/sm3_yang15.cpp"), ("buffering", "include/gmlib/hash_lib/hash.h")],
     "abstract interpretation of the LLVM IR; sums, rotations and boolean steps in a normal-form value domain, compared with the GB/T 32905 value graph",
     TRUST + BOUND)

prop("C04", "GHASH multiplies in the SP 800-38D field for every hash key and every split",
     """For every hash key and every input, GHASH returns exactly the SP 800-38D value in the portable, table and
     carry-less-multiply implementations, however the input is cut into update calls.
     Setting a key or resetting starts a fresh computation that depends on nothing that was fed before.""",
     ["inputs", "histories", "configurations"], "all hash keys, accumulators and blocks symbolically; lengths and splits around every block boundary",
     "Tests sample keys; a wrong reduction-table entry or a lost carry shows only for particular bits of the key or data.",
     ["src/ghash/ghash_common.cpp", "src/ghash/ghash_lut256.cpp", "src/ghash/ghash_pclmul.cpp", "include/gmlib/ghash/ghash.h", "include/gmlib/hash_lib/hash.h"],
     [("bitwise multiply", "src/ghash/ghash_common.cpp"), ("table multiply", "src/ghash/ghash_lut256.cpp"),
      ("PCLMULQDQ multiply", "src/ghash/ghash_pclmul.cpp"), ("buffering", "include/gmlib/hash_lib/hash.h")],
     "abstract interpretation of the LLVM IR with bilinear GF(2) polynomials as values, compared with the field product",
     TRUST + BOUND)

prop("C05", "ECB, CBC, CFB, OFB and CTR modes are the standard modes over any block cipher",
     """Over any block cipher, each mode produces the SP 800-38A ciphertext and decrypts it back (CTR counters increment as
     documented, wrap-around included), for every way of cutting the data into update and final calls, and when output and
     input are the same buffer. Every call reports exactly the number of bytes it wrote and writes nothing else, a message
     of invalid length is refused, and re-initialising or finishing starts a fresh message.""",
     ["inputs", "histories", "programs"], "all keys, IVs and data; block sizes 8, 12, 16; ciphers with 1, 2, 3, 4, 16 parallel lanes; call sequences cut at every block and lane boundary",
     "Tests use a few fixed vectors and splits; residual-buffer, counter-carry and overlap errors need particular sequences and values.",
     ["include/gmlib/block_cipher_mode/block_cipher_mode.h", "include/gmlib/block_cipher_mode/ecb_mode.h", "include/gmlib/block_cipher_mode/cbc_mode.h",
      "include/gmlib/block_cipher_mode/cfb_mode.h", "include/gmlib/block_cipher_mode/ofb_mode.h", "include/gmlib/block_cipher_mode/ctr_mode.h",
      "include/gmlib/block_cipher_mode/internal/ctr_inc.h"],
     [("buffering", "include/gmlib/block_cipher_mode/block_cipher_mode.h"), ("counter increment", "include/gmlib/block_cipher_mode/internal/ctr_inc.h")],
     "abstract interpretation of the LLVM IR over an uninterpreted block cipher; output terms compared with the mode's defining terms",
     TRUST + BOUND)

prop("C06", "GCM encrypts, authenticates and verifies exactly as SP 800-38D prescribes",
     """Over any block cipher, GCM output and tag are the SP 800-38D values for every IV length, associated data and message,
     for every way of cutting the data into calls and in place. Decryption finishes successfully if and only if all
     bytes of the supplied tag equal the computed tag. No message depends on an earlier one processed by the same or another object.""",
     ["inputs", "histories", "programs"], "all keys, IVs, associated data, messages and tags symbolically; IV, AAD and message lengths and splits over all block and lane residues",
     "Tests use fixed vectors; a comparison of fewer tag bytes, a stale pad byte or a wrong length field needs particular values and call sequences to show.",
     ["include/gmlib/block_cipher_mode/gcm_mode.h", "include/gmlib/block_cipher_mode/internal/gctr_inc.h"],
     [("J0, GCTR, tag", "include/gmlib/block_cipher_mode/gcm_mode.h"), ("32-bit increment", "include/gmlib/block_cipher_mode/internal/gctr_inc.h")],
     "abstract interpretation of the LLVM IR over an uninterpreted block cipher; acceptance condition as a normal-form formula",
     TRUST + BOUND + "The hash key is a small set of constants here (multiplication for every key is C04).")

prop("C07", "HMAC is RFC 2104 over any hash, for every key length and split",
     """For every key of any length and every message, HMAC over any hash function is H((K^opad)||H((K^ipad)||m)) with keys
     longer than the block hashed first, however the message is cut into calls. Setting a key starts a fresh
     computation, and generic hash buffering passes the message to the compression step unchanged and in order.""",
     ["inputs", "histories", "programs"], "all keys (lengths around the block size) and messages symbolically; several block/digest sizes; call splits over all block residues",
     "Tests use SM3 only with few key lengths; key-length boundaries, the reuse of an object and other block sizes are not reached.",
     ["include/gmlib/hash_lib/hmac.h", "include/gmlib/hash_lib/hash.h"],
     [("key padding, inner/outer hash", "include/gmlib/hash_lib/hmac.h"), ("buffering", "include/gmlib/hash_lib/hash.h")],
     "abstract interpretation of the LLVM IR over an uninterpreted compression function; digest term compared with the RFC 2104 term",
     TRUST + BOUND)

prop("C08", "Byte helpers (xor, fixed-width loads/stores) are exact and stay in bounds",
     """Xoring byte strings gives the bytewise xor for every length and when output and input coincide; fixed-width
     big- and little-endian loads and stores and byte swaps move exactly the bytes they name. None touches a byte outside the stated ranges.""",
     ["inputs", "configurations"], "all byte values, every length class of the width-stepped loops, every fixed width, all build configurations",
     "Tests use a few lengths; a wrong tail step or shift shows only for particular lengths.",
     ["include/gmlib/memory_utils/memxor.h", "src/memory_utils/memxor.cpp", "include/gmlib/memory_utils/endian.h"],
     [("xor", "src/memory_utils/memxor.cpp"), ("fixed-size xor", "include/gmlib/memory_utils/memxor.h"), ("loads and stores", "include/gmlib/memory_utils/endian.h")],
     "abstract interpretation of the LLVM IR, bit-exact value comparison",
     TRUST + BOUND)

prop("C09", "Big-integer arithmetic is exact for every operand",
     """Addition, subtraction, multiplication, squaring, doubling, tripling, shifts, division by a word, comparison and byte conversion of
     256-bit and multi-limb integers give the exact integer result including carry or borrow, in the portable
     and the 64-bit implementation, also when the result overwrites an operand.""",
     ["inputs", "configurations"], "all operand values, every aliasing of result and operands, several limb counts, both implementations",
     "Carry chains that span all limbs occur with probability about 2^-32 or less on random operands; sampled vectors rarely exercise them.",
     ["src/number/mpz_common.cpp", "src/number/mpz_x64.cpp", "src/number/uint256_common.cpp", "src/number/uint256_x64.cpp"],
     [("generic limbs", "src/number/mpz_common.cpp"), ("generic limbs, 64 bit", "src/number/mpz_x64.cpp"),
      ("256 bit, portable", "src/number/uint256_common.cpp"), ("256 bit, 64-bit limbs", "src/number/uint256_x64.cpp")],
     "abstract interpretation of the LLVM IR in an integer-polynomial domain with exact carry splitting; identity with the integer result",
     TRUST + "All operand values; limb counts enumerated where the routine is generic.")

prop("C10", "Modular arithmetic is exact and canonical for every residue",
     """For every residue, modular addition, subtraction, negation, doubling, tripling, halving, Montgomery multiplication, squaring and conversions return
     the exact residue in canonical form (smaller than the modulus), and powering by any exponent (zero included) and inversion agree with
     repeated multiplication, in both implementations and when the result overwrites an operand.""",
     ["inputs", "configurations"], "all residues and exponents, every aliasing, both implementations, the moduli in use",
     "Final-subtraction and carry corner cases (values within 2^-32 of the modulus, zero operands, zero exponent) are never hit by sampled vectors.",
     ["src/number/mont256_common.cpp", "src/number/mont256_x64.cpp"],
     [("portable", "src/number/mont256_common.cpp"), ("64 bit", "src/number/mont256_x64.cpp")],
     "abstract interpretation of the LLVM IR in an integer-polynomial domain with range facts; congruence and canonical-range obligations",
     TRUST + "All operand values; exponents digit by digit.")

prop("C11", "SM2 curve arithmetic is the group law on the standard curve",
     """The curve parameters, generator and derived constants are those of GB/T 32918.5, and point addition, mixed addition, doubling, negation, equality,
     conversion between coordinate systems and scalar multiplication implement the group law of that curve for every point, the point at infinity
     and equal or opposite operands included, also when the result overwrites an operand.""",
     ["inputs", "configurations"], "all points (symbolic coordinates) and all scalars, every special case and aliasing, both arithmetic back ends",
     "Exceptional cases of the formulas (infinity, equal or opposite inputs) never occur on sampled scalars.",
     ["src/sm2/sm2p256v1.cpp", "include/gmlib/sm2/internal/sm2p256v1.h"],
     [("curve formulas", "src/sm2/sm2p256v1.cpp"), ("constants", "src/sm2/sm2p256v1.cpp")],
     "abstract interpretation of the LLVM IR with field elements as polynomials; identity with the affine group law; constants recomputed from the standard",
     TRUST + "Field operations are the exact ones (C10).")

prop("C12", "SM9 extension-field arithmetic is exact for every element",
     """Every operation of the quadratic, quartic and twelfth-degree extension fields (addition, subtraction, negation, doubling, tripling, halving, multiplication, squaring, inversion, conjugation,
     Frobenius maps, sparse products, byte conversion) equals the operation of the tower the standard defines, for every
     element and when the result overwrites an operand.""",
     ["inputs"], "all elements (symbolic coefficients), every aliasing of result and operands",
     "Tests sample vectors without aliasing and zero coefficients; a wrong sign on one coefficient combination or an overwritten operand goes unseen for untested call shapes.",
     ["src/sm9/sm9_field.cpp", "include/gmlib/sm9/internal/sm9_field.h"],
     [("tower operations", "src/sm9/sm9_field.cpp")],
     "abstract interpretation of the LLVM IR with base-field elements as polynomials; coefficientwise identity with the tower operation",
     TRUST + "Base-field operations are the exact ones (C10).")

prop("C13", "SM9 curve groups and pairing follow GB/T 38635",
     """Curve parameters, generators and derived constants are those of GB/T 38635; point operations in both groups
     implement the group law for every point, scalar multiplication returns the exact multiple, and the pairing
     accumulates the lines of the standard's Miller loop and raises to the standard's final exponent.""",
     ["inputs"], "all points and scalars, every special case and aliasing; every digit of the loop",
     "Tests compare a few pairings and multiples; exceptional inputs and single wrong constants in unexercised routines are not reached.",
     ["src/sm9/sm9_field.cpp", "include/gmlib/sm9/internal/sm9_field.h"],
     [("curve formulas, Miller loop, final exponentiation, constants", "src/sm9/sm9_field.cpp")],
     "abstract interpretation of the LLVM IR with field elements as polynomials; exponents computed in an exponent domain; constants recomputed",
     TRUST + "Base-field operations are the exact ones (C10, C12).")

prop("C14", "SM2 signatures, key derivation and encryption follow GB/T 32918",
     """For every message, identity, key and random number, signing, verification, encryption and decryption compute exactly
     the quantities GB/T 32918 prescribes, and verification and decryption accept exactly when the standard's final comparison holds.""",
     ["inputs", "histories"], "all keys, identities, messages, signatures, ciphertexts and random numbers symbolically",
     "Round-trip tests use the same code on both sides, so a deviation common to both, or an acceptance check that is too weak, passes them.",
     ["include/gmlib/sm2/sm2.h", "include/gmlib/sm2/internal/sm2_alg.h"],
     [("protocol steps", "include/gmlib/sm2/sm2.h"), ("curve interface", "include/gmlib/sm2/internal/sm2_alg.h")],
     "abstract interpretation of the LLVM IR over uninterpreted group, field and hash operations; result terms and acceptance conditions compared with the standard's",
     TRUST + BOUND)

prop("C15", "SM9 signing and verification follow GB/T 38635.2",
     """For every message, identity, key and random number, key derivation, signing and verification compute exactly the
     quantities GB/T 38635.2 prescribes, and verification accepts exactly when the standard's final comparison holds.""",
     ["inputs", "histories"], "all keys, identities, messages, signatures and random numbers symbolically",
     "Round-trip tests use the same code on both sides and accept-only vectors; deviations common to both or too weak acceptance pass them.",
     ["include/gmlib/sm9/sm9.h", "include/gmlib/sm9/internal/sm9_alg.h"],
     [("protocol steps", "include/gmlib/sm9/sm9.h")],
     "abstract interpretation of the LLVM IR over uninterpreted group, pairing and hash operations; result terms and acceptance conditions compared with the standard's",
     TRUST + BOUND)

prop("C16", "Secret random numbers are fresh and in range on every attempt",
     """Every private key, signing nonce and encryption nonce is drawn from the caller's generator anew for each attempt, is used only if it lies
     in the range the standard demands, and an attempt whose result the standard rejects is repeated with a new
     draw, never with the old one.""",
     ["inputs", "histories", "fault_sequences"], "all generator outputs, any number of rejected attempts, every nonce-consuming operation",
     "A rejected draw has probability about 2^-32 or far less, so the retry paths never run in tests.",
     ["include/gmlib/sm2/sm2.h", "include/gmlib/sm9/sm9.h"],
     [("nonce loops", "include/gmlib/sm2/sm2.h"), ("nonce loop", "include/gmlib/sm9/sm9.h")],
     "abstract interpretation of every path of the retry loops with draws as fresh symbols; range literals required on accepting paths",
     TRUST)

prop("C17", "No key, point or signature component is accepted unless it is valid",
     """An imported public key or point is accepted only if its encoding tag is known, its coordinates are smaller than the field prime and it lies on the
     curve; an imported private key only if it is in the permitted range; a signature only if its components are in
     range. Everything else is reported as an error to the caller.""",
     ["inputs"], "all encodings, coordinates and integers",
     "Tests feed valid encodings almost only; invalid ones near the boundaries (zero, order, field prime) are not sampled.",
     ["include/gmlib/sm2/sm2.h", "include/gmlib/sm9/sm9.h", "src/sm2/sm2p256v1.cpp", "src/sm9/sm9_field.cpp"],
     [("key import", "include/gmlib/sm2/sm2.h"), ("key import", "include/gmlib/sm9/sm9.h"), ("point decoding", "src/sm2/sm2p256v1.cpp"), ("point decoding", "src/sm9/sm9_field.cpp")],
     "path conditions of accepting outcomes, as literals over uninterpreted predicates, required to contain each validity condition",
     TRUST)

prop("C18", "Untrusted input never makes a decoder read or write out of bounds",
     """Whatever bytes and length are supplied, decoding of ASN.1, keys, points, signatures and ciphertexts reads only within the
     supplied length, writes only within the documented output size, terminates, and reports malformed or
     truncated input as an error.""",
     ["inputs"], "every byte string of every length given to every decoding entry point",
     "Tests decode well-formed data only; the space of malformed inputs is unbounded.",
     ["src/asn1/asn1.cpp", "src/asn1/asn1_dump.cpp", "src/sm2/sm2p256v1_asn1.cpp", "src/sm2/sm2p256v1.cpp", "src/sm9/sm9_field.cpp", "include/gmlib/sm2/sm2.h", "include/gmlib/sm9/sm9.h"],
     [("TLV decoding", "src/asn1/asn1.cpp"), ("dump", "src/asn1/asn1_dump.cpp"), ("SM2 structures", "src/sm2/sm2p256v1_asn1.cpp")],
     "abstract interpretation of the LLVM IR with symbolic lengths (linear inequalities) and attacker-controlled bytes; every access discharged against the supplied length",
     TRUST)

prop("C19", "ASN.1 encoders write exactly the length they announce, and decoders invert them",
     """For every value, the number of bytes an ASN.1 encoder writes equals the number it announces, the encoding is the DER encoding of the value, and the decoder
     returns the value and the number of bytes consumed.""",
     ["inputs"], "all integers, strings, keys, signatures and ciphertexts, every length class of the length field",
     "Tests encode a few fixed sizes; the length-of-length boundaries and leading-zero or high-bit integers need particular values.",
     ["src/asn1/asn1.cpp", "src/sm2/sm2p256v1_asn1.cpp", "include/gmlib/asn1/asn1.h"],
     [("primitive encoders", "src/asn1/asn1.cpp"), ("SM2 structures", "src/sm2/sm2p256v1_asn1.cpp")],
     "abstract interpretation of the LLVM IR with symbolic contents and case-split leading bytes; announced length and bytes compared with DER",
     TRUST + BOUND)

prop("C20", "No failure is swallowed: errors reach the caller and never abort the process",
     """An error reported by an internal step is never ignored: the operation that needed the step fails too. No exception can
     leave a function declared not to throw, so bad input never terminates the calling process.""",
     ["inputs", "fault_sequences"], "every call site of every fallible function and every non-throwing function",
     "Failing inner steps are rarely triggered by tests, and tests of the failing paths do not exist.",
     ["include/gmlib/sm2/sm2.h", "include/gmlib/sm9/sm9.h", "src/asn1/asn1.cpp", "src/sm2/sm2p256v1_asn1.cpp", "include/gmlib/hash_lib/hash.h"],
     [("status returns", "src/asn1/asn1.cpp"), ("noexcept functions", "include/gmlib/sm2/sm2.h")],
     "interprocedural exception-effect analysis and must-check analysis of status results over the IR call graph",
     TRUST)

prop("C21", "Objects are independent: no hidden shared mutable state",
     """Operations on different objects never influence each other, and may run on different threads: the library modifies no global
     or static object, and operations declared not to modify their object do not.""",
     ["schedules", "programs", "histories"], "all interleavings of operations on distinct objects, all globals and statics of the library",
     "Tests are single-threaded and use one object at a time; a race on a static buffer shows only under particular schedules.",
     ["src", "include/gmlib"],
     [("static tables", "src/aes/aes_lut.cpp"), ("static tables", "src/sm4/sm4_lang18.cpp"), ("template statics", "include/gmlib/block_cipher_mode/gcm_mode.h")],
     "effect analysis over the IR: writable-global census, escape of globals into stores, writes through const receivers",
     TRUST)

prop("C22", "Random sources fill every requested byte with generator output or fail",
     """A request for n random bytes either fills all n bytes with output the underlying source reported as successfully generated, or fails visibly; no byte beyond the
     request is written, and no value is returned after the source reported failure.""",
     ["inputs", "fault_sequences", "configurations"], "every request length residue and every success/failure sequence of the hardware source",
     "Hardware failures cannot be provoked by tests, and a wrongly handled tail leaves bytes that merely look random.",
     ["include/gmlib/rng/hardware_rng/rdrand64_rng.h", "include/gmlib/rng/hardware_rng/rdrand32_rng.h", "include/gmlib/rng/hardware_rng/rdseed64_rng.h",
      "include/gmlib/rng/hardware_rng/rdseed32_rng.h", "include/gmlib/rng/std_rng.h", "include/gmlib/rng/cstd_rng.h"],
     [("hardware generators", "include/gmlib/rng/hardware_rng")],
     "abstract interpretation of the LLVM IR with the hardware instruction as a fallible fresh-symbol source",
     TRUST + BOUND)

na("C23", "Running time and memory access do not depend on secrets",
   "The sequence of executed instructions and accessed addresses of secret-key operations is independent of keys, nonces and plaintext.",
   ["inputs"], "all secrets", "Timing is not observable in functional tests.",
   ["src/aes/aes_lut.cpp", "src/sm2/sm2p256v1.cpp"], [("table lookups, digit-dependent branches", "src/aes/aes_lut.cpp")],
   """The library does not provide it: the table implementations index by secret bytes and the scalar multiplications
   branch on scalar digits by design, so a static taint rule would only restate that; there is no guarantee to check.""")
na("C24", "Generated random numbers are unpredictable",
   "Random bytes delivered to key generation, signing and encryption are unpredictable to an attacker.",
   ["inputs"], "all generator outputs", "Statistical tests cannot establish unpredictability.",
   ["include/gmlib/rng/rng.h"], [("generator interface", "include/gmlib/rng/rng.h")],
   "Entropy is a property of the hardware or operating system outside the source; static analysis can only show what is done with the bytes (C16, C22).")
na("C25", "The pairing is bilinear and non-degenerate",
   "The pairing of multiples of two points is the pairing of the points raised to the product of the factors, and is not one for the generators.",
   ["inputs"], "all pairs of points of the two groups", "Tests compare a handful of pairings.",
   ["src/sm9/sm9_field.cpp"], [("pairing", "src/sm9/sm9_field.cpp")],
   """Bilinearity is a theorem about the mathematical map; no dataflow domain in reach proves it from the code. What the code must do for the theorem to apply (group law, line
   values, loop digits, final exponent) is decided separately as C12 and C13.""")
