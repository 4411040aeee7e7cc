"""Which harnesses decide which property, with their bounds."""
class H:
    def __init__(self, entry, what, bound, secs=120, qsecs=60, tsecs=600, tqsecs=300, opts=(), reach=(1,), tiers=("quick", "thorough"),
                 optional=False, noassert=False, max_paths=20000, weight=1, sched=False):
        self.__dict__.update(locals())
class P:
    def __init__(self, harnesses, outside="", assumptions=()):
        self.harnesses, self.outside, self.assumptions = harnesses, outside, list(assumptions)

COMMON_ASSUMPTIONS = [
    "rustc/LLVM translate the sources faithfully (the IR analysed is their output with panic=abort, opt-level 2, AVX2+FMA enabled)",
    "symx's semantics of LLVM IR and the SMT solvers z3 and cvc5 are trusted; satisfying models are re-evaluated and replayed natively",
    "the random generator is replaced by a source of arbitrary values; memory allocation does not fail; rayon runs with one worker",
]
def W2(name, what, bound, **kw):
    """one obligation at 64-bit and at 32-bit words"""
    return [H(name + "64", what + " (64-bit words)", bound, **kw), H(name + "32", what + " (32-bit words)", bound, **kw)]

GL = "ring degree 1, 2, 4; mask size 1..3; all other values symbolic over the full word"
GLK = "ring degree 1, 2, 4; size 1..2; 1..3 digits of width 1, 4, 10"
R = ("--reals",)
PROPS = {
    "C01": P(
        W2("h_torus_rt", "encode, add an error in [-half step, half step), decode gives back the message", "every plaintext width 1..BITS-1, every message, every error") +
        W2("h_torus_nearest", "decode returns the nearest message of an arbitrary torus element", "every plaintext width 1..BITS-1, every element") +
        W2("h_torus_add", "encoding is additive modulo the plaintext modulus", "every plaintext width 1..BITS-1, every pair of messages") +
        W2("h_torus_ops", "torus operators are the group operations modulo 2^BITS", "all values, all shifts") +
        [H("h_torus_modswitch", "switching to a smaller torus keeps the top bits", "all values"),
         H("h_rounddiv_u64", "rounded division is the nearest quotient (64-bit)", "all values"),
         H("h_rounddiv_u8", "rounded division is the nearest quotient (8-bit)", "all values"),
         H("h_rounddiv_i8", "signed rounded division is the nearest quotient, halves away from zero", "all 8-bit values", weight=3)],
        outside="plaintext widths 0 and BITS"),
    "C02": P(
        [H("h_radix_s64_" + x, "digits in range, number of digits, recomposition error below half of the last step (64-bit)", "digit width " + r + ", every digit count with width*count < 64, every value; digit range checked for the first two digits and the last (all digits in the thorough tier)", secs=300, weight=5)
         for x, r in (("a", "1"), ("b", "2..4"), ("c", "5..12"), ("d", "13..63"))] +
        [H("h_radix_s32", "digits in range, number of digits, recomposition error below half of the last step (32-bit)", "digit width 1..31, every digit count with width*count < 32, every value", secs=300, weight=4)] +
        [H("h_radix_all" + x, "every digit in range", "every digit width and count", secs=900, tsecs=1500, tiers=("thorough",)) for x in ("32", "64_a", "64_b", "64_c")] +
        [H("h_radix_poly64", "the polynomial digit iterator agrees with the scalar one for every coefficient", "length 5, every digit width, count 1..4; old scratch contents symbolic"),
         H("h_radix_poly64_nosimd", "the same without SIMD", "length 3"),
         H("h_radix_poly32", "the polynomial digit iterator agrees with the scalar one (32-bit)", "length 3")],
        outside="width*count equal to the word size"),
    "C03": P(
        [H("h_ring_mul_small", "the Barrett product of any two words is the product modulo the modulus", "moduli 2, 5, 17, 1000; all pairs of 64-bit words"),
         H("h_ring_mul_mid", "the same", "moduli 0xDEADBEEF, 2^61-1; all pairs of words"),
         H("h_ring_mul_top", "the same, at the largest moduli", "moduli 2^63-25, 2^63; all pairs of words"),
         H("h_ring_mul", "the operators of ring elements are that product", "moduli 5, 0xDEADBEEF, 2^61-1, 2^63-25, 2^63; all elements"),
         H("h_ring_mul2b", "products of two-limb elements with the constants 0 to 3", "modulus 2^127-1; one factor arbitrary"),
         H("h_ring_mul2", "the same, constants shifted", "modulus 2^64+13", tiers=("thorough",), tsecs=900, optional=True),
         H("h_ring_mul4", "the same, four limbs", "the order of Curve25519", tiers=("thorough",), tsecs=900, optional=True),
         H("h_ring_linear1", "sums, differences, negation, comparison, zero and one, construction only below the modulus", "moduli 2, 0xDEADBEEF, 2^63-25, 2^63; all elements"),
         H("h_ring_linear2", "the same, two limbs", "moduli 5, 2^127; all elements"),
         H("h_ring_linear2b", "the same", "modulus 2^127-1; all elements"),
         H("h_ring_linear4", "the same, four limbs", "the order of Curve25519", tiers=("thorough",), tsecs=900, optional=True),
         H("h_ring_convert", "conversion of integers of either sign reduces modulo the modulus", "moduli 2, 5; up to 4, 6 bits"),
         H("h_ring_convert_k", "the same", "modulus 1000, 11 bits"),
         H("h_ring_convert_mid", "the same", "modulus 0xDEADBEEF, 34 bits"),
         H("h_ring_convert_top", "the same", "moduli 2^63-25, 2^63; all words"),
         H("h_ring_convert2", "the same, two limbs", "modulus 2^127-1, all words"),
         H("h_ring_inverse", "the inverse times the element is one", "every element of the fields of 5 and 17 elements (each on its own path)"),
         H("h_ring_consts", "the modulus and its half", "7 moduli"),
         H("h_ring_int", "integers modulo a power of two: operators, comparison, bytes", "8, 16, 32, 64 and 128 bits; all values"),
         H("h_ring_extend", "widening of big integers", "two to four limbs; all values")],
        outside="other moduli (each is a compile-time constant of its own), products of two arbitrary elements of more than one limb, inverses in larger fields"),
    "C05": P(
        [H("h_mpoly_ops", "sums, differences, products, negation, scaling, zero and one; the arguments stay as they are", "up to 4 coefficients each, integers modulo 2^64; all values"),
         H("h_mpoly_eval", "evaluation at any point agrees with the sum of powers and is a ring homomorphism", "up to 4 coefficients each; all values and points"),
         H("h_mpoly_eq", "equality, zero and degree disregard leading zeros", "up to 4 coefficients each; all values"),
         H("h_mpoly_degree_zero", "the zero polynomial has no degree", "up to 4 zero coefficients", noassert=True, reach=()),
         H("h_mpoly_div", "quotient and remainder by a monic polynomial: a = q b + r with r of lower degree", "dividend up to 5 coefficients, divisor of degree 0..3, with and without leading zeros; all values"),
         H("h_mpoly_div_bad", "divisors that are zero or not monic are refused", "up to 4 and 3 coefficients; all values", noassert=True, reach=())],
        outside="more coefficients, other rings (their arithmetic is decided separately)"),
    "C06": P(
        W2("h_poly_cw", "coefficient-wise operations", "length 1..9, all coefficients and old contents of the output symbolic; with and without SIMD") +
        [H("h_poly_cw64_nosimd", "coefficient-wise operations without SIMD", "length 1..5")] +
        W2("h_poly_mul", "schoolbook product, multiply-add and wrapped multiply-add equal the negacyclic product", "degree 1, 2, 4, 8, 16; scratch memory holds arbitrary old data") +
        W2("h_poly_mono", "multiplication by X^k", "degree 1..16 (32-bit: 8), every k in -4N..4N and isize::MIN, MIN+1, MAX") +
        W2("h_poly_pow", "substitution X -> X^k", "degree 1..16 (32-bit: 8), every odd k up to 4N+1") +
        W2("h_poly_codec", "coefficient-wise encoding and decoding", "length 5, every plaintext width") +
        W2("h_poly_shr", "rounded right shift", "length 1..9 (32-bit: 5), every shift 1..BITS-1") +
        [H("h_poly_shr64_nosimd", "rounded right shift without SIMD", "length 3")],
        outside="degrees above 16, substitution with even exponents, AVX-512 inline assembly"),
    "C07": P(
        W2("h_lwe_rt", "decryption inverts encryption below the noise limit; the reported error is the actual one; used ciphertexts and trivial encryptions", "dimension 4, every plaintext width 1..BITS-2, binary and uniform keys, every mask, message and error") +
        [H("h_lwe_rt64_1", "decryption inverts encryption, dimension 1", "dimension 1, every plaintext width"),
         H("h_lwe_carry", "decryption with carry bits drops exactly the carry", "dimension 3, every plaintext width, carry 0..3 and the maximum", weight=3)] +
        W2("h_lwe_fresh", "every mask word is a fresh draw, every error has the configured deviation", "dimension 3, two encryptions") +
        W2("h_lwe_keygen", "generated keys", "dimension 4") +
        W2("h_lwe_public", "public keys and public-key encryption: fresh rows, exact phase, decryption", "dimension 2, plaintext width 1..5", weight=4),
        outside="dimensions above 4; the statistical quality of the random generator"),
    "C08": P(
        W2("h_glwe_rt", "decryption inverts encryption; masks fresh; errors of the configured deviation", GL + "; plaintext width 1, 4 and (64-bit) 13", weight=2) +
        W2("h_glwe_reuse", "encrypting into a used ciphertext gives the same phase; trivial encryptions", GL) +
        [H("h_glwe_trivial", "trivial encryptions decrypt under every key", "degree 1, 2, 4; size 1..2; every plaintext width 1..63")] +
        W2("h_glwe_keys", "generated keys; the extracted LWE key is the flattened key", GL) +
        W2("h_rlwe_public", "ring public keys and public-key encryption: exact phase, fresh randomness, decryption", "degree 1, 2; plaintext width 2; used key object and scratch memory", weight=3),
        outside="degrees above 4, sizes above 3"),
    "C09": P(
        W2("h_lin_lwe", "addition, subtraction, negation, constants on LWE ciphertexts", "dimension 1..5, all words and the key symbolic") +
        W2("h_lin_glwe", "addition, subtraction, negation, scalar and polynomial multiply-add, constants on GLWE ciphertexts", GL) +
        W2("h_lin_end", "adding two encryptions decrypts to the sum", "dimension 2, plaintext width 1..8") +
        W2("h_lwe_modswitch", "LWE modulus switching rounds every word to the nearest multiple", "dimension 2, log modulus 1..12, shift 0..2, step 0..2") +
        W2("h_glwe_modswitch", "GLWE modulus switching rounds every coefficient", "degree 2, every shift"),
        outside="dimensions above 5, degrees above 4"),
    "C10": P(
        W2("h_extract", "the extracted ciphertext has the chosen coefficient's phase under the flattened key", "degree 1, 2, 4, 8; size 1..3; every index; all words and the key symbolic") +
        [H("h_extract_end", "encrypt, extract, decrypt gives the chosen coefficient", "degree 1, 2, 4; size 1..2; plaintext width 3")],
        outside="degrees above 8"),
    "C11": P(
        W2("h_ksk_lwe", "key-switching keys: every entry encrypts its scaled key word under fresh randomness", "old dimension 1..2, new dimension 1..3, 1..3 digits of width 1, 4, 10; binary and uniform keys", weight=2) +
        W2("h_ks_lwe", "the switched ciphertext is the body minus the digit-weighted rows", "dimensions 1..3, same decompositions; ciphertext, key-switching key and new key entirely symbolic; old contents of the output symbolic") +
        W2("h_ks_lwe_end", "with a noise-free key the phase is kept up to rounding the mask", "dimensions 1..3 and 1..2"),
        outside="dimensions above 3, digit counts above 3"),
    "C12": P(
        W2("h_ksk_glwe", "key-switching keys: every entry encrypts its scaled key polynomial under fresh randomness", GLK, weight=3) +
        W2("h_ks_glwe", "the switched ciphertext is the body minus the digit-weighted rows", GLK + "; everything symbolic, including old contents of the output") +
        W2("h_ks_glwe_end", "with a noise-free key the phase is kept up to rounding the mask", GLK) +
        [H("h_ks_glwe_fft64", "the frequency-domain key switch equals the exact one up to 2^46", "degree 16, size 1, 2 digits; exact real arithmetic", opts=R),
         H("h_ks_glwe_fft64_k2", "the frequency-domain key switch equals the exact one up to 2^46, size 2", "degree 16, size 2, 1 digit", opts=R),
         H("h_ks_glwe_fft32", "the frequency-domain key switch equals the exact one up to 2^14 (32-bit)", "degree 16, size 1, 2 digits", opts=R)],
        outside="degrees other than 1, 2, 4 and 16; floating-point rounding"),
    "C13": P(
        W2("h_pfksk", "private functional key-switching keys: every entry encrypts the map of the scaled key word", GLK + "; 1..2 inputs, input dimension 1..2; arbitrary linear map; both orders of parallel execution", weight=3) +
        W2("h_pfks", "the private functional key switch is minus the digit-weighted entries", GLK + "; 1..2 inputs, input dimension 1..2; everything symbolic") +
        W2("h_pfks_cbs", "the circuit bootstrapping keys map an input to minus its product with each key polynomial, and to itself", GLK + "; input dimension 2; both orders of parallel execution") +
        W2("h_pubksk", "public functional key-switching keys encrypt the scaled key words as constants", GLK, weight=2) +
        [H("h_pubks_fft64", "the public functional key switch applies the map to body and mask", "degree 16, 3 inputs of dimension 2, map packing the inputs into the first coefficients; scratch memory holds arbitrary old data; exact real arithmetic", opts=R),
         H("h_pubks_fft32", "the public functional key switch applies the map to body and mask (32-bit)", "degree 16, 3 inputs of dimension 1", opts=R)],
        outside="input dimensions above 2, more than 3 inputs, non-linear maps"),
    "C14": P(
        W2("h_glev_enc", "GLEV encryptions: every component encrypts the scaled message under fresh randomness; trivial ones", GLK, weight=2) +
        W2("h_rlev", "public-key GLEV encryptions", "degree 1, 2, 4; noise-free") +
        W2("h_ggsw_enc", "GGSW encryptions: the rows encrypt minus the message times each key polynomial, and the message; decryption", GLK, weight=2) +
        [H("h_ggsw_range", "messages that do not fit the plaintext are refused, others accepted", "degree 2, plaintext width 1..4", noassert=True)] +
        W2("h_ext", "the external product is the digit-weighted sum of the rows", GLK + "; everything symbolic") +
        W2("h_ext_msg", "the external product with a noise-free GGSW ciphertext multiplies the phase by the message", GLK + "; digit width 4") +
        [H("h_cmux_fft64", "the frequency-domain multiplexer equals the exact one up to 2^46", "degree 16, size 1, 2 digits; exact real arithmetic", opts=R),
         H("h_cmux_fft64_k2", "the frequency-domain multiplexer equals the exact one up to 2^46, size 2", "degree 16, size 2, 1 digit", opts=R),
         H("h_cmux_fft_glev", "the multiplexer on GLEV ciphertexts works component by component", "degree 16, size 1", opts=R),
         H("h_cmux_fft32", "the frequency-domain multiplexer equals the exact one up to 2^14 (32-bit)", "degree 16, size 1, 2 digits", opts=R)],
        outside="degrees other than 1, 2, 4 and 16; floating-point rounding"),
    "C15": P(
        W2("h_lut", "a lookup table returns the tabulated value anywhere within half a block of every message", "degree 2..16, plaintext width 1..3, size 1..2; arbitrary tables", ) +
        W2("h_lut_multi", "interleaved tables: function i is read i places further on", "degree 16 (64-bit also 32), 2..4 functions, plaintext width 1..3") +
        W2("h_lut_fill", "refilling a used table, constant tables", "degree 2..8; old contents symbolic; every plaintext width") +
        W2("h_lut_biv", "bivariate tables", "degree 16 (64-bit also 32), plaintext width 1..2, carry width at least that") +
        [H("h_lut_range", "functions whose values do not fit the plaintext are refused", "plaintext width 2, all values", noassert=True)] +
        W2("h_rotate", "rotating a ciphertext multiplies its phase by the monomial", "degree 1..8, size 1..2, every rotation up to four times the degree; everything symbolic") +
        W2("h_bsk", "every bootstrapping key entry is a GGSW encryption of its key bit under fresh randomness", "input dimension 1..3, degree 1..2, size 1..2, 1..2 digits; both orders of parallel execution", weight=3) +
        [H("h_pbs_fft_steps64", "bootstrapping with an arbitrary key is the chain of multiplexers over the switched words' rotations", "degree 16, dimension 1, 2 digits; the words' half units from a list of 6, all lower bits symbolic; table, key and old scratch contents symbolic; exact real arithmetic", opts=R),
         H("h_pbs_fft_steps64_n2", "the same with two key entries", "degree 16, dimension 2, 1 digit; half units from a list of 3", opts=R),
         H("h_pbs_fft_steps64_v", "the same for interleaved tables, size 2", "degree 16, dimension 1, log_v 1; half units from a list of 5", opts=R),
         H("h_pbs_fft_steps32", "the same (32-bit)", "degree 16, dimension 1; half units from a list of 4", opts=R),
         H("h_pbs_fft_end64", "with a noise-free key every message within the noise limit is mapped through its table", "degree 16, dimension 1, plaintext width 2, every half unit of the body, both key bits, mask half units from a list of 2, lower bits symbolic, every value at the message's place", opts=R),
         H("h_pbs_fft_end64_n2", "the same with two key bits", "degree 16, dimension 2, plaintext width 1, a third of the body's half units", opts=R),
         H("h_pbs_fft_end32", "the same (32-bit)", "degree 16, dimension 1, plaintext width 1, every half unit of the body", opts=R),
         H("h_pbs_fft_biv64", "bivariate bootstrapping maps both messages through the table", "degree 16, dimension 1, plaintext width 1; errors of every half unit inside the block", opts=R),
         H("h_blindrot_fft_steps64", "blind rotation with an arbitrary shift key is the chain of multiplexers over powers of two", "degree 16, size 1, 1 digit; everything symbolic", opts=R),
         H("h_blindkey_fft64", "a shift key holds GGSW encryptions of the shift's bits, least significant first", "degree 4, size 1..2, every shift, binary and uniform keys", opts=R)],
        outside="degrees above 16 for the bootstrapping itself, input dimensions above 2, half units of the mask words outside the lists; floating-point rounding"),
    "C16": P(
        W2("h_ss", "scheme switching: every row is minus the body times the key polynomial plus the digit-weighted key components; the last row is the input", "degree 1, 2, 4; size 1..3; 1..2 levels, 2 key digits; everything symbolic, including old contents of the output") +
        [H("h_ss_fft64", "the frequency-domain scheme switch equals the exact one up to 2^46, whatever the output held", "degree 16, size 1, 2 levels, 1 key digit; exact real arithmetic", opts=R),
         H("h_ss_fft64_k2", "the same, size 2", "degree 16, size 2, 1 level", opts=R),
         H("h_ss_fft32", "the same (32-bit)", "degree 16, size 1", opts=R),
         H("h_ssk_fft64", "scheme switching keys encrypt the products of the key polynomials", "degree 16, size 1, 2 levels; 8 key polynomials, noise and masks symbolic", opts=R),
         H("h_ssk_fft64_k2", "the same, size 2", "degree 16, size 2; 64 keys", opts=R)] +
        W2("h_ak", "automorphism keys encrypt the scaled key polynomials at X^k, k = N/2^i + 1, under the key", "degree 2, 4, 8; size 1..2; 1..2 digits; binary and uniform keys", weight=2) +
        [H("h_trace_fft_steps64", "the trace with an arbitrary key is the chain of x + switch(x(X^k))", "degree 16, size 1, 1 digit; everything symbolic", opts=R),
         H("h_trace_fft_steps64_k2", "the same, size 2", "degree 16, size 2, 1 digit", opts=R),
         H("h_trace_fft_end64", "the trace keeps N times the constant coefficient and removes the others", "degree 16, size 1; key of zeros under the zero key", opts=R),
         H("h_trace_fft_end32", "the same (32-bit)", "degree 16, size 1", opts=R)] +
        W2("h_modsw", "switching to a smaller modulus and back down rounds every coefficient to the nearest", "degree 1..8, size 1..2, every shift 0..BITS-1") +
        [H("h_cbs_fft_pfks64", "circuit bootstrapping by functional key switching: the output is a GGSW encryption of the input bit", "degree 16 to degree 2, input dimension 1, 2 levels of width 4; every half unit of the body, lower bits symbolic; arbitrary binary output key; noise-free keys under the zero intermediate key", opts=R),
         H("h_cbs_fft_pfks64_k2", "the same, three levels of width 3, output size 2", "degree 16 to degree 1", opts=R),
         H("h_cbs_fft_trace64", "circuit bootstrapping by trace and scheme switch: every body and key-carrying mask entry is the scaled bit", "degree 16, size 1, input dimension 1, 2 levels; every half unit of the body, lower bits symbolic; keys noise-free under the zero key", opts=R),
         H("h_cbs_fft_trace64_k2", "the same, three levels of width 3, size 2", "degree 16, size 2", opts=R)],
        outside="degrees other than those stated, input dimensions above 1 for circuit bootstrapping, more than 3 levels; end-to-end runs under non-zero ring keys (decided step by step instead); floating-point rounding"),
    "C17": P(
        [H("h_fft_mul64", "product through the frequency domain equals the negacyclic product up to 2^40", "degree 16, arbitrary 64-bit torus coefficients, digits in [-128, 128); exact real arithmetic on the precomputed table values", opts=R),
         H("h_fft_mul64_512", "the same with AVX-512", "degree 16", opts=R),
         H("h_fft_mul64_n32", "the same", "degree 32", opts=R),
         H("h_fft_mul64_n64", "the same", "degree 64", opts=R, weight=2),
         H("h_fft_n128", "the same for digit polynomials with one non-zero coefficient, with and without SIMD", "degree 128, digit at place 0, 1, 64 or 127", opts=R, weight=2),
         H("h_fft_n256", "the same", "degree 256, digit at place 131", opts=R, weight=2),
         H("h_fft_mul64_scalar", "the same without SIMD", "degree 16", opts=R),
         H("h_fft_mul32", "product through the frequency domain equals the negacyclic product up to 2^4 (32-bit)", "degree 16, arbitrary 32-bit torus coefficients, digits in [-128, 128)", opts=R)],
        outside="rounding of the individual double operations (they are taken as exact real operations; only the rounding of the twiddle factors is modelled); degrees above 256, and full digit polynomials above degree 64",
        assumptions=["double-precision additions and multiplications are evaluated without rounding in this check; conversions to and from integers are exact"]),
    "C18": P(
        W2("h_simd_ints", "vector addition, subtraction, scalar multiply-add and rounding shift give the exact words under every combination of AVX2, FMA and AVX-512", "length 1..32 (32-bit: up to 17); everything symbolic; shifts 1, 2 and 31", opts=R) +
        W2("h_simd_parts", "the same on the middle polynomial of a ciphertext, whose neighbours stay as they are", "degree 1..16", opts=R) +
        W2("h_simd_decomp", "the first gadget digit is in its range and nearest to the value", "length 1, 2, 5; digit width 1, 2, 7, 16", opts=R) +
        W2("h_simd_reduce", "real values of any size are reduced onto the torus, up to one unit", "integers up to 2^52 times 2^e, e from a list up to 70; exact real arithmetic", opts=R) +
        [H("h_simd_cmad", "complex multiply-add gives the exact sum of products", "8 or 16 elements; exact real arithmetic", opts=R),
         H("h_simd_cmad_bad", "lengths that differ or are not multiples of 8 are refused", "lengths 1..17 and up to 8 more", opts=R)],
        outside="NEON (the other architecture's code), lengths above 32, floating-point rounding"),
    "C19": P(
        [H("h_scr_hist3", "live buffers have their length, are aligned, never overlap and keep what was written, through every order of allocations and releases", "5 steps, at most 3 live, 5 element kinds and lengths; contents symbolic"),
         H("h_scr_hist2", "the same, longer histories", "6 steps, at most 3 live, 3 kinds"),
         H("h_scr_reuse", "buffers given back are used again", "two nested buffers, every pair of 5 kinds, 5 rounds"),
         H("h_scr_huge", "lengths whose byte size does not fit in a word are never handed out short", "lengths around multiples of 2^61", noassert=True, reach=())],
        outside="longer histories, other element types, several threads (each thread has its own allocator)"),
    "C20": P(
        W2("h_ent_lwe", "LWE containers: iterators from both ends, sizes, constructors", "dimension 1..3, 1..3 elements; all words symbolic; every order of taking from front and back for the first three elements", max_paths=60000) +
        W2("h_ent_glwe", "GLWE, GLEV, GGSW containers", "degree 1, 2, 4; size 1..3; 1..3 digits; all words symbolic", max_paths=60000) +
        W2("h_ent_keys", "key containers: bootstrap, automorphism, scheme switch, blind rotation shift and key-switching keys", "degree 2, 4; size 1..3; 1..3 digits", max_paths=60000) +
        W2("h_ent_func", "functional key-switching keys", "degree 2, 4; 1..3 inputs; dimension 1..3", max_paths=60000) +
        [H("h_ent_fft", "frequency-domain containers", "degree 2, 4; size 1..3; 1..3 digits", max_paths=60000)] +
        [H("h_ent_par64", "parallel iterators visit every block once, however the work is split", "3..6 blocks; both orders of parallel execution")] +
        [H("h_ent_pairs", "scheme switching keys: the entry of a pair of key polynomials, in either order", "size 1..4"),
         H("h_ent_pairs_bad", "pairs outside the key are refused", "size 1..4", noassert=True, reach=()),
         H("h_tri_pairs", "the enumeration of unordered pairs is complete and in order", "up to 6 elements", optional=True)] +
        W2("h_ent_lweparts", "mask and body of LWE ciphertexts", "dimension 1..5") +
        W2("h_ent_copies", "copies, assignment, negation and reinterpretation of containers", "degree 1, 2, 4; size 1..2") +
        W2("h_ent_group", "sums and differences of containers", "degree 1, 2, 4; size 1..2") +
        W2("h_ent_poly", "polynomials: parts, views and maps", "degree 1..5") +
        [H("h_ent_convert", "to the frequency domain and back gives the same container, block by block", "degree 2 (exact there), 32-bit words; exact real arithmetic", opts=R)],
        outside="larger dimensions; serialisation, which is done by an external crate"),
    "C21": P(
        [H("h_bad_loose", "operations on words with one argument of another size: refused, or no memory outside the arguments is touched", "22 operations, each argument, 8 changes of one parameter; degree 2, size 2, 2 digits, dimension 2; contents symbolic", reach=(1,), noassert=True),
         H("h_bad_loose_fft", "the same for frequency-domain operations", "10 operations; degree 16, size 2, 2 digits, dimension 1", reach=(1,), noassert=True),
         H("h_bad_strict", "operations that state the sizes they need refuse every other", "22 operations, each argument, 8 changes of one parameter; degree 2, size 2, 2 digits, dimension 2; contents symbolic", noassert=True, reach=()),
         H("h_bad_strict_fft", "the same for frequency-domain operations", "8 operations; degree 16, size 2, 2 digits, dimension 1", noassert=True, reach=()),
         H("h_bad_right", "right sizes are accepted", "degree 2, size 2")],
        outside="two wrong arguments at once, parameters that contradict all arguments, larger parameters"),
    "C22": P(
        [H("h_cell_seq", "one thread: every refusal and every acceptance of shared, mutable and copying borrows", "up to 6 shared borrows; contents symbolic", reach=(1, 2, 3))] +
        [H(e, w, b, reach=(1,), sched=True, max_paths=40000) for e, w, b in (
            ("h_cell_2", "two threads, each reading, writing, reading twice or copying: exclusive, ordered, nothing lost, free afterwards", "every interleaving of the atomic steps with at most 4 interruptions, 8 steps per thread, 1 spurious failure of a weak exchange"),
            ("h_cell_2x2", "two threads, two rounds of reading, writing or reading twice", "at most 3 interruptions, 10 steps per thread"),
            ("h_cell_3", "three threads, each reading or writing", "at most 3 interruptions, 8 steps per thread"))],
        outside="more than 3 threads; weak memory effects other than missing synchronisation (interleavings are sequentially consistent; accesses without a happens-before order are reported); the Send/Sync bounds of the types, which are a matter of type checking",
        assumptions=["two threads that panic on a refused borrow stop there"]),
    "C23": P(
        [H(e, w, b, reach=(1,) if "x2" in e else (1, 2), sched=True, max_paths=40000) for e, w, b in (
            ("h_spin_2", "two threads, each locking, trying to or locking for good: one at a time, ordered, nothing lost, free afterwards exactly if nobody keeps the lock", "every interleaving of the atomic steps with at most 8 interruptions, 8 steps per thread (longer waits are cut off)"),
            ("h_spin_2x2", "the same, two rounds each", "at most 4 interruptions, 8 steps per thread"),
            ("h_spin_3", "the same, three threads", "at most 3 interruptions, 6 steps per thread"))],
        outside="more than 3 threads; weak memory effects other than missing synchronisation; fairness"),
    "C24": P(
        [H("h_comb_index", "the index of a combination is in range, ordered as the combinations are, and leads back to it", "up to 5 elements; every pair of combinations"),
         H("h_comb_iter", "the iterator yields the combination of each index in turn, then ends for good", "up to 6 elements"),
         H("h_comb_bad", "wrong lengths, elements and indices are refused", "up to 4 elements; all values"),
         H("h_comb_count", "number of combinations", "0..8 (or all but 0..8) of 16..70"),
         H("h_comb_count_mid", "number of combinations where products of intermediate results no longer fit in a word", "28..34 of twice as many, or one more"),
         H("h_comb_count_sym", "number of combinations of up to 3", "up to 4000 elements, symbolic"),
         H("h_comb_insert", "inserting an element keeps the order, and reports the place", "up to 4 elements below 2^40; all values")],
        outside="indices and iteration over more than 6 elements"),
    "C30": P(
        [H("h_geo_plane", "a point is inside a half-space iff a x <= b, inside a polytope iff inside all; the violated ones are listed", "up to 3 half-spaces of 4 directions, bounds and coordinates any integer up to 2^40"),
         H("h_stats_mean", "the running mean is the mean", "up to 5 samples, any integers up to 2^40; exact real arithmetic", opts=R),
         H("h_stats_variance", "the running variance is the mean square deviation, and the standard deviation its root", "up to 4 samples from 0..4")],
        outside="floating-point rounding, other directions, arbitrary samples for the variance"),
    "C31": P(
        [H("h_bytes_flat", "every member is at its aligned place, bytes between members are left alone, reading back gives the same members, other lengths are refused and nothing is written", "3 structures; all values, buffers of 0 to 3 bytes too many"),
         H("h_bytes_nested", "the same for structures inside structures", "one structure; all values")],
        outside="other structures; tuple structures (the macro does not accept them)"),
}
