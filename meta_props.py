IN = ["inputs", "configurations"]
prop("C01", "Torus encoding survives every error below half a step",
     "Encoding a message of p bits on the torus and decoding it after adding any error smaller than half an encoding step gives the message back, and decoding always returns the nearest representable message. Encoding is additive: sums, differences and negations of encodings decode to the sum, difference and negation modulo 2^p, and rounded integer division returns the nearest quotient.",
     IN, "for every word size (32, 64), every plaintext width, every message and every error within half a step",
     "The tests sample a few messages at small widths; widths of 32 and more on the 64-bit torus and the boundary errors are never reached.",
     [T + "math/torus.rs", T + "math/basic.rs"], [("encode / decode", T + "math/torus.rs"), ("rounded division", T + "math/basic.rs")])
prop("C02", "Gadget decomposition recomposes to the nearest multiple",
     "Decomposing a torus element into signed digits yields exactly the configured number of digits, each within half the base of zero, and their weighted sum differs from the element by at most half of the smallest weight.",
     IN, "for every word size, digit width and digit count with width*count below the word size, and every torus element",
     "The tests recompose one or two values for one or two decompositions; carries that ripple through all digits need particular values.",
     [T + "math/radix.rs"], [("scalar and polynomial digit iterators", T + "math/radix.rs")])
RG = "sunscreen_math/src/ring/"
prop("C03", "Ring arithmetic is exact modulo the modulus",
     "Elements of Z_q (Barrett backend) and of the integers modulo a power of two add, subtract, negate, multiply, compare and convert exactly modulo the modulus, stay below it, and are built only from values below it, for every modulus up to the stated size and every element.",
     IN, "for all pairs of elements of each modulus listed",
     "The tests multiply a few random elements; a missing final subtraction or a wrong precomputed constant in a Barrett reduction is hit by a vanishing share of the pairs for some moduli.",
     [RG + "barrett.rs", RG + "mod.rs", "sunscreen_math_macros/src/lib.rs"], [("Barrett reduction", RG + "barrett.rs"), ("ring elements", RG + "mod.rs"), ("precomputed constants", "sunscreen_math_macros/src/lib.rs")])
PL = "sunscreen_math/src/poly/mod.rs"
prop("C05", "Polynomials over a ring add, multiply, evaluate and divide exactly",
     "Sum, difference, product, negation and scaling of polynomials have the coefficients of the mathematical result; evaluation respects them; equality and degree do not depend on leading zeros; division by a monic polynomial gives the quotient and a remainder of lower degree, and every other divisor is refused.",
     IN, "for all coefficients, with up to the stated number of them, and all evaluation points",
     "The tests divide and multiply a handful of polynomials of one shape; zero coefficients in particular places, leading zeros and degenerate degrees are not among them.",
     [PL], [("polynomials", PL)])
prop("C06", "Polynomial operations are the negacyclic ring operations",
     "Addition, subtraction, negation, scalar and polynomial multiplication, multiplication by powers of X, substitution X -> X^k, encoding and rounded shifting of polynomials agree with the ring of integers modulo the word size and X^N + 1, whatever the output held before and whatever instruction set is available.",
     IN, "for all coefficient vectors, all exponents (including negative and huge ones), all shifts, degrees up to 16",
     "The tests multiply a few fixed or random polynomials and rotate by a few positions; wrap-around signs at particular exponents are not covered.",
     [T + "ops/polynomial/mod.rs", T + "math/polynomial.rs", T + "entities/polynomial.rs", T + "simd/mod.rs"],
     [("coefficient-wise and product operations", T + "math/polynomial.rs"), ("monomial rotation", T + "entities/polynomial.rs")])
prop("C07", "LWE decryption inverts encryption, with fresh randomness every time",
     "Decrypting an LWE encryption (secret-key, public-key or trivial) returns the message whenever the sampled noise is below half a plaintext step, for every key and mask, and carry bits are dropped exactly. Every mask word, key bit and public-key row comes from its own random draw, every error has the configured deviation, and the reported randomness is the randomness used.",
     IN, "for every key, mask, message, plaintext width and every noise value within the limit",
     "The tests encrypt a handful of random messages; a reused mask or a noise term of the wrong deviation still decrypts.",
     [T + "ops/encryption/lwe_encryption.rs", T + "entities/lwe_secret_key.rs", T + "entities/lwe_public_key.rs", T + "high_level.rs"],
     [("secret-key and public-key encryption", T + "ops/encryption"), ("key generation", T + "entities/lwe_secret_key.rs")])
prop("C08", "GLWE decryption inverts encryption, with fresh randomness every time",
     "Decrypting a GLWE or ring-LWE encryption (secret-key, public-key or trivial) returns every message coefficient whenever the sampled noise is below half a plaintext step, whatever the ciphertext buffer held before. Every mask coefficient and key bit comes from its own random draw and every error has the configured deviation; the extracted LWE key is the flattened GLWE key.",
     IN, "for every key, mask, message polynomial, plaintext width and noise within the limit, including reuse of used ciphertext buffers",
     "The tests encrypt into fresh buffers only and sample a few random messages; reuse of a buffer and reuse of randomness are not observed.",
     [T + "ops/encryption/glwe_encryption.rs", T + "ops/encryption/rlwe_encryption.rs", T + "entities/glwe_secret_key.rs"],
     [("GLWE and RLWE encryption", T + "ops/encryption")])
prop("C09", "Linear homomorphic operations act linearly on the encrypted phase",
     "Adding, subtracting, negating, scaling, multiplying by a plaintext polynomial, adding a constant and modulus-switching ciphertexts changes the decrypted phase by exactly that operation, for every key and every ciphertext content, and results do not depend on old buffer contents.",
     IN, "for all ciphertext words, all keys, all plaintext scalars and polynomials",
     "The tests add a few encryptions of small messages under one key; sign and index mistakes that cancel for those inputs pass.",
     [T + "ops/homomorphisms/lwe.rs", T + "ops/homomorphisms/glwe.rs", T + "ops/ciphertext/mod.rs"],
     [("linear operations on ciphertexts", T + "ops/homomorphisms"), ("modulus switching", T + "ops/ciphertext")])
prop("C10", "Sample extraction yields an encryption of the chosen coefficient",
     "Extracting coefficient h of a GLWE ciphertext gives an LWE ciphertext whose phase under the flattened key is exactly coefficient h of the original phase, for every h, size and content.",
     IN, "for every index, mask size, degree up to 8, all ciphertext words and keys",
     "The tests extract from a few random ciphertexts at one size.",
     [T + "ops/ciphertext/mod.rs"], [("sample extraction", T + "ops/ciphertext")])
prop("C11", "LWE key switching preserves the phase",
     "An LWE key-switching key consists of fresh encryptions of the scaled words of the old key under the new one; key switching turns any ciphertext under the old key into one under the new key whose phase is the old phase with the mask rounded to the gadget, minus the digit-weighted key noise, whatever the output held before.",
     IN, "for every ciphertext, key pair, key-switching key content and decomposition within the stated dimensions",
     "The test switches random messages at one parameter set where small systematic errors drown in the noise margin.",
     [T + "ops/keyswitch/lwe_keyswitch.rs", T + "ops/keyswitch/lwe_keyswitch_key.rs", T + "ops/ciphertext/lev_ciphertext_ops.rs"],
     [("key switching", T + "ops/keyswitch/lwe_keyswitch.rs"), ("key generation", T + "ops/keyswitch/lwe_keyswitch_key.rs")])
prop("C12", "GLWE key switching preserves the phase, in both domains",
     "A GLWE key-switching key consists of fresh encryptions of the scaled polynomials of the old key under the new one; key switching keeps the phase up to rounding the mask to the gadget and digit-weighted key noise, and the frequency-domain version agrees with the exact one.",
     IN, "for every ciphertext, key pair, key-switching key content and decomposition within the stated dimensions",
     "The tests switch one fixed message at one parameter set with size 1.",
     [T + "ops/keyswitch/glwe_keyswitch.rs", T + "ops/keyswitch/glwe_keyswitch_key.rs", T + "ops/fft_ops.rs"],
     [("key switching", T + "ops/keyswitch/glwe_keyswitch.rs"), ("key generation", T + "ops/keyswitch/glwe_keyswitch_key.rs"), ("frequency domain", T + "ops/fft_ops.rs")])
prop("C13", "Functional key switching applies the given linear map",
     "Private and public functional key switching map LWE ciphertexts to a GLWE ciphertext whose phase is the given linear map of the input phases (the map starting from a zero polynomial), up to gadget rounding and digit-weighted key noise; the keys for circuit bootstrapping multiply by minus each key polynomial and by one. Results do not depend on the order in which parallel parts run or on what output and scratch memory held before.",
     ["inputs", "configurations", "schedules"], "for every ciphertext, key, linear map and key content within the stated dimensions, and both orders of the parallel parts",
     "The tests use fresh zeroed outputs and maps that overwrite every coefficient they look at.",
     [T + "ops/keyswitch/private_functional_keyswitch.rs", T + "ops/keyswitch/public_functional_keyswitch.rs"],
     [("private", T + "ops/keyswitch/private_functional_keyswitch.rs"), ("public", T + "ops/keyswitch/public_functional_keyswitch.rs")])
prop("C14", "GLEV and GGSW ciphertexts, external products and multiplexers",
     "Every component of a GLEV or GGSW encryption encrypts its scaled message (for GGSW, minus the message times the key polynomial in the mask rows) under fresh randomness, decryption inverts encryption, and messages too large for the plaintext are refused. The external product multiplies the phase by the GGSW message up to gadget rounding and digit-weighted noise, and the multiplexer returns its second input's phase when the GGSW ciphertext encrypts 1 and its first one's when it encrypts 0.",
     IN, "for every ciphertext content, key, message and decomposition within the stated dimensions",
     "The tests decrypt products of small messages at one or two parameter sets, where errors below the rounding threshold are invisible.",
     [T + "ops/encryption/glev_encryption.rs", T + "ops/encryption/ggsw_encryption.rs", T + "ops/ciphertext/glwe_ciphertext_ops.rs", T + "ops/fft_ops.rs"],
     [("encryption", T + "ops/encryption/ggsw_encryption.rs"), ("external product", T + "ops/ciphertext/glwe_ciphertext_ops.rs"), ("frequency domain", T + "ops/fft_ops.rs")])
prop("C15", "Programmable bootstrapping applies the table",
     "A lookup table built from functions gives, for every message, the function's value on the whole half-open block around the message's encoding (all interleaved functions included), and refuses values that do not fit. Bootstrapping rotates the table by the input's phase switched to 2N, entry by entry of the key, so that every input whose error stays below half a block (less the switching error) yields an encryption of the table's value; bootstrapping and blind-rotation keys encrypt exactly the key or shift bits under fresh randomness. Results do not depend on old output or scratch contents.",
     ["inputs", "configurations", "schedules"], "for every table, key, ciphertext and error within the stated dimensions and rotations",
     "The tests decrypt a few bootstraps with tiny errors; an off-by-one block boundary, a wrong wrap-around sign or a stale buffer needs specific rotations to show.",
     [T + "ops/bootstrapping/programmable_bootstrapping.rs", T + "ops/bootstrapping/blind_rotation.rs", T + "entities/univariate_lookup_table.rs"],
     [("tables and bootstrapping", T + "ops/bootstrapping/programmable_bootstrapping.rs"), ("rotation", T + "ops/bootstrapping/blind_rotation.rs")])
prop("C16", "Circuit bootstrapping and its parts: scheme switching, automorphisms, trace",
     "Scheme switching turns a GLEV encryption into the GGSW encryption of the same message (row j being minus the message times key polynomial j), in both domains and whatever the output held before; its keys encrypt the products of the key polynomials, and automorphism keys the key polynomials at X^k. The homomorphic trace keeps N times the constant coefficient and removes all others. Switching to a smaller modulus rounds to the nearest. Circuit bootstrapping, by either route, turns an LWE encryption of a bit whose error stays below a quarter of the modulus (less the switching error) into a GGSW encryption of that bit.",
     IN, "for every ciphertext, key, level count and error within the stated dimensions",
     "The tests run a few circuit bootstraps with small errors on fresh outputs at one or two parameter sets.",
     [T + "ops/bootstrapping/circuit_bootstrapping.rs", T + "ops/bootstrapping/scheme_switch.rs", T + "ops/automorphisms/mod.rs", T + "ops/fft_ops.rs"],
     [("circuit bootstrapping", T + "ops/bootstrapping/circuit_bootstrapping.rs"), ("scheme switch", T + "ops/bootstrapping/scheme_switch.rs"), ("automorphisms and trace", T + "ops/automorphisms/mod.rs")])
prop("C17", "Products through the frequency domain equal negacyclic products",
     "Multiplying polynomials through the fast Fourier transform gives the negacyclic product up to a small rounding error, for every torus polynomial and every small integer polynomial, with and without SIMD.",
     IN, "for all torus coefficients and all digit polynomials of the stated degrees",
     "The tests compare a few random products; a wrong twiddle factor or index that only matters for some coefficients can pass.",
     [T + "math/fft/negacyclic.rs", T + "entities/polynomial_fft.rs"], [("twisted FFT and inverse", T + "math/fft"), ("frequency-domain multiply-add", T + "entities/polynomial_fft.rs")])

prop("C18", "Every instruction-set variant of the vector operations computes the same",
     "Whichever of AVX2, FMA and AVX-512 the processor offers, vector addition, subtraction, scalar multiply-add, rounding shifts, gadget digits, reduction of real values onto the torus and complex multiply-add give the same, exact result, for every length and alignment the public interface accepts; neighbouring memory is neither read nor written, and sizes the complex code cannot handle are refused.",
     ["inputs", "configurations"], "for every vector content, instruction set, length and alignment within the stated lengths",
     "The tests run on one processor, so only one variant of each operation is ever executed, on aligned buffers of convenient lengths.",
     [T + "math/simd/x86_64/mod.rs", T + "math/simd/x86_64/avx2.rs", T + "math/simd/x86_64/avx512.rs", T + "math/simd/scalar.rs"],
     [("selection", T + "math/simd/x86_64/mod.rs"), ("variants", T + "math/simd/x86_64/avx2.rs")])
prop("C19", "Scratch buffers are private, aligned, long enough and reused",
     "A scratch buffer has the requested length, is aligned for vector instructions, overlaps no other live buffer and keeps what was written to it until it is released, in every order of allocations and releases; released buffers are used again, so repeating the same work needs no more memory, and lengths that do not fit into memory are refused.",
     ["histories", "inputs"], "for every history of allocations and releases of the stated length, with symbolic contents",
     "The tests allocate one or two buffers of the same type; an overlap or a short buffer needs a particular sequence of types, lengths and releases.",
     [T + "scratch.rs"], [("allocator", T + "scratch.rs")], hook="verif_hooks")
prop("C20", "Containers hand out their parts completely, in order and without overlap",
     "Every accessor and iterator of ciphertexts, keys and polynomials hands out exactly the stated parts of the underlying words, in order, from both ends and in parallel, each once; what is written through a mutable part ends up in its place and nowhere else; sizes, lengths and constructors agree; copying, assigning, negating and conversion between the domains keep the parts where they are.",
     ["inputs", "histories"], "for all words, all shapes within the bounds and every order of taking parts from either end",
     "The tests use the accessors in one order and for one shape; a wrong stride or offset shows only for particular combinations of size, digit count and index.",
     [T + "dst.rs", T + "entities/mod.rs"], [("containers", T + "dst.rs")])
prop("C21", "Arguments of the wrong size never reach memory outside them",
     "Calling an operation with one argument made for other parameters never reads or writes outside the arguments, and an operation that states the sizes it needs refuses every argument of another size rather than compute something else.",
     ["inputs"], "for every operation listed, every argument, every change of one parameter within the bounds and all contents",
     "The tests pass arguments of the right size only; a dropped or wrong size check changes nothing for them.",
     [T + "ops/mod.rs", T + "dst.rs"], [("size checks", T + "dst.rs")])
CC = "parasol_concurrency/src/lib.rs"
prop("C22", "Borrows of an AtomicRefCell are exclusive in every interleaving",
     "While a mutable borrow of an AtomicRefCell is held no other borrow is, shared borrows never refuse each other, a refused borrow changes nothing, every borrow given back is available again, copies are taken under a borrow and are free, and everything written under one borrow is ordered before every later borrow, however the threads interleave.",
     ["schedules", "histories"], "for every interleaving of up to three threads within the stated numbers of steps and interruptions",
     "The tests borrow from one thread or from two that happen not to meet; an exclusion or ordering error needs one particular interleaving.",
     [CC], [("cell", CC)])
prop("C23", "A Spinlock admits one thread at a time",
     "At most one thread holds a Spinlock at any time, what it wrote is ordered before the next holder's accesses, trying succeeds on a free lock and fails on a held one, dropping the handle frees the lock and a handle kept locked never does, however the threads interleave.",
     ["schedules", "histories"], "for every interleaving of up to three threads within the stated numbers of steps and interruptions",
     "The tests run two threads for some microseconds and cannot steer the interleaving; missing orderings do not show on x86 at all.",
     [CC], [("lock", CC)])
CM = "sunscreen_math/src/combination.rs"
prop("C24", "Combinations are complete, in order and consistent with their index",
     "The combinations of t out of n elements are yielded in lexicographic order, each once; index and combination determine each other; the number of combinations is the binomial coefficient whenever it fits in a word; wrong arguments are refused; inserting an element into a reduced combination keeps it sorted.",
     IN, "for every pair of combinations of up to five elements, every inserted element, and numbers of combinations up to the word size",
     "The tests enumerate one or two small sets; overflow in intermediate results and boundary combinations need particular sizes.",
     [CM], [("combinations", CM)])
prop("C30", "Half-spaces, polytopes and running statistics are what they say",
     "A point on the boundary belongs to a half-space, a polytope is the intersection of its half-spaces and lists exactly those a point violates; the running mean and variance equal the mean and the mean square deviation of the samples added so far.",
     IN, "for all coordinates, bounds and samples within the stated sizes",
     "The tests use a few points away from the boundary and one large random sample.",
     ["sunscreen_math/src/geometry.rs", "sunscreen_math/src/stats.rs"], [("geometry", "sunscreen_math/src/geometry.rs"), ("statistics", "sunscreen_math/src/stats.rs")])
MX = "mux_circuits/src/"
RT = "parasol_runtime/src/"
PC = "parasol_cpu/src/"
NB = "the crate does not compile in this sandbox (mux_circuits/src/data/multiplier-n32-m32, which mux_circuits embeds, is missing from the pinned tree), so neither its intermediate representation nor a replay of a counterexample against the real code can be produced"
prop("C25", "Multiplexer circuits compute their arithmetic function",
     "The adder, subtractor, multiplier, comparison, bit-shift, negation and Boolean circuits built by mux_circuits, before and after optimisation, evaluate to the stated function of their inputs.",
     IN, "for all inputs of each supported width",
     "The tests evaluate the circuits on random inputs or at small widths.", [MX + "lib.rs", MX + "opt.rs"], [("circuits", MX + "lib.rs")], na=NB)
prop("C26", "The circuit processor runs every operation once, after its inputs",
     "Running a circuit gives the same ciphertexts as evaluating its operations in topological order, for every graph and every order in which worker threads pick up ready operations, and reports failures instead of hanging.",
     ["schedules", "inputs"], "for every graph and every interleaving of the workers",
     "The tests run a few graphs with whatever schedule the machine gives.", [RT + "circuit_processor/mod.rs"], [("processor", RT + "circuit_processor/mod.rs")], na="parasol_runtime depends on mux_circuits, and " + NB)
prop("C27", "The processor retires instructions with their architectural effect",
     "Executing a program on the out-of-order processor has the effect of executing its instructions one after the other: register renaming, operand forwarding and retirement never reorder dependent instructions.",
     ["histories", "inputs"], "for every program within a length",
     "The tests run one program per instruction.", [PC + "tomasulo/mod.rs", PC + "proc/mod.rs"], [("out-of-order core", PC + "tomasulo/mod.rs")], na="parasol_cpu depends on mux_circuits, and " + NB)
prop("C28", "Encrypted memory keeps bytes, widths and access rights",
     "Loads return what the last stores to those addresses put there, for every mix of widths and of plain and encrypted bytes; accesses outside mapped memory or against its rights are refused.",
     ["histories", "inputs"], "for every sequence of loads and stores within a length",
     "The tests store and load at a few addresses.", [PC + "memory/mod.rs"], [("memory", PC + "memory/mod.rs")], na="parasol_cpu depends on mux_circuits, and " + NB)
prop("C29", "Checked deserialization refuses malformed ciphertexts and keys",
     "Deserializing bytes that are not a serialization of an entity of the stated parameters fails without panicking or allocating beyond the expected size.",
     IN, "for all byte strings",
     "The tests deserialize what was serialized.", [RT + "safe_bincode.rs"], [("checked bincode", RT + "safe_bincode.rs")], na="parasol_runtime depends on mux_circuits, and " + NB)
prop("C31", "Derived byte layouts are aligned, exact and reversible",
     "The layout derived for a structure puts each member at the next multiple of its alignment, occupies exactly the stated number of bytes, writes nothing between the members, gives the same members when read back, and refuses buffers of any other length.",
     IN, "for all values of the members of the structures listed",
     "There are no tests of the derived code.", ["parasol_cpu_macros/src/lib.rs"], [("derive macro", "parasol_cpu_macros/src/lib.rs")])
prop("C32", "Security estimates accept exactly their documented domain and are monotone",
     "Converting between noise and security level refuses exactly the parameters outside the documented domain, is monotone in the noise and the dimension, and the two directions invert each other up to the documented error.",
     IN, "for all dimensions and levels of the domain",
     "The tests check a grid of points.", ["sunscreen_math/src/security.rs"], [("fitted polynomials", "sunscreen_math/src/security.rs")],
     na="the functions are polynomials of high degree in floating point composed with log10 and powf, which have no exact meaning over the reals or over words; rounding and the transcendental functions are outside what the encoding covers")
