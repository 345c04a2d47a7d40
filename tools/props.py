NOTE = "sound up to the modelled meaning of std, blst and rayon calls; obligations the interpreter cannot decide are reported as undecided in the evidence and raise no alarm"

P("P01", "Batch verification accepts only what satisfies the pairing equation",
  "Verifying a non-empty batch of cells succeeds only if a pairing product over every supplied commitment, cell index, cell and proof, each used at its own position and weighted by a distinct power of the batching challenge, equals the identity. No non-empty batch is accepted on any other path, and no supplied entry is left out of the equation.",
  ["inputs"], "for all commitments, indices, cells and proofs of any batch size",
  "the tests verify fixed vectors; a path that accepts without the check, or an equation that skips an entry, shows only on particular batches",
  [V, FK + "verifier.rs", FK + "batch_toeplitz.rs"], [("verify_cell_kzg_proof_batch", V), ("verify_multi_opening", FK + "verifier.rs")],
  note=NOTE, observe=["result of batch verification"])
P("P02", "The batching challenge binds every verified input",
  "The challenge that weights the entries of a verified batch is derived from a hash that covers, in full, every commitment, every cell index, every cell and every proof of the batch, the batch's sizes and the protocol's domain separator. Changing any of these changes the hashed bytes.",
  ["inputs"], "for all batches, and all ways of changing one byte of one of them",
  "an omitted or truncated input still verifies honest batches and rejects ordinary forgeries; only a forger who knows the omission sees it",
  [FK + "verifier.rs", V], [("compute_fiat_shamir_challenge", FK + "verifier.rs"), ("deduplicate_with_indices", V)],
  note=NOTE, observe=["acceptance of adversarially combined batches"])
P("P03", "Only canonical field elements and valid group points are accepted",
  "Every operation that takes field elements or group points as bytes succeeds only if each 32-byte big-endian field element is below the field modulus and each compressed point is on the curve and in the prime-order subgroup. Nothing is silently reduced, masked or left unchecked, at any position of any input.",
  ["inputs"], "for all byte strings at all positions of blobs, cells, commitments and proofs",
  "vectors contain a few malformed encodings at a few positions; a skipped position or an unchecked decoder passes them",
  [SER, "cryptography/bls12_381/src/lib.rs"], [("deserialize_bytes_to_scalars", SER), ("deserialize_compressed_g1", SER)],
  note=NOTE, observe=["result of each operation"])
P("P04", "Malformed verification requests are errors, not verdicts",
  "Batch verification succeeds only when the four inputs have equal lengths and every cell index is below the number of columns. A request that violates either is answered with an input error that callers can tell apart from an invalid proof, and that error is returned for no other reason.",
  ["inputs"], "for all lengths of the four inputs and all 64-bit indices",
  "tests sample a few mismatches; off-by-one bounds and unchecked pairs of lengths are invisible to them",
  [V, ERR], [("validation", V)], note=NOTE, observe=["error value of batch verification"])
P("P05", "No input makes a public operation panic",
  "Committing, computing cells and proofs, verifying and recovering return a result for every possible input: no byte content, list length, index value or combination of them makes the operation panic, abort or overflow.",
  ["inputs"], "for all byte contents, lengths (including zero) and 64-bit indices",
  "a panic needs one specific shape (empty list, index at the boundary, length mismatch) that samples miss",
  [LIB, V, PR, RC, SER, "cryptography/erasure_codes/src", "cryptography/polynomial/src", FK], [("public operations", LIB)], note=NOTE, observe=["return of each operation"])
P("P06", "Recovery accepts only well-formed requests",
  "Recovery succeeds only if there are as many indices as cells, every index is below the number of columns, no index repeats, and at least half and at most all of the columns are supplied. Any other request is refused before cell contents are interpreted.",
  ["inputs"], "for all lists of indices and cells", "tests sample few shapes; duplicates at a distance and boundary counts are missed",
  [RC, ERR], [("recover_polynomial_coeff", RC)], note=NOTE, observe=["result of recovery"])
P("P07", "Recovery never returns data that contradicts the supplied cells",
  "Recovery succeeds only if the polynomial reconstructed from the supplied cells has all its upper-half coefficients equal to zero, that is, if all supplied cells lie on one blob. The cells and proofs returned are computed from that same polynomial.",
  ["inputs"], "for all sets of supplied cells, consistent or not",
  "an inconsistent set that a weakened check lets through has to be crafted",
  ["cryptography/erasure_codes/src/reed_solomon.rs", RC], [("recover_polynomial_coefficient", "cryptography/erasure_codes/src/reed_solomon.rs")], note=NOTE, observe=["result of recovery"])
P("P08", "Invalid proofs and invalid requests are told apart in every language",
  "A verification that fails only because the proofs do not match is classified as an invalid proof by the library, and as the verdict false by every language binding. Every other failure is classified as an error, never as a verdict, and success is reported as true only when verification succeeded.",
  ["inputs"], "for every outcome verification can end with, through the C, Java and Node interfaces",
  "bindings are hardly tested here, and misclassification needs a particular failure kind",
  [ERR, "bindings/c/src/verify_cells_and_kzg_proofs_batch.rs", "bindings/java/rust_code/src/lib.rs", "bindings/node/src/lib.rs"], [("invalid_proof", ERR)], note=NOTE, observe=["binding verdicts"])
P("P09", "The C interface reports status, message and outputs consistently",
  "A C call returns Ok exactly when the underlying operation succeeded, with a null message, and only then has it written every caller output, each slot with the result that belongs to it. It returns Err exactly when the operation failed, with a readable, freeable message and the caller's output memory untouched.",
  ["inputs"], "for every outcome of the underlying operation and every C entry point",
  "the C layer has almost no tests; partial writes on error and swapped slots need failing or distinguishable inputs",
  ["bindings/c/src"], [("CResult", "bindings/c/src/lib.rs")], note=NOTE, observe=["CResult", "output buffers"])

C, JR, JJ, NO, GO = "bindings/c/src", "bindings/java/rust_code/src/lib.rs", "bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java", "bindings/node/src/lib.rs", "bindings/golang/prover.go"
P("P10", "The C interface touches only the memory its callers hand over",
  "Through each pointer argument a C call reads and writes exactly the memory the interface documents for it: the accompanying length for lists, the fixed sizes for blobs, cells, commitments and proofs, 128 slots for output lists. An empty list may come with any pointer, including null.",
  ["inputs"], "for all pointer arguments and list lengths, including zero", "an over-read or a slice over a null pointer usually goes unnoticed at run time",
  [C], [("deref_const and slice helpers", C + "/pointer_utils.rs")], note=NOTE, observe=["memory accessed by each call"])
P("P11", "Contexts and messages are handed out and reclaimed exactly once",
  "Through the C and Java interfaces a context is handed out as a freshly owned allocation and stays valid until its destroy function is called, which releases it exactly once and ignores null. No other call releases, consumes or exclusively borrows a context, and error messages given to C callers are released exactly once by their own release function.",
  ["histories"], "for all sequences of create, use and destroy calls", "double frees, leaks and aliasing need particular call sequences",
  [C, JR], [("eth_kzg_das_context_free", C + "/lib.rs"), ("DASContextDestroy", JR)], note=NOTE, observe=["heap ownership"])
P("P12", "Every binding forwards all of its arguments and results unchanged",
  "A call through the C, Java or Node interface performs the library operation of the same name on the caller's context with the whole of each caller argument, in its own role and order. The result handed back is the library's result: cells as cells, proofs as proofs, every entry at its own position.",
  ["inputs"], "for all argument contents and lengths, synchronous and asynchronous", "swapped or truncated lists look right on symmetric or short inputs",
  [C, JR, NO], [("binding entry points", C)], note=NOTE, observe=["arguments and results at the foreign interface"])
P("P15", "Operations are pure functions of the context and their inputs",
  "The result of an operation depends only on the context and the arguments: not on time, randomness, the environment, earlier calls or other threads. Operations leave the context unchanged, so one context can serve any number of concurrent callers.",
  ["schedules", "histories"], "for all interleavings and histories of calls on one context", "hidden state shows only under particular histories or interleavings",
  [LIB, "cryptography", "bindings"], [("DASContext", LIB)], technique="call-graph effect analysis and type-graph walk over monomorphised MIR", note="external functions outside the effect table are assumed pure", observe=["results of repeated and concurrent calls"])
P("P16", "Parallel work stays in the pool the caller sized",
  "All parallel work of an operation runs inside the context's own thread pool, which is built with exactly the number of threads the caller asked for: one, a given number, or the default. Every binding passes the caller's thread count and precomputation choice through unchanged, and no process-global pool is configured or used.",
  ["schedules", "inputs"], "for all thread settings and all operations", "work that escapes to the global pool gives the same results; only thread counts differ",
  [LIB, E7 + "macros.rs", C, JR, NO], [("with_optional_threadpool", E7 + "macros.rs")], note=NOTE, observe=["threads doing the work"])
P("P17", "Only setups whose every point is valid pass the checked loader",
  "The checked loader returns a trusted setup only if every one of its monomial points is hexadecimal text of exactly the encoded size, on the curve and in the prime-order subgroup, and otherwise fails. The setup returned is the one that was read, and the keys derived from it hold every point at the position it had.",
  ["inputs"], "for all setup files and an invalid point at any position", "tests load the valid setup; an unchecked position is only seen with a malformed file",
  [E7 + "trusted_setup.rs", "cryptography/bls12_381/src/lib.rs"], [("from_json and to_commit_key", E7 + "trusted_setup.rs")], note=NOTE, observe=["result of loading a setup"])
P("P18", "Linear combinations refuse unequal lengths and drop no term",
  "A linear combination of points and scalars, in either group, gives a result only when there is one scalar for each point, and no result otherwise. Every term enters the sum unless its point is the identity or its scalar is zero, and identity points never reach the multi-exponentiation.",
  ["inputs"], "for all lists of points and scalars, with identities and zeros anywhere", "dropped terms and mis-paired lists need an identity or a mismatch at a particular position",
  ["cryptography/bls12_381/src/lincomb.rs", "cryptography/bls12_381/src/fixed_base_msm.rs"], [("g1_lincomb, g2_lincomb", "cryptography/bls12_381/src/lincomb.rs")], note=NOTE, observe=["value returned"])
P("P19", "The Go binding reports exactly what the C call reported",
  "A Go call returns a nil error exactly when the C call it makes returned Ok, and then returns what that call wrote. On failure the error carries the C message, which is released once; arguments of the wrong shape never reach C; and a context stays alive during calls and is released once.",
  ["inputs", "histories"], "for all arguments, outcomes of the C call and moments of collection", "the Go tests sample successes; a dropped error or an early collection needs a particular outcome or moment",
  [GO], [("BlobToKZGCommitment and its siblings", GO)], technique="path enumeration over Go SSA with a symbolic heap, rule on every path", note="modelled cgo conventions; see DESIGN.md", observe=["values and errors returned by Go calls"])
P("P20", "Single- and multi-threaded builds give identical results",
  "With and without the multi-threading feature, and for every number of threads, each public operation returns the same value for the same input: the same acceptance, the same error, the same cells and proofs.",
  ["inputs", "schedules"], "for all inputs, thread counts and both feature configurations", "the test suite runs one configuration; divergence may need a particular shape",
  [LIB, "maybe_rayon/src", E7 + "macros.rs"], [("maybe_rayon", "maybe_rayon/src")], note=NOTE, observe=["results in both configurations"])
P("P13", "Protocol sizes are the same in every language",
  "The sizes of blobs, commitments, proofs, cells and field elements and the number of columns that the library and each language interface publish are the protocol's: 131072, 48, 48, 2048, 32 and 128. Every buffer an operation takes or returns has the size published for its kind.",
  ["inputs"], "for every published constant and every operation of all six languages", "the tests exercise one language and use the constants on both sides of each comparison, so a wrong one agrees with itself",
  [E7 + "constants.rs", C, JJ, NO, GO, "bindings/csharp/csharp_code/EthKZG.bindings", "bindings/nim/nim_code/nim_eth_kzg"], [("constants", E7 + "constants.rs"), ("BytesPerBlob and siblings", GO)],
  technique="constant extraction from the typed programs and comparison with the protocol's values; signature check of every operation", note="C# and Nim constants are read from their declarations with a constant-expression evaluator (no compiler for them here)", observe=["published constants", "buffer sizes"])
P("P14", "Foreign declarations and native functions agree",
  "Each native method declared in Java has exactly one native function with the parameters and result it declares, and every such native function is declared. Each native C function is declared with the same parameters and result in the C header and in the C# imports, and each C function the Nim sources import exists with the parameters and result declared there.",
  ["inputs"], "for all native functions of the C and Java interfaces and all their parameters", "a mismatched declaration compiles and links; it corrupts arguments or fails only when that call is made, and the Java, C# and Nim interfaces are not run here",
  [C, JR, JJ, "bindings/csharp/csharp_code/EthKZG.bindings", "bindings/nim/nim_code/nim_eth_kzg/header.nim"], [("exported functions", C), ("native methods", JJ)],
  technique="signature comparison between the typed Rust functions, Java class descriptors, C prototypes, C# and Nim import declarations", note="the header and the C# imports are the ones the crate's build script generates from the current tree", observe=["arguments and results at the foreign interface"])
P("P21", "Java context objects act on their own live context only",
  "Every operation of a live Java context object reaches the library with that object's own context and the caller's arguments and options in order, and returns the library's result or error unchanged. A destroyed object refuses every operation, destroying releases the context exactly once however often it is called, and closing destroys.",
  ["histories", "inputs"], "for all sequences of create, use, destroy and close calls and all arguments", "the Java interface is not run by the tests, and a use after destruction or a double release needs a particular sequence",
  [JJ], [("LibEthKZG", JJ)], technique="path enumeration over Java bytecode with a symbolic heap, rule on every path", note="the class is compiled from the current source with javac; calls into the JDK are modelled", observe=["native calls made by Java objects"])

P("P22", "Asynchronous Node operations equal their synchronous counterparts",
  "Awaiting an asynchronous operation of the Node interface gives the value or the rejection that the synchronous operation of the same name would return or throw for the same context and arguments.",
  ["inputs"], "for all arguments", "the tests here do not run the Node binding", [NO], [("async entry points", NO)], note=NOTE, observe=["promise outcome"])
P("P23", "No binding alters an integer on its way to the library",
  "Cell indices, list lengths and thread counts given to the C, Java or Node interface reach the library with the value the caller gave. A value that does not fit is refused with an error of that language, never truncated, wrapped, clamped or given to the library as another number.",
  ["inputs"], "for all integers of the foreign type, including negative and oversized ones", "needs values outside the range tests use",
  [C, JR, NO], [("bigint_to_u64", NO), ("jlongarray_to_vec_u64", JR)], note=NOTE, observe=["arguments of the library call", "errors"])
P("P24", "Buffers of the wrong length are refused by the Java and Node bindings",
  "A blob, commitment, cell or proof passed from Java or Node, alone or at any position of a list, whose length differs from the size of its kind makes the call fail with an error of that language before the library is called. It is never cut, padded or skipped to fit.",
  ["inputs"], "for all lengths and positions", "needs a malformed buffer at a particular position", [JR, NO], [("jbytearray_to_slice and slice_to_array_ref", JR)], note=NOTE, observe=["errors"])

P("P25", "Special operand values and sparse blobs get no special results",
  "Commitments, cells, proofs, recovered data and verdicts are what the general formulas give, also where an intermediate field element or point is zero, one, minus one, the identity, or equal to the one it is combined with. No part of a blob's contents makes another part of it be left out of the result.",
  ["inputs"], "for all blobs and cells, and all intermediate values they lead to", "the special cases are hit by crafted or degenerate data, not by random test blobs",
  ["cryptography/polynomial/src/fft.rs", "cryptography/bls12_381/src/batch_addition.rs", PR], [("fft_inplace", "cryptography/polynomial/src/fft.rs"), ("point_add_double", "cryptography/bls12_381/src/batch_addition.rs"), ("blob_to_kzg_commitment", PR)],
  technique="abstract interpretation of MIR; branch values compared as polynomials after substituting the branch's equality", note=NOTE, observe=["results"])

P("P26", "Well-formed requests are never refused",
  "Commitment and proof generation succeed for every blob whose field elements are canonical, recovery succeeds for every set of at least half the columns whose cells come from one blob, and verification succeeds for every list of decodable commitments, cells and proofs with indices below 128 and equal lengths whose openings are correct. Repetitions, order, the number of items, the identity point and zero or extreme values are no reason for an error.",
  ["inputs"], "for all well-formed requests, whatever their size, order, repetitions and special values", "a limit or a rejected special value shows only with a request the tests do not contain",
  [PR, RC, E7 + "verifier.rs", E7 + "serialization.rs", FK + "verifier.rs"], [("verify_cell_kzg_proof_batch", E7 + "verifier.rs"), ("recover_polynomial_coeff", RC), ("deserialize_blob_to_scalars", E7 + "serialization.rs")],
  technique="abstract interpretation of MIR; the conditions of every error outcome must contradict well-formedness", note=NOTE, observe=["errors returned"])

# --- not decidable statically ---------------------------------------------------------------------
P("N01", "Commitments, cells and proofs equal the specification's values",
  "For every blob the commitment, cells and proofs returned are the ones the consensus specification defines.",
  ["inputs"], "for all blobs", "vectors cover a handful of blobs", [PR, FK, "cryptography/polynomial/src"], [("compute_cells_and_kzg_proofs", PR)],
  na="a numeric identity between an FFT-based algorithm and a polynomial definition over a 255-bit field; no dataflow or type argument in reach decides it (needs theorem proving or testing). The structural parts that are decidable are claimed separately.")
P("N02", "Verification cannot be fooled by a computationally bounded prover",
  "No efficient adversary can produce a proof that verifies for a cell that is not part of the committed blob.",
  ["inputs"], "for all adversaries", "cryptographic", [FK + "verifier.rs"], [("verify_multi_opening", FK + "verifier.rs")],
  na="a cryptographic assumption (q-SDH, random oracle), not a program property")
P("N03", "Recovery reproduces the original cells and proofs",
  "For every blob and every choice of at least half its cells, recovery returns exactly the cells and proofs that were computed from the blob.",
  ["inputs"], "for all blobs and all subsets of columns", "2^128 subsets; vectors try a few", [RC, "cryptography/erasure_codes/src"], [("recover_cells_and_kzg_proofs", LIB)],
  na="numeric round trip through vanishing-polynomial division and coset FFTs; static analysis can track which data flows where, not that the field arithmetic inverts")
