NA={}
_f='Every limb vector in the stated digit profile is covered (full-radix: all limbs) for each operation of the table, all lanes, ADX and non-ADX code; trusts the IR/asm interpreter (validated against the gcc build each run) and z3.'
N['C01']={'note':_f}
N['C02']={'note':_f}
N['C03']={'note':_f}
N['C04']={'note':_f}
N['C05']={'note':_f}
N['C06']={'note':_f}

N['C23']={'note':'Every sequence of read() results up to the stated number of calls, every request size below 2^31 and every open() result, by path enumeration with integer-arithmetic queries; randKey entry points for all source bytes. abort()/exit() count as not returning.'}
N['C18']={'note':'Compression functions (scalar and two-way) equal FIPS 180-4 for every state and block (SAT sweeping of the executed IR against the specification); update/close/addbits for every listed buffered length and update length with symbolic contents, chaining value and 57-bit block count, compression uninterpreted. Inputs of every length in one call: induction over the block loop (a general loop state, any number of blocks, any remainder), below 2^61 bytes.'}
N['C19']={'note':'Keccak-f[1600] equals FIPS 202 for every state (solver sweeping); Init/Update/Final/Final2/Hash/Hash2/SHAKE for the listed positions and lengths, all contents symbolic, permutation uninterpreted; absorbing and squeezing of every length in one call by induction over the block loop. The gcc -O3 binary is replayed on samples against the same reference, because the code leans on aliasing rules the IR does not show.'}
N['C15']={'note':'All 64-/114-byte values, all r,h,a, all 56-byte numbers: residue and canonical range decided by linear integer queries over the executed code; word64_multiplier proved exact for the word counts in use (all contents) and then used by contract.'}
N['C24']={'note':'Every key and peer value, every byte of every local and heap object of the six entry points (field kernels excluded: they never see the key); removable (non-volatile, never read) stores count as absent; register spills and encodings of the scalar are outside','technique':'symbolic execution of the compiled IR of the whole call; each leftover byte compared with each key byte by z3, counterexamples confirmed by scanning the native stack'}
_l='symbolic execution of the compiled IR at field-element level: every field-kernel call is replaced by its contract, proved by z3/linear integer reasoning for the digit ranges that actually reach it, and values are compared as polynomials over GF(p)'
N['C07']={'note':'Exponents of inversions and roots are computed exactly over symbolic powers with every kernel call proved over its digit ranges; both outcomes of the root test in every lane. Distinct operand storage for inversions (the only use in the library).','technique':_l}
N['C08']={'note':'All 2^256 scalars and all 2^256 u-coordinates through the complete 255-step ladders of both implementations, digit level included. Trusts the interpreter (replayed against the gcc build) and primality of p.','technique':_l}
N['C09']={'note':'All scalars and all 448-bit u-coordinates through the complete 448-step ladder, digit level included. Trusts the interpreter (replayed against the gcc build) and primality of p.','technique':_l}
N['C10']={'note':'Every compiled point operation, encoder and decoder; all projective representations of all points within the digit bounds the operations themselves establish (checked to be closed). Completeness of the addition law (d non-square) and primality of p are recomputed each run; the field steps between kernels are polynomial identities modulo p over the kernel contracts that the solver proves.','technique':_l}
N['C11']={'note':'As C10, on the twisted curve used internally, plus the two isogenies: both compositions are multiplication by four. Digit bounds are those the operations themselves establish (checked to be closed).','technique':_l}
_g='symbolic execution of the compiled IR at group-element level: point operations are replaced by their contracts (proved by z3 at the digit ranges that reach them), scalars and digits are bit-vectors, and z3 decides the digit recurrence, lookups and indices'
N['C12']={'note':'All scalars below 2^253 (all a caller can pass), all 32 table lanes x digits -8..8, X25519 key generation for every 32-byte key up to the Montgomery coordinate. Completeness of the curve and group order recomputed each run.','technique':_g}
N['C13']={'note':'All 448-bit scalars (division by four by its C15 contract), all table lanes x digits -8..8, X448 key generation for every 56-byte key up to the Montgomery coordinate.','technique':_g}
N['C14']={'note':'Digit recoding and main loop cut at the loop header and decided at every digit position from an arbitrary state satisfying the invariant; listed pairs of digit counts incl. the maximal ones; all table entries. S,h below the group order. Key component of order dividing 4 is removed on Ed448.','technique':_g}
_e='symbolic execution of the compiled entry points at protocol level: hashes are uninterpreted functions of their symbolic input strings (lengths and contents open), scalar and curve operations by their contracts; z3 decides every path\'s return code and output against RFC 8032'
N['C16']={'note':'keygen, sign, verify of the Pure, Context and PreHash tables; all lengths and contents of message and context, all keys and signatures. Trusts C10, C12, C14, C15, C18 contracts. Verification is cofactorless, as the library documents by comparing encodings.','technique':_e}
N['C17']={'note':'keygen, sign, verify of the PureContext and PreHash tables; all lengths (message below 2^61 bytes) and contents, all keys and signatures. Trusts C11, C13, C14, C15, C19 contracts. A key component of order dividing 4 does not take part in verification.','technique':_e}
N['C21']={'note':'Secret bytes (private keys, scalars, shared secrets, RNG output) are tagged symbolic values; every branch condition, memory address and variable-time instruction operand of the IR that is not a constant is asked for two values of the secret that make it differ (two-copy query). Lengths of messages and contexts concrete from a list; scalar and group routines at all layers (ladders, fixed-base lookups, scalar reduction, keygen, sign, shared). Branches introduced by the C compiler below the IR are outside; a report is replayed by comparing instruction traces of two secrets.','technique':'symbolic execution of the compiled IR and inline assembly with secret-tagged variables; z3 decides two-copy (self-composition) queries on branch conditions and addresses; counterexamples replayed by trace comparison'}
N['C22']={'note':'Every load, store, copy, free and branch of the executed functions is checked for bounds, lifetime, alignment of the instruction, writes to read-only arguments, use of uninitialised values (two-copy query) and leaks, contents symbolic and lengths from a list; arguments placed at every odd alignment. Loops over message length are covered for the listed lengths only. Violations are replayed under ASAN/UBSAN, valgrind or the allocator counters.','technique':'symbolic execution of the compiled IR and inline assembly over a bounded memory model; z3 decides whether an uninitialised byte can influence a branch, an address or an output; counterexamples replayed under sanitizers'}
N['C20']={'note':'Elligator 2 program of both implementations for a formal field element (each lane), every outcome of comparisons and sign tests, exceptional elements as constants; sum, cofactor clearing and affine conversion for any message; field elements from messages for the listed lengths; predicates for all coordinates. The derivation of the field elements is the one this library defines (reduction modulo the group order). Trusts kernel contracts proved on the spot and C15/C18 contracts.','technique':_l}
N['C25']={'note':'Every function of the interface executed on symbolic buffers (lengths and unit split as in C22; field kernels, recodings, decoding, double-scalar multiplication, compression functions as units of their own), every path; a store to static storage on any feasible path is a violation once a native build with that storage made read-only faults in the call. Thread-local storage and libc internals are outside.','technique':'symbolic execution of the compiled IR; path feasibility and symbolic addresses decided by z3; counterexamples replayed natively with the static storage write-protected'}
