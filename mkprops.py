#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Fp25519 radix-2^64 arithmetic is exact modulo 2^255-19",
  "For every pair of 256-bit operands (reduced or not) the full-radix field API over 2^255-19 -- add, sub, negate, multiply, square, multiply by the curve constant, integer product/square single and paired, and reduction single and paired -- stores a result congruent to the mathematical one, and integer products are exact. Source operands that are not also the destination are left unchanged.",
  ["inputs"],"all 2^256 x 2^256 operand pairs (2^512 for the double-length reductions), including unreduced values and every carry-propagation corner, for the instruction variant the build selects and for the one without ADX",
  "test_fp.c compares a few thousand random products against a reference; the final-carry folds are taken with probability about 2^-50 or less and are never sampled.",
  ["src/eltfp25519_1w_fullradix.c","src/fp255.c","include/faz_fp_avx2.h"],
  [("carry folding by 38 in multiplication/reduction assembly","src/eltfp25519_1w_fullradix.c"),("API table","src/fp255.c")],["Fp25519._1w_full.arith","Fp25519._1w_full.arithex"])
p("C02","Fp25519 reduced-radix arithmetic (1-, 2-, 4-way) is exact modulo 2^255-19",
  "For every operand whose digits lie in the ranges the library itself produces, each lane of the 1-way, 2-way and 4-way vector field operations over 2^255-19 (add, sub, add/sub pairs, negate, multiply, square, integer product/square, digit compression, interleave/deinterleave) holds a value congruent to the mathematical result for that lane. No intermediate digit overflows its 64-bit lane or the 32-bit multiplier input.",
  ["inputs"],"all digit vectors within the stated per-digit bounds, all lanes independent",
  "the 2-way and 4-way product tests in test_fp.c pass whatever is computed, and random elements do not reach the digit bounds where a lane or multiplier overflows.",
  ["src/eltfp25519_1w_redradix.c","src/eltfp25519_2w_redradix.c","src/eltfp25519_4w_redradix.c","src/fp255.c"],
  [("radix 2^25.5 schoolbook/Karatsuba product and carry chains","src/eltfp25519_*w_redradix.c"),("multiples of p added before subtraction","src/eltfp25519_*w_redradix.c")],["Fp25519._1w_red","Fp25519._2w_red","Fp25519._4w_red"])
p("C03","Fp448 radix-2^64 arithmetic is exact modulo 2^448-2^224-1",
  "For every pair of 448-bit operands (reduced or not) the full-radix field API over 2^448-2^224-1 -- add, sub, negate, multiply, square, multiply by the curve constant, integer product/square single and paired, and reduction single and paired -- stores a result congruent to the mathematical one, and integer products are exact. Source operands that are not also the destination are left unchanged.",
  ["inputs"],"all 2^448 x 2^448 operand pairs (2^896 for the double-length reductions), including unreduced values and every carry corner",
  "random products never reach the rare final carries of the 448-bit folding.",
  ["src/eltfp448_1w_fullradix.c","src/fp448.c"],
  [("carry folding at 2^224 and 2^448","src/eltfp448_1w_fullradix.c")],["Fp448._1w_full.arith","Fp448._1w_full.arithex"])
p("C04","Fp448 reduced-radix arithmetic (1-, 2-, 4-way) is exact modulo 2^448-2^224-1",
  "For every operand whose digits lie in the ranges the library itself produces, each lane of the 1-way, 2-way and 4-way vector field operations over 2^448-2^224-1 (add, sub, add/sub pairs, negate, multiply, square, digit compression, interleave/deinterleave) holds a value congruent to the mathematical result for that lane. No intermediate digit overflows its 64-bit lane or the 32-bit multiplier input.",
  ["inputs"],"all digit vectors within the stated per-digit bounds, all lanes independent",
  "the vector product tests in test_fp.c pass whatever is computed, and random elements do not reach the digit bounds.",
  ["src/eltfp448_1w_redradix.c","src/eltfp448_2w_redradix.c","src/eltfp448_4w_redradix.c","src/fp448.c"],
  [("radix 2^28 Karatsuba product and carry chains","src/eltfp448_*w_redradix.c")],["Fp448._1w_red","Fp448._2w_red","Fp448._4w_red"])
p("C05","Field encode, decode, equality, sign and select are canonical for 2^255-19",
  "For every element of either representation over 2^255-19, serialising yields the unique little-endian integer in [0,p) congruent to it, deserialising yields an element congruent to the given integer, and comparison returns zero exactly when the two elements are congruent (in every lane of the vector forms). The sign is the parity of the canonical value, conditional move returns exactly one of its operands as selected, and prime() returns p.",
  ["inputs"],"all 256-bit words / all digit vectors in the stated bounds, including p, p+1..2^255-1 and values above 2^255",
  "tests round-trip random elements, which are never within 19 of p or unequal only in high bits.",
  ["src/eltfp25519_1w_fullradix.c","src/eltfp25519_1w_redradix.c","src/eltfp25519_2w_redradix.c","src/eltfp25519_4w_redradix.c","src/bytestring.c"],
  [("final conditional subtraction","src/eltfp25519_1w_*.c"),("byte comparison","src/bytestring.c")],["Fp25519.*.arith.cmp/cmv/sgn/misc.ser/misc.unser"])
p("C06","Field encode, decode, equality, sign and select are canonical for 2^448-2^224-1",
  "For every element of either representation over 2^448-2^224-1, serialising yields the unique little-endian integer in [0,p) congruent to it, deserialising yields an element congruent to the given integer, and comparison returns zero exactly when the two elements are congruent (in every lane of the vector forms). The sign is the parity of the canonical value, conditional move returns exactly one of its operands as selected, and prime() returns p.",
  ["inputs"],"all 448-bit words / all digit vectors in the stated bounds, including p..2^448-1",
  "tests round-trip random elements, which are never in [p,2^448).",
  ["src/eltfp448_1w_fullradix.c","src/eltfp448_1w_redradix.c","src/eltfp448_2w_redradix.c","src/eltfp448_4w_redradix.c"],
  [("final conditional subtraction","src/eltfp448_1w_*.c")],["Fp448.*.arith.cmp/cmv/sgn/misc.ser/misc.unser"])
p("C07","Inversion and square roots are the right powers in both fields",
  "For every element, inversion over either prime stores x^(p-2) (so x*inv(x)=1 for x nonzero and 0 maps to 0), in every representation that offers it. Where a square root (or inverse square root of a quotient) is offered it returns a root whenever one exists, and the routine reports or leaves detectable that none exists.",
  ["inputs"],"all field elements, symbolically as a formal variable; both outcomes of every internal test",
  "tests invert a few random elements; a quotient's non-residue and quartic-residue cases are hit only in half of random trials and the vector forms are not checked.",
  ["src/eltfp25519_1w_fullradix.c","src/eltfp25519_1w_redradix.c","src/eltfp25519_4w_redradix.c","src/eltfp448_1w_fullradix.c","src/eltfp448_1w_redradix.c"],
  [("addition chains for p-2 and (p-5)/8, (p-3)/4","src/eltfp*.c")],["arith.inv","arith.srt"])
p("C08","X25519 computes the RFC 7748 function in both implementations",
  "For every 32-byte scalar and every 32-byte u-coordinate, both X25519 implementations return the RFC 7748 function: the scalar clamped, the top bit of u ignored, non-canonical u accepted, all 255 ladder steps taken, and the result canonical; they therefore agree with each other and with key generation applied to the base point. The caller's key buffers are not modified.",
  ["inputs"],"every ladder step for arbitrary projective state and either key bit, every scalar bit position, all 256-bit u",
  "tests use RFC vectors and 1000-iteration chains from fixed seeds with reduced u; unusual u values and rare carries inside a step are not reached.",
  ["src/ladder255.c","src/dh255.c"],
  [("Montgomery ladder step","src/ladder255.c"),("clamping and u masking","src/ladder255.c")],["X25519.shared","X25519.keygen","X25519_x64.shared","X25519_x64.keygen"])
p("C09","X448 computes the RFC 7748 function",
  "For every 56-byte scalar and every 56-byte u-coordinate X448 returns the RFC 7748 function: the scalar clamped, non-canonical u accepted, all 448 ladder steps taken, and the result canonical; key generation yields the same public key as the function applied to the base point. The caller's key buffers are not modified.",
  ["inputs"],"every ladder step for arbitrary projective state and either key bit, every scalar bit position, all 448-bit u",
  "tests use RFC vectors; non-canonical u and rare carries are not reached.",
  ["src/ladder448.c","src/dh448.c"],
  [("Montgomery ladder step","src/ladder448.c"),("clamping","src/ladder448.c")],["X448.shared","X448.keygen"])
p("C10","Edwards25519 point operations follow the group law",
  "For every valid projective representation, each point addition, mixed addition, doubling and multi-lane addition used for Ed25519, X25519 key generation and hashing to the curve returns coordinates of the sum (or double) on -x^2+y^2=1+d x^2 y^2, including when an operand is the identity, equal to or the inverse of the other, with X*Y=Z*T where T is provided. Encoding stores the canonical y with the sign of x, decoding followed by encoding returns the same point, and encodings that are not of a curve point are rejected.",
  ["inputs"],"all coordinates as formal variables, all digit vectors within the propagated bounds, all lanes; all 256-bit encodings",
  "random points never have coincident or special coordinates, and each lane/operand combination is only indirectly exercised.",
  ["src/edwards255.c"],
  [("unified addition and dedicated doubling formulas","src/edwards255.c"),("point encoding/decoding","src/edwards255.c")],["Ed25519.*"])
p("C11","Edwards448 point operations and isogeny follow the group law",
  "For every valid projective representation, each point addition, mixed addition and doubling used for Ed448 and X448 key generation returns the sum (or double) on the twisted curve the library works on, and the isogeny maps between it and Ed448 are the documented ones, so results are the points of Ed448. Encoding stores the canonical y with the sign of x, decoding followed by encoding returns the same point, and encodings that are not of a curve point are rejected.",
  ["inputs"],"all coordinates as formal variables, all digit vectors within the propagated bounds, all lanes; all 57-byte encodings",
  "random points never have coincident or special coordinates or vanishing digits.",
  ["src/edwards448.c"],
  [("unified addition and dedicated doubling formulas","src/edwards448.c"),("isogeny","src/edwards448.c")],["Ed448.*","X448.keygen"])
p("C12","Fixed-base scalar multiplication returns exactly [k]B on Curve25519/Ed25519",
  "For every scalar in the range each caller passes, the fixed-base multiplication used by Ed25519 signing/key generation and by X25519 key generation returns exactly k times the base point: the recoded digits re-sum to k and stay within table range, each lookup returns the signed multiple asked for, and the stored tables contain the right points.",
  ["inputs"],"all scalars in range (symbolic 256-bit), all table positions and digit values",
  "a random 256-bit scalar leaves most (position,digit) table entries and the carry-out of the recoding untouched.",
  ["src/edwards255.c","include/table_sign_w4_12k_ed25519.h","include/table_sign_w4_24k_ed25519.h"],
  [("signed radix-16 recoding","src/edwards255.c"),("constant-time table lookup","src/edwards255.c"),("precomputed tables","include/table_sign_w4_*_ed25519.h")],["Ed25519.Pure.keygen","Ed25519.Pure.sign","X25519.keygen"])
p("C13","Fixed-base scalar multiplication returns exactly [k]B on Ed448",
  "For every scalar in the range each caller passes, the fixed-base multiplication used by Ed448 signing/key generation and by X448 key generation returns exactly k times the base point: the division by the isogeny degree is exact modulo the group order, the recoded digits re-sum to the scalar and stay within table range, each lookup returns the signed multiple asked for, and the stored tables contain the right points.",
  ["inputs"],"all scalars in range (symbolic 448-bit), all table positions and digit values",
  "a random scalar leaves most (position,digit) table entries and the carry-out of the recoding untouched.",
  ["src/edwards448.c","include/table_sign_w4_3675k_ed448.h"],
  [("signed radix-16 recoding","src/edwards448.c"),("table lookup","src/edwards448.c"),("precomputed table","include/table_sign_w4_3675k_ed448.h")],["Ed448.PureContext.keygen","Ed448.PureContext.sign","X448.keygen"])
p("C14","Signature verification's double-scalar multiplication returns [S]B-[h]A",
  "For every S and h below the group order and every decoded key A, the verification multiplication for Ed25519 (Ed448) returns the encoding of [S]B-[h]A: the sliding-window digits re-sum to the scalar, are odd and within table range, and never run past their buffers, and every table entry is the multiple it stands for. (For Ed448 a component of A of order dividing four is removed by the internal isogeny and does not count.)",
  ["inputs"],"all scalars below the group order (symbolic), all digit values and signs, every digit position",
  "valid signatures keep S below the group order; attacker-chosen S with the top bits set is never tried.",
  ["src/edwards255.c","src/edwards448.c","include/table_verf_w7_ed25519.h","include/table_verf_w7_ed448.h"],
  [("width-w NAF recoding","src/edwards255.c, src/edwards448.c"),("window tables","include/table_verf_w7_*.h")],["Ed25519.Pure.verify","Ed448.PureContext.verify"])
p("C15","Scalar arithmetic modulo both group orders is exact and canonical",
  "For every 64-byte (114-byte) hash value the reduction modulo the Ed25519 (Ed448) group order stores the unique representative in [0,order), and for every r, h, a in range the signature scalar equals (r + h*a) mod order in canonical form. Multi-word multiply-accumulate is exact, with no lost carries.",
  ["inputs"],"all 512-bit / 912-bit values and all r,h,a in range",
  "the values for which a final correction is needed have probability near 2^-120; random or RFC vectors never reach them.",
  ["src/sign255.c","src/sign448.c","src/edwards448.c","src/bytestring.c"],
  [("folding by the low part of the order","src/sign255.c, src/edwards448.c"),("schoolbook multiplier","src/bytestring.c")],["Ed25519.*.sign","Ed448.*.sign"])
p("C16","Ed25519 sign and verify follow RFC 8032 for pure, context and prehash variants",
  "For every key, message and context, Ed25519 signing hashes exactly the byte strings RFC 8032 prescribes (domain prefix with flag and context length, context, secret prefix, R, public key, message or its SHA-512) and outputs R and the scalar from them, and verification accepts exactly when the recomputed R equals the signature's R for that variant. Contexts above 255 bytes, public keys that do not decode and scalars S not below the group order are refused; inputs are not modified.",
  ["inputs","histories"],"all message/context/key bytes with lengths up to the stated bounds, every return path",
  "RFC vectors only: no over-long context, S >= order, bad key or cross-variant signature is tried.",
  ["src/sign255.c","src/ed255.c"],
  [("domain separation and transcript hashing","src/sign255.c"),("length and key checks","src/sign255.c")],["Ed25519.Pure","Ed25519.Context","Ed25519.PreHash"])
p("C17","Ed448 sign and verify follow RFC 8032 for pure and prehash variants",
  "For every key, message and context, Ed448 signing hashes exactly the byte strings RFC 8032 prescribes (\"SigEd448\", flag, context length, context, secret prefix, R, public key, message or its 64-byte SHAKE256) and outputs R and the scalar from them, and verification accepts exactly when the recomputed R equals the signature's R for that variant. Contexts above 255 bytes, public keys that do not decode and scalars S not below the group order are refused; inputs are not modified.",
  ["inputs","histories"],"all message/context/key bytes with lengths up to the stated bounds, every return path",
  "the RFC signature vectors fail on the base revision and no malformed input is tried.",
  ["src/sign448.c","src/ed448.c"],
  [("domain separation and transcript hashing","src/sign448.c"),("length and key checks","src/sign448.c")],["Ed448.PureContext","Ed448.PreHash"])
p("C18","Streaming and two-way SHA-512 compute FIPS 180-4 for every split",
  "For every message, the streaming SHA-512 (and SHA-384) interface yields the FIPS 180-4 digest however the message is cut into updates, and the context is ready for reuse after close. The two-way SHA-512 yields for each of its two lanes the digest of that lane's message, at every length including those around block and padding boundaries.",
  ["inputs","histories"],"all message contents and chaining values; all lengths and update splits up to the stated bounds",
  "tests hash fixed strings through one update; the padding boundaries (111,112,119,120,127,128 mod 128) and splits are not enumerated.",
  ["third_party/sha512.c","third_party/sha512_2way.c","third_party/multi_hash.h"],
  [("compression function","third_party/sha512.c, third_party/sha512_2way.c"),("buffering and padding","third_party/sha512.c, third_party/sha512_2way.c")],["sph_sha512*","sha512_2w_avx"])
p("C19","SHA-3/SHAKE compute FIPS 202 for every split of the input and output length",
  "For every byte message, the incremental and one-shot SHA-3 and SHAKE128/256 functions return the FIPS 202 digest however the message is cut into updates and for every requested output length, without reading or writing beyond the given buffers.",
  ["inputs","histories"],"all message contents and states; all lengths, splits and output lengths up to the stated bounds",
  "tests use few short vectors; block-boundary lengths and multi-block outputs are not enumerated.",
  ["third_party/sha3.c","third_party/sha3.h"],
  [("Keccak-f[1600]","third_party/sha3.c"),("sponge absorb/pad/squeeze","third_party/sha3.c")],["Init/Update/Final/Final2/Hash/SHAKE128/SHAKE256"])
p("C20","Hashing to edwards25519 is RFC 9380 Elligator 2 in both implementations",
  "For every message both hash-to-curve implementations return the same affine point: two field elements derived from the message (SHA-512 of a byte 0, respectively 1, followed by the message, reduced modulo the group order as this library defines it), each mapped by the Elligator 2 map to edwards25519 with the right sign, added, and multiplied by the cofactor. The result is on the curve for every input, including exceptional field elements, and the on-curve and equality predicates are exact.",
  ["inputs"],"all field elements as formal variables with every residue/sign/exceptional outcome, all message lengths up to the stated bound",
  "tests compare the two implementations on random messages; exceptional cases (zero denominators) and sign corners are not reached.",
  ["src/hash255.c"],
  [("Elligator 2 straight-line program","src/hash255.c"),("cofactor clearing and addition","src/hash255.c, src/edwards255.c")],["h2c25519_x64","h2c25519_avx2","map_to_curve","map_to_curve_2w","isOnCurve","areEqual"])
p("C21","Secret keys never decide a branch or a memory address",
  "While generating keys, computing shared secrets or signing, no conditional branch and no load or store address depends on the private key, the ephemeral scalar or values derived from them, other than through the published output.",
  ["inputs"],"all pairs of secrets: two-run non-interference on branch conditions and addresses",
  "functional tests cannot observe control flow or addresses.",
  ["src/ladder255.c","src/ladder448.c","src/edwards255.c","src/edwards448.c","src/sign255.c","src/sign448.c"],
  [("arithmetic/permutation based conditional swap and full-table scans","src/ladder*.c, src/edwards*.c")],["X25519.*","X448.*","Ed25519.*.sign","Ed448.*.sign"])
p("C22","No API call reads or writes outside its buffers or uses uninitialised data",
  "For every argument of the documented sizes, no public function reads or writes outside the objects it is given or its own locals, branches on or returns uninitialised memory, or requires more alignment than its types promise; heap allocations it makes are released.",
  ["inputs"],"all contents of buffers of the documented sizes, lengths up to the stated bounds",
  "tests run without sanitizers on well-formed inputs only; attacker-chosen scalars and encodings drive the index computations.",
  ["src/edwards255.c","src/edwards448.c","src/sign255.c","src/sign448.c","src/hash255.c","third_party/sha3.c","third_party/sha512.c"],
  [("fixed-size local arrays sized for the worst case","src/*.c")],["all public functions"])
p("C23","Random keys are fully filled with system randomness under any read outcome",
  "Whatever sizes the operating system's random source returns (short reads, interruptions, errors, failure to open), a call that returns has filled every requested byte exactly once from the source, has written nothing beyond the request and has released the descriptor; it never returns normally with unfilled bytes.",
  ["fault_sequences"],"all sequences of open/read outcomes up to the stated number of reads and request size",
  "tests only see a healthy /dev/urandom returning full reads.",
  ["third_party/prng.c","src/bytestring.c"],
  [("read loop","third_party/prng.c")],["randKey","misc.rand"])
p("C24","Diffie-Hellman calls leave no copy of the secret key behind",
  "When an X25519 or X448 call returns, none of the temporary buffers it used still contains the (clamped) private scalar; the buffers are overwritten in full by a store the compiler may not drop.",
  ["inputs"],"all secrets; all local buffers of the call",
  "tests observe only outputs.",
  ["src/bytestring.c","src/ladder255.c","src/ladder448.c"],
  [("volatile zeroing of the scalar copy","src/bytestring.c")],["X25519.shared","X25519_x64.shared","X448.shared","X448.keygen"])
p("C25","Calls share no state: concurrent calls on disjoint buffers cannot interfere",
  "No function of the interface (key generation, Diffie-Hellman, signing, verification, field arithmetic, hashing, hash-to-curve, random keys) writes storage that outlives the call other than the buffers it is given (and heap objects it returns): nothing is kept in static variables, so calls made from several threads on disjoint buffers behave as if made one after another and a call's result never depends on earlier calls.",
  ["inputs","schedules"],"every store on every path, for all contents of the buffers, lengths up to the stated bounds; with no shared writes every interleaving of calls is equivalent to a sequential one",
  "the tests are single-threaded; a static scratch buffer passes all of them.",
  ["src/","third_party/sha3.c","third_party/sha512.c","third_party/sha512_2way.c","third_party/prng.c"],
  [("all temporaries are automatic variables; tables are constant","src/*.c, include/table_*.h")],["all public functions"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
