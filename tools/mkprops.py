#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (single source for titles, statements, anchors)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F64, F32, FM, SC = "src/field/fiat_u64/prime_field.rs", "src/field/u32/prime_field.rs", "src/field/mod.rs", "src/field/scalar.rs"
KA, C64, C32, CC = "src/field/u32/karatsuba.rs", "src/field/fiat_u64/constants.rs", "src/field/u32/constants.rs", "src/constants.rs"
ED, EA = "src/curve/edwards/extended.rs", "src/curve/edwards/affine.rs"
TW = ["src/curve/twedwards/%s.rs" % x for x in ("extended", "extensible", "projective", "affine")]
MO, DE, DO, RI, MA = "src/curve/montgomery/montgomery.rs", "src/decaf/decaf.rs", "src/decaf/ops.rs", "src/ristretto/ristretto.rs", "src/macros.rs"
VB, WN, DA, DB = ["src/curve/scalar_mul/%s.rs" % x for x in ("variable_base", "window/wnaf/mod", "double_and_add", "double_base")]
I, CF, PR, HI = "inputs", "configurations", "programs", "histories"
AI = "Abstract interpretation of MIR with an algebraic value domain (polynomial normal forms + limb intervals, function summaries)"
NOTE = ("Decided for all inputs at once on the MIR of both field backends. Trusted: rustc's MIR, the analyser in /verif/sa, the contracts of fiat-crypto and subtle, "
        "and the curve lemmas listed in DESIGN.md.")
P = []


def p(id, title, st, over, text, why, files, mech, tech=AI, note=NOTE):
    P.append((id, title, st, over, text, why, files, mech, tech, note))


p("C01", "Field arithmetic is exact modulo p = 2^448 - 2^224 - 1",
  "Addition, subtraction, negation, multiplication and squaring of field elements, and their operator and assignment forms, return the mathematically exact result modulo p = 2^448 - 2^224 - 1. Internal reductions and unreduced intermediate forms never change the value modulo p, and the constants zero, one and minus one have those values.",
  [I, CF], "all pairs of field elements in every limb representation that can arise, both backends",
  "The tests multiply and add a few fixed elements; carry and reduction errors show up for a vanishing fraction of limb patterns.",
  [F64, F32, KA, FM], "limb-wise add/sub/mul with bias addition and weak/strong reduction; Karatsuba multiplication in the u32 backend, fiat-crypto in the u64 backend")
p("C02", "Field encoding, decoding, equality and sign are canonical",
  "Encoding a field element yields the unique 56-byte little-endian representative in [0, p), whatever its internal representation. Decoding a 56-byte string yields its value modulo p; equality and zero tests are true exactly when the values agree modulo p; the sign of an element is the parity of its canonical representative.",
  [I, CF], "all field elements in all representations, and all 2^448 byte strings including the non-canonical ones",
  "Only values very close to 0 or p (probability about 2^-224) take the last conditional subtraction or borrow.",
  [F64, F32, FM], "to_bytes / from_bytes / strong reduction / ct_eq / is_negative / is_zero")
p("C03", "Field inversion and inverse square roots",
  "The inverse of x is x^(p-2): the multiplicative inverse for x != 0 and 0 for x = 0. The inverse square root of x is the candidate x^((p-3)/4) together with a flag that is set exactly when x is a nonzero square; the square root of a ratio u/v succeeds exactly when u*v is a nonzero square or u is zero and then squares to u/v.",
  [I, CF], "all field elements, including zero and non-residues",
  "An addition-chain slip or a wrong flag on 0 or on non-residues is not visible on the few fixed residues the tests use.",
  [FM, F64, F32], "invert / inverse_square_root / sqrt_ratio addition chains")
p("C04", "No machine arithmetic overflow and no limb bound exceeded",
  "No public operation, on any input, overflows a machine integer, and no field-element limb ever leaves the range its consumer requires, on either field backend. Consequently results are the same in debug and release builds.",
  [I, CF], "all inputs of every public operation, both backends",
  "Overflow in a limb needs extremal limb patterns that random inputs practically never produce; in release builds it is silent.",
  [F64, F32, KA, SC, ED] + TW + [MO, DE, VB], "limb headroom: loose/tight limb ranges of fiat-crypto, 2^28 + bias limbs in the u32 backend, u64/i64 carries in scalar arithmetic",
  "Interval analysis over MIR (limb ranges tracked through every operation, overflow assertions and fiat-crypto preconditions as obligations)")
p("C05", "Base points and curve constants are the standard ones",
  "The Edwards generator is the Ed448 base point of RFC 8032 and has prime order l; the Decaf generator, the Curve448 generator (u = 5) and the twisted-curve generator are the corresponding standard points. The curve constants, the group order and its derived constants used anywhere in the computations have their standard values on both backends.",
  [I, CF], "all constants on both backends, wherever they are used",
  "Tests compare only some constants on the default backend and none of the derived multiples.",
  [C64, C32, CC, SC], "constant tables per backend; group order and Montgomery constants",
  AI)
p("C06", "Scalar addition, subtraction and multiplication are exact modulo l",
  "For canonical scalars a, b (integers below the group order l) a + b, a - b and a * b return the canonical representative of the exact result modulo l; multiplication does so even when both operands are arbitrary 448-bit integers. Zero, one, the default and the conversion from a 32-bit integer have exactly those integer values.",
  [I], "all pairs of canonical scalars (all pairs of 448-bit integers for multiplication)",
  "Missing a final conditional subtraction shows up only when the intermediate result falls in a narrow band around l.",
  [SC], "sub_extra / montgomery_multiply and the operator implementations")
p("C07", "Scalar halving and inversion",
  "Halving a canonical scalar returns the canonical h with h + h = s modulo l, for odd and even s alike. Inverting a scalar returns s^(l-2) modulo l: the multiplicative inverse for s != 0 and zero for s = 0.",
  [I], "all canonical scalars",
  "Tests invert and halve a handful of scalars; a wrong exponent window or a lost carry bit is visible only for some scalars.",
  [SC], "halve / invert with a sliding window over l - 2")
p("C08", "Scalar encodings are exact and canonical decoding is strict",
  "Decoding 56 bytes and re-encoding is the identity on all byte strings: the little-endian integer is stored unchanged; the 57-byte encoding appends a zero byte. The strict decoder accepts a 57-byte string exactly when it encodes an integer below the group order (57th byte zero) and then returns that integer; two scalars compare equal exactly when they are the same 448-bit integer.",
  [I], "all 2^448 and 2^456 byte strings, all pairs of scalars",
  "Boundary values near l, set high bits and nonzero last bytes are each a negligible share of inputs; tests try one or two.",
  [SC], "from_bytes / to_bytes / to_bytes_rfc_8032 / from_canonical_bytes / ct_eq")
p("C09", "Wide reduction and random scalars",
  "Reducing a 114-byte little-endian string returns its canonical value modulo l, for every string. A random scalar is exactly such a reduction of 114 fresh bytes taken from the caller's generator, so it is canonical and statistically uniform.",
  [I], "all 2^912 strings and every output of the generator",
  "Tests reduce one or two strings; errors in the middle or top part or a missing final reduction need particular inputs.",
  [SC], "from_bytes_mod_order_wide: three parts reduced with R^2 constants; random fills 114 bytes")
p("C10", "Digit and limb views of scalars",
  "The bit listing of a scalar has 448 entries, least significant first, that recompose to the scalar; indexing reads and writes exactly the addressed 32-bit limb. The signed-digit recoding used for multiplication recomposes to the scalar with every digit in [-8, 8], and the division by four used before the isogeny is the exact floor quotient, for every 448-bit scalar.",
  [I], "all 448-bit scalars",
  "Recoding errors (a carry out of the top digit, a carry across limbs) need particular digit patterns.",
  [SC], "bits / Index / to_radix_16 / div_by_four")
p("C11", "Edwards point operations implement the group law",
  "Adding, subtracting, negating, doubling, summing points and converting to affine and back compute the Ed448 curve group operation for all pairs of points, including equal, opposite, identity and low-order operands and aliased arguments. Every operator variant (by value, by reference, assigning) gives the same result, the torsion shift adds the 2-torsion point (0, -1), and the identity is neutral.",
  [I], "all pairs (triples for sums) of curve points in all projective representations",
  "Tests use multiples of the base point; exceptional cases and non-normalised representations are a negligible share.",
  [ED, EA, MA], "unified extended-coordinate formulas with d = -39081")
p("C12", "Edwards equality is equality of points",
  "Two points compare equal, in constant-time and ordinary comparison, exactly when they are the same affine point, whatever their projective representation. In particular P differs from -P, from P plus a torsion point, and from any other point sharing one coordinate.",
  [I], "all pairs of curve points in all projective representations",
  "Two points sharing one coordinate or differing by torsion are never compared by the tests.",
  [ED], "ct_eq by cross-multiplication")
p("C13", "Twisted-curve point formats implement the same group",
  "On the internal 4-isogenous twisted curve every addition, subtraction, doubling, negation, equality test, selection and conversion between coordinate formats (extended, extensible, affine, projective Niels) denotes the corresponding group operation, for all group elements that can occur. In particular no conversion changes the point it denotes.",
  [I, CF], "all elements of the subgroup the library computes in, all representations",
  "The formats are only exercised on multiples of the generator; a wrong extended coordinate stays invisible until a later operation reads it.",
  TW, "extended/extensible/Niels formulas with a = -1, d = -39082")
p("C14", "The isogeny to the twisted curve and back multiplies by four",
  "Mapping an Edwards point to the twisted curve and back yields four times the point, and negation on the twisted side corresponds to negation of the result. Both maps are group homomorphisms computed correctly for all points, and send the identity and the 2-torsion point to the identity.",
  [I], "all curve points in all representations",
  "Tests check the map on the base point only; low-order points hit exceptional cases.",
  [ED] + TW, "dual isogenies to_twisted / to_untwisted (edwards_isogeny with a)")
p("C15", "Edwards scalar multiplication equals repeated addition",
  "For every point P, torsion included, and every scalar s the product s*P equals P added s times (s taken as its 448-bit integer), for every operator variant and for the underlying variable-base, double-and-add and double-base algorithms. The small multiplication by s mod 4 equals (s mod 4)*P.",
  [I], "all points (any torsion component) and all 448-bit scalars",
  "Window digits at their extremes, carries out of the top window, and torsion components combined with s mod 4 are hit only by special scalars and points.",
  [ED, VB, WN, DA, DB, SC], "s*P = (s mod 4)*P + dual isogeny of (s/4) times the image on the twisted curve, signed radix-16 windows with a lookup table")
p("C16", "Montgomery scalar multiplication computes the u-coordinate of s*P",
  "Multiplying a Curve448 u-coordinate by a scalar returns the canonical u-coordinate of s times any point with that u (on the curve or its twist; 0 represents the point at infinity and u = 0), for every scalar bit pattern and every 56-byte input including non-canonical ones. The two operand orders agree, and conditional selection moves whole points.",
  [I, CF], "all u in [0, 2^448) and all 448-bit scalars",
  "A swap error matters only for particular scalar bits, and u = 0 or non-canonical inputs are never tested.",
  [MO], "x-only ladder differential_add_and_double with conditional swaps")
p("C17", "Edwards to Montgomery conversion",
  "Converting an Edwards point to Curve448 yields the canonical encoding of u = y^2/x^2, and 0 for the two points with x = 0, for every projective representation. It commutes with scalar multiplication and negation because it is the standard map.",
  [I], "all curve points in all representations",
  "Tests convert only a few points; x = 0 and unnormalised representatives are special.",
  [ED, MO], "to_montgomery: u = y^2 * (1/x^2)")
p("C18", "Low-order detection on Curve448 is exact",
  "The low-order test is true exactly for the u-coordinates 0, 1 and p-1 in every encoding, canonical or not, and false for every other 56-byte string.",
  [I], "all 2^448 byte strings",
  "Only a handful of strings are low order; non-canonical encodings of them are never tried by the tests.",
  [MO], "is_low_order comparisons")
p("C19", "Torsion-free test is exact",
  "The torsion-free test is true for a point exactly when it lies in the prime-order subgroup, that is when l times the point is the identity.",
  [I], "all curve points, every torsion component",
  "Tests try the generator and one torsion-shifted point.",
  [ED], "is_torsion_free: multiplication by the group order")
p("C20", "Edwards compression is canonical",
  "Compressing a point yields 57 bytes: the canonical little-endian encoding of y in the first 56 and the parity of x in the top bit of the last byte, all other bits zero, independent of the projective representation. Distinct points therefore have distinct encodings.",
  [I], "all curve points in all representations",
  "Few points are compressed by tests; representation dependence is never tested.",
  [ED], "compress: affine conversion, is_negative, to_bytes")
p("C21", "Edwards decompression accepts exactly the curve points",
  "Decompressing 57 bytes succeeds exactly when some point of the curve has the encoded y (taken modulo p from the first 56 bytes) as its second coordinate, and then returns the curve point with that y whose x has the parity given by the top bit of the last byte (or x = 0). Every successful result satisfies the curve equation, and decompressing a compressed point returns that point.",
  [I], "all 2^456 byte strings",
  "About half of all strings are invalid; the tests decode a few valid ones and one invalid one.",
  [ED], "decompress: sqrt of (1-y^2)/(1-d*y^2), sign selection, on-curve check")
p("C22", "Decaf decoding accepts exactly canonical encodings",
  "Decoding a 56-byte Decaf string succeeds exactly when it is the canonical encoding (value below p) of a non-negative (even) s for which the decoding formula has a square root, and then returns the element the Decaf448 specification prescribes, a valid point. Non-canonical, negative and non-residue strings are all rejected.",
  [I], "all 2^448 byte strings",
  "Non-canonical strings have probability 2^-224; tests try a small fixed list.",
  [DE], "decompress: canonical and sign checks, inverse square root, sign correction")
p("C23", "Decaf encoding is canonical and representation independent",
  "Encoding a Decaf element yields the canonical non-negative s prescribed by the Decaf448 specification, the same for all representatives of the element (torsion-shifted or rescaled), and decoding it returns an equal element. The identity encodes as 56 zero bytes and nothing else does.",
  [I], "all elements in all representations",
  "Tests encode a few multiples of the generator in the representation the library happens to produce.",
  [DE], "compress with two conditional negations and an inverse square root")
p("C24", "Decaf group operations and equality respect cosets",
  "Addition, subtraction, negation, scalar multiplication and the identity of Decaf elements compute the quotient group operation for all elements and scalars, in every operator variant. Equality is true exactly when two elements lie in the same coset, for Decaf and for the Ristretto wrapper.",
  [I], "all pairs of elements, all scalars",
  "Coset equality with torsion-shifted representatives is hardly tested, and operator variants are separate code.",
  [DE, DO, RI], "wrappers around twisted extended points; equality x1*y2 = y1*x2")
p("C25", "Secret-independent control flow and memory access",
  "No operation on points, scalars, field elements or encodings branches on, indexes memory by, or compares with early exit on values derived from its operands; only the outcome that an operation exists to reveal (validity of a decoded encoding, the low-order verdict, the result of an equality test) is exempt.",
  [I, HI], "all operands of every public operation, both backends",
  "Timing behaviour is not observable by functional tests at all.",
  [ED, MO, DE, SC, VB, WN, F64, F32, FM] + TW, "subtle's Choice / conditional selection instead of branches; constant-time table lookup",
  "Taint/effect analysis over MIR: every branch, index and early-exit comparison reached from a public operation must be independent of operand values",
  "Information flow at MIR level for all operands; compiler back-end transformations below MIR are out of scope.")
p("C26", "Public operations never panic",
  "No public operation panics for any argument of its type: no failing assertion, unwrap, out-of-range index or slice, or invalid boolean flag; malformed encodings are reported as an absent value. (Indexing a scalar's limbs past 13 is the only documented exception.)",
  [I], "all arguments of every public operation",
  "Panics on rare inputs (an assertion on a carry, an expect on a square root) do not show on sampled inputs.",
  [ED, MO, DE, RI, SC, VB, WN, F64, F32, FM], "assert/expect/index sites reachable from the public API",
  "Abstract interpretation of MIR: every panic edge and assertion reachable from a public operation must be infeasible",
  "All panic sites for all arguments. Three unimplemented (todo!) public functions are listed as known findings.")
p("C27", "Only valid points can be obtained through the public API",
  "Client code in safe Rust cannot build or modify a point so that it leaves its curve: coordinates are not publicly accessible or mutable, and every public function that returns or updates a point yields a point on the curve (and in the quotient group) whenever its arguments are valid. No public function is unsafe.",
  [PR, HI], "all client programs in safe Rust, all sequences of public calls",
  "A visibility change breaks no test, and no test ranges over client programs.",
  [ED, DE, RI, MO, EA, "src/lib.rs"] + TW, "private coordinate fields; closure of the set of public signatures",
  "API-surface query over the type-checked crate (field visibility, signatures, fixpoint of obtainable types) plus abstract interpretation of every point-valued public function")
p("C28", "Compressed values compare, expose and erase all their bytes",
  "Two compressed Decaf, Ristretto or Montgomery values are equal exactly when all their 56 bytes are equal, byte views expose exactly the stored bytes, identities are the all-zero encodings, and erasing a Montgomery point (when that feature is enabled) sets every byte to zero.",
  [I], "all pairs of byte strings",
  "A comparison that skips a byte or a partial erase is not visible on random inputs.",
  [MO, DE, RI], "ct_eq over byte arrays, as_bytes, Zeroize")
p("C29", "Conditional selection, assignment and swap are exact",
  "Selecting, conditionally assigning, conditionally negating or swapping points and field elements yields exactly the first or the second operand (or exchanges both) according to the choice bit, in all coordinates.",
  [I, CF], "all operands and both values of the choice, both backends",
  "A coordinate that is not selected (for instance the auxiliary T coordinate) influences results only in later operations.",
  [ED, F64, F32, FM] + TW, "ConditionallySelectable implementations")
p("C30", "Operations are pure: no hidden state, I/O or dependence on environment",
  "Every public operation is a function of its arguments only: it reads and writes no global mutable state, performs no I/O, and depends on no clock, thread, environment variable, randomness of its own or CPU feature. It follows that repeated or concurrent calls give identical results.",
  [HI, "schedules"], "all call histories and thread interleavings",
  "Tests cannot enumerate histories or interleavings.",
  ["src/lib.rs", ED, MO, DE, SC, F64, F32], "call graph of the public API; absence of statics with interior mutability",
  "Whole-program call-graph and static-item query over MIR (effect system)",
  "Closed call graph from all public functions, both backends.")
p("C31", "Both field backends implement the same public behaviour",
  "For every public operation and all inputs the 64-bit and the 32-bit field backend return the same result.",
  [CF, I], "both backends, all inputs of every public operation",
  "The test suite is run with one backend at a time and never compares them.",
  [F64, F32, KA, C64, C32, FM], "two implementations behind one alias selected by cargo features",
  "Abstract interpretation of MIR of both configurations; the abstract results of every public operation are compared with one specification value and with each other")

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for id, title, st, over, text, why, files, mech, tech, note in P:
        assert len(title) <= 80, title
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": [{"name": mech, "where": files[0]}]}}) + "\n")
json.dump({"version": 1, "setup_cmd": "bash ./setup.sh",
           "checks": [{"property": id, "quick_cmd": "python3 check.py %s quick" % id, "thorough_cmd": "python3 check.py %s thorough" % id,
                       "technique": tech, "level": "proof", "level_note": note} for id, title, st, over, text, why, files, mech, tech, note in P],
           "not_applicable": []}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
