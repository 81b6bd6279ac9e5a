#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

SC = "src/field/scalar.rs"; ED = "src/curve/edwards/extended.rs"; MO = "src/curve/montgomery/montgomery.rs"
DE = "src/decaf/decaf.rs"; DO = "src/decaf/ops.rs"; VB = "src/curve/scalar_mul/variable_base.rs"
WN = "src/curve/scalar_mul/window/wnaf/mod.rs"; DA = "src/curve/scalar_mul/double_and_add.rs"
TE = "src/curve/twedwards/extended.rs"; TX = "src/curve/twedwards/extensible.rs"; TP = "src/curve/twedwards/projective.rs"
FM = "src/field/mod.rs"; FF = "src/field/fiat_u64/prime_field.rs"; FU = "src/field/u32/prime_field.rs"; FK = "src/field/u32/karatsuba.rs"
FC = "src/field/fiat_u64/constants.rs"; UC = "src/field/u32/constants.rs"

prop("C01", "Scalar addition, subtraction and multiplication are exact modulo the order",
 "For every two scalars, whichever constructor or earlier operation produced them (including raw 448-bit values that are not reduced), sum, difference and product are the integer results modulo the group order l = 2^446 - 0x8335dc16...a7bb0d. The result is always the canonical representative below l. Chains of operations therefore stay equal to the same chain over the integers modulo l.",
 ["inputs", "histories"], "all pairs of 448-bit scalars and all chains of scalar operations on them",
 "The tests add, subtract and multiply a handful of small numbers and one pair of full-size reduced numbers; borrow/carry corner cases at the limb and modulus boundaries and unreduced operands are never reached.",
 [SC, "src/constants.rs"], [("ripple add / conditional subtract of the modulus", SC + " add, sub_extra"), ("Montgomery multiplication", SC + " montgomery_multiply")],
 ["Scalar + - * operators, to_bytes"], [("Scalar limbs", "14 saturated 32-bit limbs, little-endian, possibly unreduced", SC)])
prop("C02", "Scalar inversion and halving are exact modulo the order",
 "For every scalar a that is not a multiple of the group order, the inverse of a is the canonical scalar whose product with a is one; the inverse of zero (or of any multiple of the order) is zero. Halving returns a scalar whose double is a modulo the order, canonical whenever a is.",
 ["inputs"], "all 448-bit scalars", "The tests invert 0..100 and halve 8, 4 and 2 (never an odd number, never a value near the modulus).",
 [SC], [("sliding-window exponentiation by l-2", SC + " invert"), ("masked add of the modulus, then shift", SC + " halve")], ["Scalar::invert, Scalar::halve"])
prop("C03", "Scalar byte encodings round-trip and canonical decoding is strict",
 "Raw decoding and encoding of 56-byte little-endian scalars are mutually inverse on all 2^448 strings, and the bit and limb views agree with the same integer. The 57-byte encoding is that string followed by a zero byte, and strict decoding accepts a 57-byte string exactly when it is the little-endian form of an integer below the group order, returning that integer. Equality of scalars holds exactly when the represented integers are equal.",
 ["inputs"], "all 56- and 57-byte strings", "Tests decode three strings and round-trip one scalar.",
 [SC], [("canonical check by conditional subtraction", SC + " from_canonical_bytes"), ("little-endian limb packing", SC + " from_bytes, to_bytes, bits")],
 ["Scalar::from_bytes, to_bytes, from_canonical_bytes, to_bytes_rfc_8032, bits, indexing, From<u32>, =="])
prop("C04", "Wide reduction and random scalars are exact, canonical and unbiased",
 "Reducing any 114-byte little-endian integer gives exactly that integer modulo the group order, in canonical form. Random scalar generation returns, for every generator state, a canonical scalar that depends only on the bytes the generator supplies and whose distribution over the whole range shows no detectable bias.",
 ["inputs", "configurations"], "all 912-bit integers; all RNG byte streams (feature rand)", "Tests reduce four values; random generation is compiled but never run by the tests.",
 [SC], [("lo + hi*R + top*R^2 via Montgomery products", SC + " from_bytes_mod_order_wide"), ("114 bytes from the caller's RNG", SC + " random")],
 ["Scalar::from_bytes_mod_order_wide, Scalar::random"])
prop("C05", "Ed448 point addition, subtraction and negation follow the curve's group law",
 "For every pair of points of the Ed448-Goldilocks curve x^2 + y^2 = 1 - 39081 x^2 y^2 (torsion points, equal points, opposite points and the identity included) and any history of operations that produced them, adding, subtracting, doubling, negating, adding the 2-torsion point and summing lists give the point prescribed by the curve's group law. By-value, by-reference, in-place and iterator forms of an operation give the same point.",
 ["inputs", "histories"], "all pairs of curve points in every reachable projective representation; all sequences of group operations",
 "Tests use the base point and its double only, almost always with Z=1; no torsion points, no identities, no long histories.",
 [ED, "src/curve/edwards/affine.rs", "src/macros.rs"], [("unified addition in extended coordinates", ED + " add"), ("operator forwarding macros", "src/macros.rs")],
 ["ExtendedPoint + - neg += -= sum double torque, observed through compress and =="], [("X,Y,Z,T", "extended projective coordinates with XY=ZT", ED)])
prop("C06", "Ed448 scalar multiplication is exact for every scalar and every point",
 "For every 448-bit integer s held in a scalar (reduced or not) and every curve point P, with or without a torsion component, multiplying gives P added to itself s times. All operator forms and both operand orders agree, and multiplication by s mod 4 gives (s mod 4)P.",
 ["inputs"], "all 448-bit scalars times all curve points", "Tests compare two internal algorithms on one scalar and one point and check 1*P and 4*P.",
 [ED, VB, WN, TE, TX, TP, SC], [("isogeny to the twisted curve, signed radix-16 windows, dual isogeny, remainder mod 4", ED + " scalar_mul"), ("signed digit recoding", SC + " to_radix_16"), ("lookup table with conditional negation", WN)],
 ["ExtendedPoint * Scalar in all forms, scalar_mul, scalar_mod_four"])
prop("C07", "Ed448 point encoding is canonical and round-trips",
 "Encoding any curve point gives its RFC 8032 encoding: the 56 little-endian bytes of the fully reduced y coordinate followed by a byte whose top bit is the parity of the reduced x coordinate and whose other bits are zero. Two points are equal exactly when their encodings are byte-identical, whatever computation produced them, and decoding an encoding gives back the same point.",
 ["inputs", "histories"], "all curve points in every projective representation", "Tests encode two points in affine representation.",
 [ED, FM, FF, FU], [("normalise by 1/Z, strong reduction, parity bit", ED + " compress, to_affine"), ("cross-multiplied equality", ED + " ct_eq")],
 ["ExtendedPoint::compress, ==, CompressedEdwardsY bytes"])
prop("C08", "Ed448 point decoding accepts exactly the valid RFC 8032 encodings",
 "Decoding a 57-byte string succeeds exactly when the string is the canonical encoding of a curve point: y below the field prime, unused bits zero, an x coordinate exists, and no sign bit set when x is zero. When it succeeds, the point lies on the curve with exactly that y coordinate and sign, so that re-encoding gives back the same string; otherwise it reports failure without panicking.",
 ["inputs"], "all 57-byte strings", "Tests decode three valid strings; no invalid or non-canonical string is ever tried.",
 [ED, FM], [("square-root of (1-y^2)/(1-dy^2)", ED + " CompressedEdwardsY::decompress"), ("sqrt_ratio", FM)], ["CompressedEdwardsY::decompress"])
prop("C09", "The prime-order subgroup test is exact",
 "The torsion-free test answers true for a curve point exactly when multiplying it by the prime group order gives the identity, for every point in every representation. Adding any non-trivial 4-torsion point to a torsion-free point flips the answer to false.",
 ["inputs"], "all curve points, all four torsion components", "Tests try the generator, the identity and one torsion point.",
 [ED, "src/constants.rs"], [("multiplication by the unreduced order", ED + " is_torsion_free")], ["ExtendedPoint::is_torsion_free"])
prop("C10", "Curve448 scalar multiplication matches RFC 7748 for every input",
 "For every 56-byte u-coordinate (non-canonical values taken modulo the prime, points on the curve and on its twist alike) and every 448-bit integer scalar, even or odd, multiplying gives the u-coordinate of that multiple in canonical form, with the point at infinity encoded as zero, exactly as the RFC 7748 ladder without clamping. Consequently Diffie-Hellman commutes: multiplying by a then b equals multiplying by b then a.",
 ["inputs"], "all 56-byte u-coordinates times all 448-bit scalars", "One test multiplies one point by 200 (even), comparing with the library's own Edwards code; odd scalars, twist points and non-canonical inputs never occur.",
 [MO, FM], [("Montgomery ladder", MO + " impl Mul<&Scalar> for &MontgomeryPoint"), ("differential addition and doubling", MO)], ["&MontgomeryPoint * &Scalar, &Scalar * &MontgomeryPoint"])
prop("C11", "The map from Ed448 to Curve448 is the RFC 7748 4-isogeny",
 "For every Edwards point P the Montgomery image is the canonical u = y^2/x^2 of the RFC 7748 4-isogeny (zero when P is 4-torsion), the Edwards base point maps to u = 5, and the image does not change when P is negated or shifted by the 2-torsion point. The map commutes with multiplication by every scalar.",
 ["inputs"], "all curve points and all scalars", "One test checks one even scalar on the base point.",
 [ED, MO], [("u = y^2 (1-dy^2)/(1-y^2)", ED + " to_montgomery")], ["ExtendedPoint::to_montgomery, MontgomeryPoint::generator"])
prop("C12", "Low-order Montgomery points are recognised in every encoding",
 "The low-order test on a 56-byte u-coordinate answers true exactly when the u-coordinate it denotes modulo the field prime is that of a point of small order on Curve448 or its twist (0, 1 or -1), that is, exactly when multiplying by the cofactor 4 gives zero. Non-canonical encodings of those values are recognised too, and no other string is.",
 ["inputs"], "all 56-byte strings", "No test calls it.",
 [MO], [("comparison with a list of low-order points", MO + " is_low_order")], ["MontgomeryPoint::is_low_order"])
prop("C13", "Decaf points form the prime-order group",
 "On every Decaf element reachable by decoding, the generator, the identity and any history of operations, addition, subtraction, negation and scalar multiplication (all operator forms, any 448-bit scalar) give the element prescribed by the decaf448 group of prime order l. Equality is an equivalence compatible with those operations, holding exactly when the group elements are the same, so that every non-identity element has order exactly l.",
 ["inputs", "histories"], "all Decaf elements, all scalars, all sequences of group operations", "Tests add the generator 15 times and check one sum; subtraction, negation and scalar multiplication of Decaf points are never tested.",
 [DE, DO, DA, TE, TX], [("extensible-coordinate add/sub on the twisted curve", TX), ("double and add", DA), ("coset equality x1*y2 = y1*x2", DE + " equals")],
 ["DecafPoint + - neg * equals, observed through compress"])
prop("C14", "Decaf encoding is canonical: one string per group element",
 "Encoding any Decaf element gives its RFC 9496 decaf448 encoding: a fully reduced, even 448-bit little-endian integer that depends only on the group element and not on the coset representative or projective representation it is held in. Two elements compare equal exactly when their encodings are byte-identical, and decoding an encoding gives back the same element.",
 ["inputs", "histories"], "all Decaf elements in every representation reachable by a history of operations", "Tests compare the first 16 multiples of the generator.",
 [DE, FM, FC, UC], [("inverse square root, sign choices", DE + " DecafPoint::compress")], ["DecafPoint::compress, equals"])
prop("C15", "Decaf decoding accepts exactly the canonical decaf448 encodings",
 "Decoding a 56-byte string succeeds exactly when RFC 9496 decaf448 decoding does: the integer is below the field prime, even (non-negative) and the square-root condition holds. When it succeeds, re-encoding gives back the identical string; otherwise it reports failure without panicking.",
 ["inputs"], "all 56-byte strings", "Tests only decode strings that the library has just encoded; no rejection is ever exercised.",
 [DE, FM, FC, UC], [("canonicality and sign checks, inverse square root", DE + " CompressedDecaf::decompress")], ["CompressedDecaf::decompress"])
prop("C16", "Both arithmetic back ends give identical results",
 "For every program of public API calls on scalars, Edwards, Montgomery and Decaf points, building the crate with the 64-bit back end and with the 32-bit back end gives byte-identical observable results: same encodings, same accept/reject decisions, same booleans.",
 ["programs", "configurations"], "all sequences of public calls, both back-end configurations", "Each configuration runs the same few fixed vectors; they are never compared on other inputs.",
 [FF, FU, FK, FM, FC, UC], [("fiat-crypto 64-bit field", FF), ("28-bit-limb Karatsuba field", FK + ", " + FU), ("per-back-end constants", FC + ", " + UC)],
 ["all public encodings and predicates, per back end"])
prop("C17", "Coordinate field arithmetic is exact modulo 2^448 - 2^224 - 1",
 "In each back end, every field operation the curves are built on - decoding (also of values above the prime), encoding, addition, subtraction, negation, multiplication, squaring, inversion, inverse square root with its residue flag, square root of a ratio, sign, zero test, equality and conditional selection - returns the exact residue modulo 2^448 - 2^224 - 1 for every input. This holds through arbitrarily long chains of operations, with no intermediate overflow.",
 ["inputs", "histories"], "all pairs of 448-bit encodings; all chains of field operations", "Tests multiply a few numbers; carries that occur only for extreme limb values or after unreduced intermediate results are not reached.",
 [FM, FF, FU, FK], [("Karatsuba multiplication and squaring with delayed carries", FK), ("weak and strong reduction, biased subtraction", FU), ("fiat-crypto calls with tight/loose bounds", FF), ("addition chains", FM)],
 ["guarded field hook; also through Montgomery points"], None, "src/verif_hooks.rs (cfg verif_hooks): wraps the private field element")
prop("C18", "The isogenies between the Edwards and twisted curves are homomorphisms",
 "Mapping an Edwards point to the twisted curve and back multiplies it by exactly 4; the map to the twisted curve sends sums, differences, doubles and negatives to sums, differences, doubles and negatives computed with the twisted-curve formulas, in every coordinate system the library offers, and sends exactly the 4-torsion points to the identity.",
 ["inputs", "histories"], "all Edwards points; all sequences of twisted-curve operations on images of Edwards points", "Tests check the 4-fold composition on one point and a few sums of the base point.",
 [ED, TE, TX, TP], [("4-isogeny and its dual", ED + " to_twisted; " + TE + " to_untwisted"), ("extensible/Niels addition formulas", TX + ", " + TP)],
 ["ExtendedPoint::to_twisted().to_untwisted(), twisted point methods and =="])
prop("C19", "No public operation panics or overflows on any input",
 "Every implemented public operation, given any byte strings, scalars and points obtainable through the API in any order, returns normally: no panic, no arithmetic overflow, no failed internal assertion, in either back end and with the optional features on. Invalid encodings are reported by the returned option.",
 ["inputs", "histories", "configurations"], "all call sequences with arbitrary arguments (functions marked unimplemented excluded)", "The tests run only valid inputs.",
 ["src/lib.rs", SC, ED, MO, DE, DO, FU, FK], [("asserts in strong reduction", FU + " strong_reduce"), ("option-returning decoders", ED + ", " + DE)], ["whole public API under overflow checks"])
prop("C20", "Equality, selection, hashing and wiping of values are faithful",
 "Constant-time equality, == and != agree on every pair of values and are reflexive, symmetric and independent of representation; equal Montgomery points hash alike. Conditional selection, assignment and swapping return exactly the selected value, complete in all its components; defaults and identities are the neutral elements; byte views return the stored bytes; wiping a Montgomery point leaves only zero bytes.",
 ["inputs", "configurations"], "all pairs of values of each public type, both choice values", "Tests compare a few values and one field negation; selection and wiping are never tested.",
 [ED, MO, DE, SC, FF, FU, "src/ristretto/ristretto.rs"], [("component-wise conditional_select", ED + ", " + FU + ", " + FF), ("ct_eq over encodings", "ConstantTimeEq impls")],
 ["ct_eq, ==, conditional_select/assign/swap, Hash, Default, as_bytes, Zeroize"])
prop("C21", "Scalars act linearly on the prime-order groups",
 "For all scalars a, b and every prime-order Edwards point and Decaf element P: (a+b)P = aP + bP, (a-b)P = aP - bP, (a*b)P = a(bP), (1/a)(aP) = P for a not zero, (a/2)P + (a/2)P = aP, and a(P+Q) = aP + aQ. Reducing a wide integer before multiplying gives the same point as multiplying by its digits, and the order times P is the identity.",
 ["inputs", "histories"], "all scalars, all prime-order points of both groups", "Scalar arithmetic and point arithmetic are never tested together.",
 [SC, ED, VB, DO, DA], [("scalar field and group share the order constant", "src/constants.rs BASEPOINT_ORDER")], ["Scalar and point operators together"])
prop("C22", "Secret-dependent timing: scalar operations run in constant time",
 "Running time, branches and memory accesses of scalar multiplication, table lookup, conditional selection and equality do not depend on secret scalars or coordinates.",
 ["inputs"], "all pairs of secrets of equal length", "Functional tests cannot see timing.",
 [ED, WN, MO], [("constant-time selection from subtle", WN + ", " + ED)], ["instruction trace"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
