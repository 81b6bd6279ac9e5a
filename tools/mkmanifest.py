#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, subprocess
T = {
 "C01": ("proptest: operators vs 448-bit integer model mod l, pairs and operation chains", "both operands reduced or not; boundary-biased pairs, enumerated pairs of boundary integers, register-machine chains"),
 "C02": ("proptest: inverse and half vs integer model", "boundary-biased scalars incl. multiples of l"),
 "C03": ("proptest: round-trips and exact accept set vs integer comparison", "56/57-byte strings concentrated around l, 2^446, 2^448; every bit flipped once"),
 "C04": ("proptest: wide reduction vs integer model; deterministic RNG streams; statistical bounds", "912-bit integers; RNG streams incl. constant ones; bias bounds at 7 sigma over 32 x 8192 draws"),
 "C05": ("proptest, stateful: group law vs affine reference model", "related pairs, 4-torsion, several projective representations, histories"),
 "C06": ("proptest: scalar multiplication vs reference double-and-add", "all single digits at all positions, boundary scalars, unreduced scalars, torsion"),
 "C07": ("proptest: encoding vs RFC 8032 model, encode/equality/decode metamorphic relations", "points in several representations"),
 "C08": ("proptest: accept set and result vs RFC 8032 decoder model", "valid encodings, mutations, all non-canonical classes"),
 "C09": ("proptest: torsion test vs multiplication by l in the model", "points with each torsion component"),
 "C10": ("proptest: differential against RFC 7748 ladder model; DH commutation", "curve, twist, low-order, non-canonical u; all scalar shapes"),
 "C11": ("proptest: isogeny vs y^2/x^2 in the model; commutation with multiplication", "points incl. torsion; all scalar shapes"),
 "C12": ("proptest: low-order test vs model and vs multiplication by 4", "all encodings near 0, 1, -1 modulo p; boundary integers"),
 "C13": ("proptest, stateful: Decaf group vs quotient group model", "elements in both coset representatives, histories"),
 "C14": ("proptest: encoding vs RFC 9496 model; equality iff same bytes", "coset and projective representatives"),
 "C15": ("proptest: accept set vs RFC 9496 decoder model; re-encoding", "valid, negative, non-canonical and non-square encodings"),
 "C16": ("differential testing: the two builds run the same generated API programs", "programs of up to 27 calls; byte strings through every entry point"),
 "C17": ("proptest, stateful: field element vs integer model mod p, via cfg-guarded hook", "digit-extreme operands, enumerated boundary pairs, chains; overflow checks on"),
 "C18": ("proptest, stateful: isogeny and twisted formulas vs model of the dual isogeny", "all twisted coordinate systems reachable from the API or the hook"),
 "C19": ("proptest: generated API programs and byte strings under overflow checks", "panics, overflow, failed debug assertions and non-termination are violations"),
 "C20": ("proptest: equality, selection, swap, hash, zeroize vs stored values", "values differing in one bit or one component"),
 "C21": ("proptest: metamorphic linearity relations", "scalars of all shapes, prime-order points"),
 "C22": ("proptest: metamorphic relation between execution traces (SanitizerCoverage edges and addresses) of generated secrets and a reference secret", "47 operations; a difference counts when the optimised and the unoptimised build both show it; data-dependent instruction timing and code outside the instrumented crates are not seen"),
 "C23": ("proptest, stateful: metamorphic relation between a call in a history, in other orders, among threads, and alone in a fresh process", "histories of up to 9 calls on related arguments; thread schedules are those the machine produces"),
 "C24": ("proptest: Ed448, X448, secret sharing and Decaf protocols written with public operations vs the same protocols over the model", "damaged, torsion-shifted and malformed signatures; arbitrary peers; SHAKE256 of the harness is checked against Python's in setup"),
}
checks = []
for p, (tech, note) in T.items():
    checks.append({"property": p, "quick_cmd": f"python3 run.py check {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {p} thorough",
        "technique": tech + ("" if p == "C22" else "; plus coverage-guided mutation of generated inputs with the same oracle"), "level": "exploration",
        "level_note": f"Generated-input search, both back ends, with shrinking and replay: {note}. Trusts the reference model, which setup checks against Python integers and RFC vectors; inputs not generated are not covered."})
src = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"], capture_output=True, text=True).stdout.split()
json.dump({
 "version": 1,
 "setup_cmd": "python3 run.py setup",
 "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS='--cfg verif_hooks' (set by run.py when it builds the harness)", "source_commits": src},
 "checks": checks,
 "not_applicable": [],
 "notes": "run.py replay FILE runs a recorded input again. known_findings.txt lists the repaired defects; regress/ holds their inputs, replayed first by every check.",
}, open("/verif/MANIFEST.json", "w"), indent=1)
