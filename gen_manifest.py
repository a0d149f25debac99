"""Writes MANIFEST.json (run by hand after a change of what is claimed)."""
import json
T = {
"C01": "deductive verification (Verus contracts): overflow, bounds, unreachable and termination obligations",
"C02": "deductive verification (Verus contracts): length, cursor and element framing against dec_len/dec_tlv",
"C03": "deductive verification (Verus contracts): identifier and type table against kind_of",
"C04": "deductive verification (Verus contracts): ghost trace of handler calls equals walk(input)",
"C05": "deductive verification (Verus contracts): primitive content decoders",
"C06": "deductive verification (Verus contracts): i32 conversion against two's complement",
"C07": "deductive verification (Verus contracts): time parsing and calendar against a year-by-year calendar",
"C08": "deductive verification (Verus contracts): object identifier decoding against oid_arcs",
"C09": "deductive verification (Verus contracts): bit string decoding, size, octets and iterator",
"C10": "deductive verification (Verus contracts): certificate decoders against cert",
"C11": "deductive verification (Verus contracts): validity test on instants",
"C12": "deductive verification (Verus contracts): name decoders against name",
"C13": "deductive verification (Verus contracts): extension list and extension decoders against exts",
"C14": "deductive verification (Verus contracts): key usage bits",
"C15": "deductive verification (Verus contracts): basic constraints",
"C16": "deductive verification (Verus contracts): extended key usage purposes",
"C17": "deductive verification (Verus contracts): subject alternative names",
"C18": "deductive verification (Verus contracts): ghost depth of the printer, absence of panics",
"C19": "deductive verification (Verus lemmas over the contracted functions): canonical decoding",
"C20": "deductive verification (Verus contracts): ghost text of the formatter",
"C21": "deductive verification (Verus contracts read over located octets: a slice is the octets of the input themselves, which can be neither made nor copied)",
"C22": "deductive verification (Verus contract on decoder's main over a ghost state of the process)",
}
NOTE = "Verus discharges every obligation generated from the current sources, for all inputs; trusted: Verus/Z3, the mechanical lowering in extract/, the assumed library contracts in contracts/vpre.rs (listed in the evidence). A differential search of the real crate against the same specification supplies failing inputs; it alone covers functions that a changed source takes out of the verifier's reach, reported as bounded_only."
m = {"version": 1, "setup_cmd": "cd extract && RUSTFLAGS=-Awarnings cargo build --offline --release -q && cd ../search && RUSTFLAGS=-Awarnings cargo build --offline --release -q",
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "proof", "level_note": NOTE} for p in sorted(T)],
 "not_applicable": []}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
