#!/usr/bin/env python3
# writes MANIFEST.json
import json
T = {
"C01": "round-trip of generated items in every representation against an independent CBOR encoder; exhaustive short inputs; coverage-guided tapes",
"C02": "differential against an independent RFC 8949 scanner on exhaustive short inputs, generated items and structural near misses",
"C03": "differential against an independent RFC 8949 parser on exhaustive short inputs, generated items and near misses",
"C04": "coverage-guided fuzzing of every entry point with overflow checks, small stack and process isolation; adversarial length and nesting generators",
"C05": "generated adversarial claims and nesting under a counting allocator, with a bound linear in the input",
"C06": "generated readers and histories of typed reads against a model of the reader",
"C07": "every prefix of generated items, and refill loops driven by the reported counts",
"C08": "exhaustive small values and boundary-biased values against the shortest-header rule",
"C09": "exhaustive small widths and boundary-biased values against mathematical integers",
"C10": "exhaustive half precision, boundary-biased single and double against an integer-arithmetic IEEE 754 model",
"C11": "exhaustive constants and simple values, each against every typed read, in generated contexts",
"C12": "generated chunkings (with split and broken UTF-8) against concatenation and an independent UTF-8 checker",
"C13": "generated containers walked by every access path against the byte extents given by an independent scanner",
"C14": "generated values converted both ways, compared, and kept after the input is gone; pairs of near-equal values",
"C15": "model-based: generated programs of writer calls against an independent encoder",
"C16": "round-trip and re-representation of generated native values against the canonical encoding",
"C17": "generated inputs with trailing data for every type and entry point; histories of reader operations against a position model",
"C18": "generated items captured in every way, compared with direct decoding and with the input bytes",
"C19": "generated tagged extensions and near misses against the stated shapes",
"C20": "structure definitions generated from the seed and compiled with the derive; generated values against an independent statement of the layout",
"C21": "enum definitions generated from the seed and compiled with the derive; generated values against an independent statement of the layout",
"C22": "generated definitions; re-represented values, schema-aware near misses and damaged bytes against an independent acceptance specification",
"C23": "generated and bounded-exhaustive event histories against a stack model",
"C24": "generated definitions and vectors with failures placed at any depth, against the path computed by an independent specification",
"C25": "differential of the reported error against an independent first-defect scanner on exhaustive short inputs, near misses, damaged and truncated bytes",
"C26": "counted comparisons, allocation and processor time of every entry point on generated and enumerated large inputs, against a bound linear in the input",
"C27": "differential of the reported mismatch against the one computed on the reference item, for generated items and near misses, 22 types and 21 ways of asking",
"C28": "generated and bounded-exhaustive event histories, each event that cannot come next tried at the end: the error compared with the reasons its documentation gives, by the state machine, the validator and the reader",
"C29": "generated type definitions, supported ones and ones with one of 25 kinds of defects, given to the compiler with the current derive: accepted or refused as the definition's construction says",
"C30": "generated definitions and near misses of their values: the stated reason compared with the one an independent specification of the layout finds",
}
N = "Searched, not proved: holds on every generated and enumerated case of the run (counts, rule and distribution in the evidence). Trusts the reference model in /verif/harness, rustc, and the listed assumptions in the evidence."
checks = [{
    "property": p,
    "quick_cmd": f"./check.sh {p} quick",
    "thorough_cmd": f"./check.sh {p} thorough",
    "technique": t,
    "level": "exploration",
    "level_note": N + (" Definitions are those of the README, a fixed set and a set drawn from VERIF_SEED." if p in ("C20","C21","C22","C24","C30") else ""),
} for p, t in T.items()]
json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": []}, open("MANIFEST.json", "w"), indent=1)
