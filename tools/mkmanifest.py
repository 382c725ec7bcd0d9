#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
N = {
"C01": ("reference decoder over generated schemas and documents", "generated schema sets compiled through the real macro; generated valid documents decoded and the Debug tree compared field by field with an independent reference model"),
"C02": ("reference renderer over generated schemas and documents", "as C01, the encoded document parsed with an independent XML parser and compared with the reference rendering"),
"C03": ("round-trip over generated values with adversarial text", "decode, encode, decode, encode of generated values with arbitrary XML text; values and bytes compared; one recorded finding (tab in an attribute)"),
"C04": ("single-fault mutation of valid documents against an error oracle", "each fault has the set of error kinds and names a reference decoder allows"),
"C05": ("compilation of generated schemas with adversarial names", "hundreds of schemas with reserved, non-ASCII, colliding-with-std names compiled by rustc, then exercised; one recorded finding (optional recursion)"),
"C06": ("generated schemas against a model of the Rust API", "compile-time type assertions per field and variant, and the item list compared with the model"),
"C07": ("generated namespace layouts against a reference resolver", "prefixes, default namespaces, qualification and imports varied; wrong-namespace documents must be rejected"),
"C08": ("metamorphic respelling of documents", "random respellings of valid and invalid documents must give the same value or error"),
"C09": ("permutation of all-group members against a reference decoder", "random permutations, optional members absent or present"),
"C10": ("fuzzing of decoders with mutated and random documents", "worker processes detect panics, aborts, hangs and memory exhaustion; decoded values must round-trip; one recorded finding (stack overflow on 100000 levels)"),
"C11": ("fuzzing of schema processing with mutated and random schema sets", "worker processes detect panics, aborts and hangs; output must parse as Rust items; two recorded findings"),
"C12": ("fault injection into generated schemas against located-error oracle", "one unsupported or missing thing at a known file and position; message, file, row and column judged, also through the macro"),
"C13": ("metamorphic partitioning of schemas over files", "definitions spread over generated include/import graphs; reference model and a flattened twin decide"),
"C14": ("metamorphic respelling and reordering of schemas", "two spellings of one schema compared item by item and by documents"),
"C15": ("stateful request sequences against the dependency closure of a model", "sequences of generate_element_and_dependencies calls with a shared record"),
"C16": ("stateful model-based testing of the cursor", "random documents and operation sequences against a list model"),
"C17": ("stateful model-based testing of the writer context", "random operation sequences; output parsed by an independent parser and compared with the model; two recorded findings in xml-rs"),
"C18": ("generated enumerations against a value-variant bijection", "adversarial value sets; FromStr, Display, decoding and encoding of every value and of other texts; one recorded finding"),
"C19": ("documented schemas against a model of doc comments", "doc attributes of every item and field compared with the model and with the undocumented twin"),
"C20": ("generated literals against reference lexical spaces", "literals inside and outside the lexical space of every built-in type in every position"),
"C21": ("generated annotated modules compiled and run", "module shapes, attributes, visibility, items and argument lists, with expected behaviour or expected rejection"),
"C22": ("extension chains against a reference decoder and renderer", "generated extension chains over several steps and files"),
"C23": ("nested groups against a reference decoder and renderer", "generated deterministic nestings of choices and sequences with every occurrence"),
"C24": ("metamorphic comparison of the ways to hand in a schema", "generated schema sets, supported or with one fault, read from file, from text and embedded in a generated document; items and errors compared"),
"C25": ("stateful model-based testing of schema nodes", "random documents and query histories against a model over an independent parser's tree"),
}
m = {"version": 1, "setup_cmd": "./run.sh setup",
 "checks": [{"property": k, "quick_cmd": f"./run.sh check {k}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {k}", "evidence_file": f"evidence/{k}.json", "technique": "property-based testing: "+t, "level": "exploration", "level_note": n} for k, (t, n) in N.items()],
 "not_applicable": [],
 "notes": "No hooks in /repo; the checks use public entry points (the attribute macro, xsd_internal::xsd::schema, xsd::decode, xsd::Context). Replays: ./run.sh replay FILE."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
