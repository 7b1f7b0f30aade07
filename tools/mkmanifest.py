import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "property-based testing of generated patterns and inputs (plus bounded-exhaustive small patterns) against two independent reference matchers, with product-automaton cover words",
 "C02": "property-based testing of token sets with overlapping ranges over every symbol type (plus exhaustive boundary windows) against two reference matchers",
 "C03": "property-based testing of token sets against a reference (longest match, lowest output), with permuted and repeated pattern orders; exhaustive tiny sets",
 "C04": "stateful model-based testing of tokenizer histories (token, skip, iterate) against a position/maximal-munch model; exhaustive short histories",
 "C05": "property-based testing of whole scans against a reference maximal-munch scanner over several kinds of source",
 "C06": "stateful model-based testing of tape histories (read, rewind, cut, grow) against a list model; exhaustive short histories",
 "C07": "stateful model-based testing of split-reader histories (read, split again, drop) against a list model; exhaustive short histories",
 "C08": "property-based testing of the overlap-free cover of range sets against a boundary-point oracle; exhaustive windows",
 "C09": "property-based testing of overlap queries against a linear-scan oracle; exhaustive windows",
 "C10": "stateful model-based testing of automaton edit histories against a model graph, observed after every edit; exhaustive short histories",
 "C11": "property-based testing of compiled machines against a subset-simulation reference; exhaustive tiny machines",
 "C12": "property-based testing of the calls the compiler makes on a recording builder: contract invariants, automaton equivalence with the reference",
 "C13": "property-based testing of overlap removal: invariant on ranges, language equivalence, idempotence; exhaustive tiny machines",
 "C14": "property-based testing of combinator expressions in every operand form against their denotation; exhaustive small expressions",
 "C15": "round-trip property-based testing of matchers and ranges through two serialisation formats",
 "C16": "stateful model-based testing of tag operations against a tree model, including refused operations; exhaustive short histories",
 "C17": "property-based testing of retagging by scanned tokens against a reference scan of the tree model",
 "C18": "exhaustive enumeration of narrow and 32-bit symbol types and boundary-biased generation for the rest, against a rank model",
 "C19": "property-based testing of range predicates against pointwise definitions; exhaustive small windows",
 "C20": "property-based testing of readers and adaptor chains against the plain sequence, with fragmented and interrupted reads",
 "C21": "differential property-based testing of every preparation and matching route, in shuffled and repeated order",
 "C22": "property-based testing of hand-built tables against a table interpreter; exhaustive tiny tables",
 "C23": "stateful model-based testing of step, copy, finish scripts against a reference automaton",
 "C24": "metamorphic property-based testing: listing interpreter against execution, and recompiled listings against the original",
 "C25": "property-based testing with counting, endless and blocking sources against the look-ahead bound of a reference automaton",
 "C26": "property-based testing of generated stacks of tokenizers and adaptors against the composition of reference scans",
 "C27": "property-based testing of the match loop with scripted and simulated matchers of our own, comparing whole event histories with a model; exhaustive short scripts",
 "C28": "property-based testing of long generated workloads over symbols that count themselves, against the need computed by reference models",
}
NOTE = {
 "C18": "All values of u8, i8, u16, i16, u32, i32 and char are enumerated; 64-bit types are sampled near their boundaries and at random.",
}
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
        "technique": T[i],
        "level": "exploration",
        "level_note": NOTE.get(i, "Holds on every generated case and on the whole of each bounded-exhaustive space that was completed; larger inputs are sampled.") + " Trusts the reference model in /verif/harness.",
    })
m = { "version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": [],
      "notes": "No hooks are needed: every property is observed through the crate's public interface. Saved regression cases are in corpus/, repaired defects in known_findings.txt." }
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
import sys
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(checks))
except ImportError: print("written", len(checks))
