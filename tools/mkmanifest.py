#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Random search over a structured generator, so no proof of absence. Trusts the grammar model in harness/gen "
          "(it decides what counts as valid SQL and what its canonical text is), the reference tokenizer in harness/lex "
          "and the reflection walker in harness/astx; none of them shares code with the parser.")
T = {
 "C01": ("mutation and nesting fuzzing with crash, hang and work oracles", "Crashes are caught in a worker process, so a stack overflow or a fatal error is reported too; growth of work is judged by allocation counts over families of growing inputs, not by time. "),
 "C02": ("round-trip property over grammar-generated statements", "Tree equality is decided by reflection over every exported and unexported field except positions. "),
 "C03": ("differential property: beautified against compact output", ""),
 "C04": ("model-based property: expected canonical tokens against formatted tokens", ""),
 "C05": ("model-based property: reference precedence grouping, and a metamorphic parenthesisation relation", ""),
 "C06": ("metamorphic property: trivia between tokens varied", ""),
 "C07": ("metamorphic property: keyword case varied", ""),
 "C08": ("model-based property over generated scripts (sequences of statements)", ""),
 "C09": ("invariant over generated statements: spans against a reference tokenizer, shift relation", "Eight known findings about node ends and starts are listed in known_findings.json and masked exactly. "),
 "C10": ("structural damage of generated statements with a recomputed error location", ""),
 "C11": ("model-based property: reflection-enumerated tree against Walk, Find and FindAll", ""),
 "C12": ("model-based property: reflection-enumerated tree against visitors, with a visitor failing at a random node", ""),
 "C13": ("stateful histories and concurrent schedules under the race detector, compared with fresh single-threaded runs", "Schedules are those the Go scheduler produces with the race detector on; they are sampled, not enumerated. "),
 "C14": ("model-based property: generated spellings against a reference scanner", ""),
 "C15": ("differential property: command-line tool against the library", ""),
 "C16": ("model-based property: fields and order of the tree against the facts recorded by the generator", ""),
 "C17": ("metamorphic property: edits of tree nodes against the tokens of the output", ""),
 "C18": ("metamorphic property: names respelled", ""),
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
have = [i for i in props if os.path.exists(os.path.join(ROOT, "harness/checks", i.lower() + ".go"))]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
   "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + T[i][0],
   "level": "exploration", "level_note": T[i][1] + COMMON} for i in have],
 "not_applicable": [{"property": i, "reason": "its check is not built yet"} for i in props if i not in have],
 "notes": "No hooks: every check uses the public API or the command-line program of /repo as it stands.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(have), "claimed;", [i for i in props if i not in have])
