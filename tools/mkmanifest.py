#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table of claimed checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based testing: generated schema/document pairs against a reference matcher (declarative semantics)",
 "C02": "property-based testing: generated name classes and namespace contexts against a reference matcher",
 "C03": "property-based differential testing of the two schema syntaxes, incl. injected faults",
 "C04": "property-based metamorphic testing: grammar restructurings against the reference matcher of the original",
 "C05": "property-based metamorphic testing: generated file splits against the reference matcher of the single file",
 "C06": "property-based fault injection into generated schemas with the expected error kind as oracle",
 "C07": "property-based metamorphic testing: equivalent document spellings",
 "C08": "property-based fault enumeration: well-formedness faults injected into generated documents",
 "C09": "structured fuzzing of schema texts with crash, work-budget and span oracles",
 "C10": "structured fuzzing of document texts with crash, work-budget and span oracles",
 "C11": "property-based testing of numeric datatypes against a reference implementation",
 "C12": "property-based testing of string datatypes against a reference implementation",
 "C13": "property-based testing of the other XSD datatypes against a reference implementation",
 "C14": "property-based testing of literals, exceptions and lists against a reference implementation",
 "C15": "property-based testing of facet declarations: permutations and injected contradictions",
 "C16": "property-based testing of the first error position against a viable-prefix oracle",
 "C17": "property-based testing of help messages against a viable-prefix oracle",
 "C18": "property-based testing of the command-line program: generated argument lists against expected exit codes",
 "C19": "stateful property-based testing: interleaved validation histories against isolated runs",
 "C20": "property-based metamorphic testing: repeated and deepened documents with counted work",
 "C21": "property-based metamorphic testing: equivalent compact spellings",
 "C22": "property-based metamorphic testing: equivalent XML spellings of schemas",
 "C23": "property-based round-trip testing: generated syntax trees printed and parsed again, and rejected near-misses",
 "C24": "property-based grammar testing: generated and edited XML trees against an independent reader of the full syntax",
 "C25": "property-based grammar testing: generated and edited token sequences in varied spacing against an independent reader of the compact syntax",
 "C26": "property-based differential testing: an interpreter of the compiled model against the reference matcher on generated schemas and near-miss documents, and stated limits of generated datatypes against their parameters",
}
NOTE = "Random search over generated inputs with an explicit oracle, fixed seed and case count per tier; shows presence of violations, not absence beyond the explored cases."
src = open(os.path.join(ROOT, "harness/src/props/mod.rs")).read()
claimed = [i for i in sorted(T) if i.lower() + "::PROP" in src]
checks = [{
    "property": i,
    "quick_cmd": f"./check.sh {i} quick",
    "thorough_cmd": f"./check.sh {i} thorough",
    "evidence_file": f"evidence/{i}.json",
    "technique": T[i],
    "level": "exploration",
    "level_note": NOTE,
} for i in claimed]
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use only public interfaces", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in sorted(T) if i not in claimed],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed")
