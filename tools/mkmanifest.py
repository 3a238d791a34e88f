#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules that exist."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "property-based round trips over generated schemas and values",
    "C02": "property-based testing against a strict JSON parser and the model of the value",
    "C03": "property-based testing: generated RFC 8259 renderings against the model of the value",
    "C04": "mutation-based generated documents against an independent reference reader",
    "C05": "coverage-guided fuzzing (libFuzzer) and structured fuzzing under ASan/UBSan",
    "C06": "metamorphic property-based testing across all overloads",
    "C07": "model-based stateful testing against a reference record",
    "C08": "generated schemas compiled with g++ and clang++ and linked",
    "C09": "generated schemas, compile-time type comparison with the README table",
    "C10": "metamorphic testing of schema layouts and spellings",
    "C11": "mutation-based schemas against an independent recogniser",
    "C12": "coverage-guided fuzzing (libFuzzer) and structured fuzzing of the compiler under ASan/UBSan",
    "C13": "differential property-based testing across schema variants",
    "C14": "generated command lines with injected I/O faults",
    "C15": "property-based testing of array helpers against element-wise JSON and the reference reader",
    "C16": "metamorphic property-based testing across locales",
    "C17": "generated concurrent operation mixes under ThreadSanitizer against sequential results",
    "C18": "property-based testing with planted unrepresentable values and refused writes",
    "C19": "model-based and metamorphic property-based testing of the library, in sequences and in threads (ThreadSanitizer)",
    "C20": "fault injection over generated operations: every allocation or stream call fails in turn",
    "C21": "generated growth families: CPU time and memory of n against n/16 repetitions",
    "C22": "generated headers and template files, compiled and compared with the text, with injected I/O faults",
    "C24": "differential property-based testing across builds (compilers, standards, options)",
    "C23": "generated schemas compiled by several versions; differential testing of programs with and without the others",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "vp", "props", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                       "technique": T[p], "level": "exploration",
                       "level_note": "generated-input search with an explicit oracle; the evidence file gives the number of cases; trusts the "
                                     "generators, the reference model in /verif/vp and the installed compilers; says nothing about inputs not generated"})
    else:
        na.append({"property": p, "reason": "the check is not written yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks use the command line, the generated classes and the documented helpers only."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
