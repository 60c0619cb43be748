"""Writes MANIFEST.json: claims every property that has a check module."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python -B"

TECHNIQUE = {
    "C01": "property-based testing with an HTML parser and a reference interpreter as the oracle",
    "C02": "property-based testing against an independently emitted document (reference model, round trip)",
    "C03": "property-based testing: expressions and text composed by construction, outputs known in advance",
    "C04": "grammar-based generation of templates against a reference interpreter",
    "C05": "grammar-based generation of templates against a reference interpreter, and closures written out in Python",
    "C06": "property-based testing against a reference model of the attribute rules",
    "C07": "generated inheritance trees and rendering histories against a reference interpreter",
    "C08": "generated import graphs against a reference interpreter",
    "C09": "metamorphic property-based testing: parts rendered alone against their marked place in the whole",
    "C10": "metamorphic property-based testing: equivalent spellings of a template render alike",
    "C11": "stateful differential fuzzing of the C buffer (ASAN build) against the Python buffer, with leak accounting",
    "C12": "model-based stateful testing of loader histories with a controlled clock",
    "C13": "grammar mutation fuzzing and coverage-guided fuzzing; oracle: success or TemplateSyntaxError",
    "C14": "generated templates with one failing expression of known position; oracle: the traceback",
    "C15": "stateful testing of rendering histories, interleavings, threads and processes against isolated renderings",
    "C16": "generated templates and catalogues against a reference interpreter",
    "C17": "generated templates of marked messages; extraction against the lookups seen in rendering",
    "C18": "differential testing of generated Chameleon templates against Tonnikala templates",
    "C19": "differential testing of generated templates: JavaScript in Node against Python",
    "C20": "generated configurations of Pyramid applications against a model of the settings",
    "C21": "fault injection into generated templates; oracle: the line of the inserted error",
    "C22": "grammar-based generation of Python expressions and code, differential against eval and exec",
    "C23": "generated templates compiled to JavaScript, differential between minified, command line and plain code in Node",
}

if __name__ == "__main__":
    sys.path.insert(0, HERE)
    checks = []
    missing = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        prop = json.loads(line)
        id = prop["id"]
        if not os.path.exists(os.path.join(HERE, "checks", id.lower() + ".py")):
            missing.append({"property": id, "reason": "the check is being built"})
            continue
        checks.append(
            {
                "property": id,
                "quick_cmd": "%s run.py %s" % (PY, id),
                "thorough_cmd": "%s run.py %s --tier thorough" % (PY, id),
                "evidence_file": "evidence/%s.json" % id,
                "technique": TECHNIQUE[id],
                "level": "exploration",
                "level_note": "Random generation from a seed with shrinking: no violation in the generated cases that the evidence "
                "counts; no claim about cases outside of the generators (DESIGN.md lists their bounds). Trusts CPython, "
                "Hypothesis and the oracle in /verif.",
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "%s setup_check.py" % PY,
        "checks": checks,
        "not_applicable": missing,
        "notes": "No hooks: the checks use the public API of the tree in /repo. TK_SCALE multiplies the number of cases, "
        "TK_REPO selects another tree, --replay FILE decides one saved case.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(missing), "missing")
