#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of checks in harness/src/main.rs."""
import json, os, re

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
main = open(os.path.join(root, "harness/src/main.rs")).read()
built = re.findall(r'\("(P\d\d)",', main)
T = {
    "P01": ("hostile-workload monitoring (panic, overflow, hang and error-location oracles)", "Runs of the real parsers on mutated documents, prefixes, token soup, arbitrary text and deep or long repetitions; panics, aborts, hangs and inconsistent error locations are violations."),
    "P02": ("online round-trip monitor over generated documents with arbitrary trivia", "Every printed document is compared byte by byte with its source (or, where spellings are normalised, reparsed and compared)."),
    "P03": ("online monitor: print and reparse against an independent tree model", "Programmatic and edited trees are printed and reparsed; the reparsed tree is compared with the model."),
    "P04": ("differential monitor against an independent document model", "Model documents are rendered with random layout, parsed by the real parser and compared node by node."),
    "P05": ("differential monitor against an independent reference parser", "Accept/reject verdicts and trees of the real parser are compared with those of a separately written recursive descent parser."),
    "P06": ("span monitor against positions recorded while rendering", "Spans of all nodes are compared with the positions recorded by the renderer."),
    "P07": ("online monitor of edit histories against expected text", "After each edit the printed text is compared with the text predicted from the source and the spans."),
    "P08": ("model-based trace monitor of operation histories", "Random operation sequences run on the real collections and on list models in lockstep."),
    "P09": ("model-based trace monitor of operation histories", "Random operation sequences run on the real collections and on list/ordered-map models in lockstep."),
    "P10": ("event-log monitor of visitor callbacks", "The recorded callback log is compared with the log predicted from the model."),
    "P11": ("online monitor: format, reparse and layout oracle", "Formatted text is reparsed and compared with the value; layout rules are checked by an independent line scanner."),
    "P12": ("differential monitor of conversions against the model", "Both conversion directions are compared with the model tree."),
    "P13": ("online round-trip monitor over generated serde data", "Serialized text is deserialized and compared with the data; routes are compared with each other."),
    "P14": ("differential monitor against an independent JSON mapping", "Deserialized values are compared with a reference implementation of the mapping computed from the model."),
    "P15": ("online round-trip monitor over generated serde data", "Conversions are compared with the data and an independent model."),
    "P16": ("differential monitor against a reference interpreter", "Evaluation results are compared with an independent interpreter of the model."),
    "P17": ("differential monitor against a reference interpreter with injected faults", "In-place evaluation with undefined variables is compared with a reference implementation."),
    "P18": ("differential monitor against a reference template renderer", "Rendered templates are compared with an independent renderer."),
    "P19": ("call-log monitor with instrumented functions", "Functions record the arguments they are called with; the log is compared with an independent type checker."),
    "P20": ("differential monitor against exact arithmetic", "Number operations are compared with 128-bit and exact rational arithmetic."),
    "P21": ("differential monitor against reference string functions", "Escapes and identifiers are compared with independently written reference functions."),
    "P22": ("differential monitor of two builds", "The same workload runs in both feature configurations; the recorded result logs are compared line by line."),
    "P23": ("black-box process monitor with fault injection and schedule stress", "The binary runs on generated file trees; stdout, stderr and exit status are compared with the prediction."),
    "P24": ("online monitor of equality, cloning and decoration", "Pairs of renderings and decorated variants are compared against the model's equality."),
    "P25": ("concurrent stress and history monitor, thread sanitizer in the thorough tier", "Results in stressed histories and under concurrency are compared with those of a fresh thread."),
    "P26": ("differential monitor against a reference interpreter over evaluation histories", "Results of histories of declarations and evaluations are compared with an independent interpreter."),
    "P27": ("differential monitor of compiled macro invocations with an evaluation log", "Generated invocations are compiled and run; results are compared with directly constructed values and the parser, evaluations of embedded expressions are logged and counted."),
    "P28": ("differential monitor of construction routes against the model", "Trees of the model are built by randomly chosen public routes and compared (tree, equality, text) with the canonical construction."),
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        t, note = T[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"./check.sh {i} --tier thorough",
            "technique": "runtime monitoring: " + t,
            "level": "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none (no hooks were needed; the monitors use public interfaces only)", "enable": "nothing to enable", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check builds /verif/harness against the crates in /repo (path dependencies) and runs one monitor. Sanitizers: the dev profile has debug assertions and overflow checks; see DESIGN.md.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
