#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "C01": "bounded exhaustive enumeration of texts and input lists, real tokenizer against an independent reference model",
 "C02": "bounded exhaustive enumeration of texts (every scalar value in contexts included), real tokenizer against an independent reference model",
 "C03": "bounded exhaustive enumeration of input lists x measures, real positions against the model's tiling",
 "C04": "bounded exhaustive enumeration of input lists with supplied attributes, full read-out against the model line",
 "C05": "explicit-state exploration of all assignment histories up to a depth, whole line compared with the model after every run",
 "C06": "explicit-state exploration of all annotated lines up to a bound, query / forwards / backwards read-outs compared with each other and the model",
 "C07": "exhaustive matcher expressions x tokens x annotated lines, real matching against a denotational model",
 "C08": "exhaustive matcher expressions x tokens x annotated lines, backwards matching against forwards matching on the reversed line",
 "C09": "exhaustive selections x matchers x annotated lines, real find against the model",
 "C10": "exhaustive selections x matchers x annotated lines, real extension against the model",
 "C11": "exhaustive selections x matchers x annotated lines, real splitting against the model",
 "C12": "exhaustive selections x matchers x annotated lines, real trimming against the model",
 "C13": "exhaustive pairs of selections of one and of two lines against the model",
 "C14": "explicit-state search of the closure of all selection-operation chains (until no new selection appears)",
 "C15": "exhaustive matcher expressions x annotated lines, line search against whole-line selection search and model",
 "C16": "exhaustive key tables x constructors x all hash-map iteration orders x texts against the model",
 "C17": "bounded exhaustive enumeration of texts x configurations against a reference automaton",
 "C18": "bounded exhaustive enumeration of texts and number lengths against exact decimal arithmetic, plus all documented readings",
 "C19": "exhaustive keyword-list configurations and texts against the model",
 "C20": "bounded exhaustive enumeration of token sequences, texts and keyword spans against the clause model",
 "C21": "exhaustive enumeration of the whole dictionary (four casings) and of token sequences against an independent dictionary read",
 "C22": "exhaustive token texts, annotations and include sequences; rendered text compared with a model renderer and re-parsed",
 "C23": "systematic exploration of all interleavings of line pipelines at step granularity x thread assignments, against solo runs in fresh processes",
 "C24": "exhaustive resolver orders and layered texts against model and solo runs",
 "C26": "exhaustive lines x parts x partitions, each token-wise resolver on the parts against its run over the whole line",
 "C27": "explicit-state exploration of all operation histories up to a depth with counted values, live count and contents compared with the model after every step",
 "C25": "exhaustive sequences of extraction attempts and attachments against the model",
}
NOTE = ("Every case in the stated bounds is executed on the real code built from /repo's working tree and compared with the reference model "
        "(mc/base/src/model.rs and the check modules), so model and implementation are compared on every explored state. Nothing is sampled. Beyond the bounds (lengths, "
        "alphabets, depths: listed in the evidence file and DESIGN.md) the claim rests on the small-scope assumption. Trusted: rustc, std, "
        "unicode-segmentation, unicode-width, rust_decimal, fst.")
EXTRA = {
 "C23": " Interleavings are at the granularity of library calls: the library has no shared mutable state or synchronisation inside a call, which is itself checked by comparing with runs in fresh processes.",
 "C18": " One documented reading fails and is listed in known_findings.txt.",
}
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build",
 "checks": [
  {"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": "model_checking", "level_note": NOTE + EXTRA.get(p, "")}
  for p in sorted(TECH)],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything is observed through the public API. Changes to /repo are the eleven fix: commits listed in known_findings.txt. Exit 2 of a check means no verdict (the tree does not build).",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
