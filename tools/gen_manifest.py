#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TECH = {
    "default": "stateful model-based property testing (generated histories against a reference model, shrinking, AddressSanitizer)",
    "P14": "property-based testing of cost: generated histories with allocation and functor-call ledgers per operation",
    "P15": "property-based concurrency testing: generated per-thread histories under ThreadSanitizer, each against a model",
    "P17": "differential property testing: generated histories in lockstep over many configurations and a model",
    "P19": "stateful model-based property testing of the inverted index against std::map of std::set",
    "P21": "property testing over generated programs (drawn option sequences compiled into trees) and generated histories, differential against directly parameterised trees",
    "P12": "model-based and differential property testing (every proxy operator and algorithm against the plain element or a vector)",
    "P13": "stateful property testing with element-lifetime and heap ledgers under AddressSanitizer",
    "P16": "stateful property testing with injected failures (throwing updaters, constructors, conversions, rejected operations)",
}
NOTE = ("Random and structured exploration against an explicit oracle; says nothing beyond the histories generated. "
        "Trusts the std::vector models, the sanitizers and clang. ")
EXTRA = {
    "P14": "Bounds on allocations and calls have slack (factor 2 to 4 of what the current tree does), so only a change of order of growth or a systematic extra copy is reported.",
    "P15": "Races are found by happens-before over the schedules that occurred; acquire fences, which ThreadSanitizer does not model, are modelled by a wrapper.",
    "P21": "24 option sequences per seed (96 thorough), every option at least once in each.",
    "P17": "Lockstep over 17 fixed configurations; every other check also runs its histories over up to 18 configurations against one model.",
}
checks = []
for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "python3 run.py check %s --tier quick" % p, "thorough_cmd": "python3 run.py check %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH.get(p, TECH["default"]), "level": "exploration", "level_note": NOTE + EXTRA.get(p, "")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the checks use the public interface only. /repo carries fix: commits, listed in known-findings.txt. Replays: python3 run.py replay FILE."}
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
