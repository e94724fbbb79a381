#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json

T = {
    "C01": ("differential testing against an independent reference model, generated orbits", "reference model written from the published theory; agreement up to a rounding bound measured per case"),
    "C02": ("differential testing against an independent reference model, generated orbits", "reference model written from the published theory; agreement up to a rounding bound measured per case"),
    "C03": ("differential testing against an independent reference model, generated orbits", "reference model written from the published theory; agreement up to a rounding bound measured per case"),
    "C04": ("differential testing of constructors against the reference model and each other", "trusts the reference model and the integer calendar"),
    "C05": ("stateful property-based testing: generated histories on one state against fresh states", "histories up to 14 steps, some up to 500; the fresh-state propagation is judged by C03"),
    "C06": ("property-based testing against the published conversion", "rounding bound measured per case"),
    "C07": ("property-based testing of error outcomes against the reference model, times bisected to thresholds", "cases within rounding of a threshold are not judged"),
    "C08": ("robustness fuzzing of elements, times and texts with a totality invariant", "a call above 40 s of CPU time is taken not to terminate"),
    "C09": ("round trip through an independent TLE encoder", "trusts the encoder and the integer calendar"),
    "C10": ("fault injection into well-formed TLEs and byte-level mutation, independent validator as oracle", "single faults are judged exactly, multiple faults by the validator"),
    "C11": ("property-based testing of texts against group-by-group parsing", "single-group parsing is judged by C09 and C10"),
    "C12": ("round trip and fault injection of generated OMM JSON", "serde_json may be one ulp off in number parsing"),
    "C13": ("serialization round trips of generated values", "serialization through serde_json"),
    "C14": ("property-based testing against an exact integer calendar", "bounds are the rounding of each expression"),
    "C15": ("round trip and exact integer arithmetic on generated datetimes and minutes", "chrono's datetime type is trusted"),
    "C16": ("property-based testing against the published formulas, range invariant", "formulas evaluated independently with more precision"),
    "C17": ("differential testing between separate builds per feature configuration", "results within rounding of a threshold are not compared"),
    "C18": ("metamorphic testing", "relations hold up to a rounding bound measured per case"),
    "C20": ("property-based testing of error values raised by generated faults or made by hand", "messages are searched for words and numbers, not compared word for word"),
    "C21": ("metamorphic testing: one satellite in two formats", "rounding bound measured per case"),
    "C22": ("property-based testing of physical invariants and finite differences", "bounds are about three times the largest deviation seen on a million orbits"),
    "C19": ("generated call scripts re-ordered and run on several threads, bit equality", "schedules are the operating system's"),
}
json.dump({
    "version": 1,
    "setup_cmd": "./build.sh all",
    "checks": [
        {
            "property": k,
            "quick_cmd": f"./run.sh {k}",
            "thorough_cmd": f"./run.sh {k}",
            "evidence_file": f"evidence/{k}.json",
            "technique": t,
            "level": "exploration",
            "level_note": "Holds on every generated case of the run; " + n + ".",
        }
        for k, (t, n) in sorted(T.items())
    ],
    "not_applicable": [],
    "notes": "The tier is chosen by VERIF_TIER. vh replay <file> re-runs a replay file. KNOWN_FINDINGS lists defects found and fixed.",
}, open("/verif/MANIFEST.json", "w"), indent=1)
