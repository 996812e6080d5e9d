#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and plans.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans, ylib

NOTE = {
    None: "TLC checks the theorems of {mods} on every case within the bound, and decides for every reply of "
          "the real library (exactly these cases, sweeps of the code points that matter, and many random "
          "sessions) whether a transition of the specification explains it. Beyond the replayed cases the "
          "guarantee is a sample. Trusted: TLC, the driver's transcription of calls and replies, g++ and ASan.",
    "Safe": "TLC checks that every call on every short text of troublesome bytes has an orderly effect in the "
            "specification ({mods}), and decides for every recorded reply of the real library, built with "
            "AddressSanitizer, whether it is a result inside the text or a YstringException; crashes, hangs "
            "(8 s CPU per call), foreign exceptions and changed arguments are replies no transition explains. "
            "Trusted: TLC, the driver, g++ and ASan (which does not see every out-of-bounds access).",
    "Pure": "TLC checks on all short histories ({mods}) that replies are functions of text and call, and that every "
            "execution recorded from the real library (own process; sequential in random orders; buffers reused; "
            "interleaved; eight threads) gives the one reply its work has. Schedules of threads are a sample. "
            "Trusted: TLC, the driver, g++.",
}


def main():
    checks = []
    for line in open(os.path.join(ylib.VERIF, "properties.jsonl")):
        p = json.loads(line)["id"]
        plan = plans.PLANS[p]
        v = plan.get("validator") or {"Y33": "Pure"}.get(p)
        note = plan.get("note") or NOTE[v]
        checks.append({
            "property": p,
            "quick_cmd": "python3 tools/check.py %s" % p,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "TLA+ specification checked with TLC; its cases replayed into the library and "
                         "recorded executions validated against it by TLC",
            "level": "model_checking",
            "level_note": note.format(mods=", ".join(plan["modules"]))})
    m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks, "not_applicable": [],
         "notes": "No hooks: the checks use the public interface only."}
    json.dump(m, open(os.path.join(ylib.VERIF, "MANIFEST.json"), "w"), indent=1)


main()
