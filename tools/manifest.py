#!/usr/bin/env python3
"""Write MANIFEST.json from the property list (run after changing the claims)."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BAG = ("TLA+ specification model checked with TLC; complete state graph replayed on the implementation",
       "TLC explores every reachable state of the bag specification within the configured depth; every state and transition is "
       "replayed on the crate through its public API, with boundary and seeded values for each class. Assumes values inside one "
       "class behave alike; trusts TLC, the Rust toolchain and the recording consumers of the harness.")
SHARE = ("TLA+ specification of holders, snapshots and lifetimes model checked with TLC; its state graph replayed on the implementation; "
         "recorded concurrent histories validated against the specification by TLC",
         "Every step of the two- and four-holder graphs and a seeded part of the three-holder graph (all of it in the thorough tier) is "
         "replayed for every capture route, with counters in the source and in the allocator; histories of three real threads are "
         "checked for an explanation in the specification. Thread schedules are those that happened.")
TEXT = ("TLA+ specification of text assembly model checked with TLC, every write pattern and length replayed on the implementation; "
        "bag specification model checked with TLC, its state graph replayed on the implementation",
        "TLC enumerates every pattern of writes up to the configured number and every length around the storage limits (Text.tla); each is "
        "replayed through every route that turns text into owned text, with one- to four-byte characters on every boundary. The bag graph adds "
        "the transforms that follow. Texts longer than the largest configured length are not reached.")
NOTE = {"P14": SHARE, "P15": SHARE, "P16": TEXT}
NOT = {
    "P24": "Undefined behaviour is not an observable outcome a state machine can specify or a replay can read off; the technique "
           "sees it only when it changes an answer (then the other checks report it) or kills the process (reported as a violation).",
}
MORE = {
    "P11": " Every bag is also handed out by a supplier of another bag, on one and two levels.",
    "P21": " Every consumer call of every output (up to 40) is made to fail once.",
    "P22": " Sources fail at each step of their own output, and after presenting themselves in full.",
    "P23": " Every build is also compared with the others on the same behaviour.",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks = []
    for i in ids:
        if i in NOT:
            continue
        tech, note = NOTE.get(i, BAG)
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py " + i,
            "thorough_cmd": "python3 tools/check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech, "level": "model_checking", "level_note": note + MORE.get(i, ""),
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/check.py --setup",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NOT.items()],
        "notes": "Specification in spec/, replay driver in harness/, runner tools/check.py, findings in known-findings.txt. "
                 "No hooks in /repo: everything is observed through the public API.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
