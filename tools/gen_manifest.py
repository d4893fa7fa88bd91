#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
DEFAULT_NOTE = ("Exploration: the property held on every generated case; nothing is proved beyond them. Trusts clang 18, "
                "its address and undefined-behaviour sanitizers, and the models in the harness.")
PBT = "property-based testing with shrinking under ASan and UBSan: "
TECH = {
 "C01": PBT + "differential (independent codec) and round-trip over generated and enumerated bytes and texts; libFuzzer in the thorough tier",
 "C02": PBT + "round-trip of generated documents, and their text against an independent tree",
 "C03": PBT + "generated and mutated documents against an independent schema model; libFuzzer in the thorough tier",
 "C04": PBT + "metamorphic pairs (copy, one part changed) and stateful histories of a hash map against an ordered model",
 "C05": PBT + "algebraic laws of deltas against a member-wise model over generated values and sequences",
 "C06": PBT + "stateful histories and simulated networks against a log model",
 "C07": PBT + "stateful message histories against a dictionary model",
 "C08": PBT + "stateful message histories through a context against a routing and store model",
 "C09": PBT + "generated messages against the parts they were made from",
 "C10": PBT + "stateful histories of variants against a model, with object counting",
 "C11": PBT + "generated stores and paths, differential against direct member access by address",
 "C12": PBT + "generated pipeline programs and completion schedules against a reference interpreter",
 "C13": PBT + "generated looping pipelines and completion schedules against a reference interpreter that tracks ownership",
 "C14": PBT + "generated messages and partial reads against an independent frame decoder",
 "C15": PBT + "generated frame streams, faults and segmentations against an independent frame encoder; libFuzzer in the thorough tier",
 "C16": PBT + "generated schedules of two endpoints with an independent decoder on the wire; invariants over the history",
 "C17": PBT + "generated, broken and segmented handshakes against an independent parser, SHA-1 and Base64; libFuzzer in the thorough tier",
 "C18": PBT + "generated and enumerated headers against an independent parser; libFuzzer in the thorough tier",
 "C19": PBT + "differential against an independent SHA-1 over generated messages and splits",
 "C20": PBT + "generated histories executed by SQLite against a relational model",
 "C21": PBT + "generated spec programs on generated stores, differential against direct access",
 "C22": PBT + "generated route maps, round trips and texts against an independent parser; libFuzzer in the thorough tier",
 "C23": PBT + "generated argument lists against run-time models that compare values and addresses",
 "C24": PBT + "generated and enumerated moves against the rule of the game",
 "C25": PBT + "generated metaprograms, differential against plain data in Python",
 "C27": PBT + "generated page specs rendered into a document tree, against a model tree, over generated store changes and events",
 "C28": PBT + "generated values, round trips through JavaScript and differential against the JSON binding",
  "C29": PBT + "stateful generation of navigation in a page run by node, against a list of places and a reference route parser",
  "C30": PBT + "stateful generation of values, calls and promises in a page run by node, against a model of which value each holds",
  "C31": PBT + "stateful generation of socket events in a page run by node, against a model of what is told and sent",
 "C32": PBT + "generated entity definitions and values, every binding compared with the members as the struct itself names them",
 "C33": PBT + "stateful generation of actions on nested stores, against a model of every store, the answer and the caller's copies",
 "C26": PBT + "generated definitions compiled to contexts, against a model of the definition, with generated message histories",
}
checks, na = [], []
for p in props:
    c = p["id"]
    if c in CHECKS:
        s = CHECKS[c]
        checks.append({"property": c, "quick_cmd": f"python3 run.py {c} --tier quick",
                       "thorough_cmd": f"python3 run.py {c} --tier thorough",
                       "technique": TECH[c],
                       "level": "exploration", "level_note": s.get("note", DEFAULT_NOTE)})
    else:
        na.append({"property": c, "reason": "no check has been built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import checks\" && clang++-18 --version",
           "hooks": {"guard": "NBDL_VERIF_HANDLE", "enable": "The harnesses that need it define it before they include nbdl (shim/emscripten.h); it is off everywhere else.",
                     "source_commits": ["4dc2fc1"]},
           "checks": checks, "not_applicable": na,
           "notes": "Every check compiles its harness from /repo's working tree; see DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
