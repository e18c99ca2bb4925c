#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from components import PROPERTIES
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
DEF_NOTE = ("Bounded-exhaustive: every case within the stated bounds is executed on the real code and compared "
            "with an independent reference model; nothing is claimed beyond the bounds. Trusts the compiler, the "
            "harness and the reference model.")
NA = {}
m = dict(version=1, setup_cmd="python3 check.py --build",
         checks=[dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                      thorough_cmd="python3 check.py %s --tier thorough" % i,
                      technique=PROPERTIES[i]["technique"], level="model_checking",
                      level_note=PROPERTIES[i].get("note") or DEF_NOTE)
                 for i in ids if i in PROPERTIES],
         not_applicable=[dict(property=i, reason=NA.get(i, "machinery not built yet"))
                         for i in ids if i not in PROPERTIES])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
