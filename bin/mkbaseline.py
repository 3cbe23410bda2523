#!/usr/bin/env python3
"""Records the shapes of the functions the contracts were written for (verus/baseline.json)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verus_layer as L
x = L.extract(os.path.join(L.B, "verus", "base.rs"))
assert x["rc"] == 0 and not x["problems"], (x["err"], x["problems"])
json.dump(dict(shapes=x["shapes"], uncontracted=x["uncontracted"]), open(os.path.join(L.V, "verus", "baseline.json"), "w"), indent=0, sort_keys=True)
unm = [f for f in set(x["functions"]) if not L.props(f)]
print("functions without a property:", sorted(unm))
