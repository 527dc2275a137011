#!/usr/bin/env python3
"""Print the table of planted changes for DESIGN.md (from seeded/*/meta.json)."""
import json
import os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| change | breaks | manifests only with | caught by |\n|---|---|---|---|")
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, "meta.json")))
    print(f"| {n} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
