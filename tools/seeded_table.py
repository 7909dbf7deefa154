#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md."""
import json, os
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| bug | property | what it breaks | needs |\n|-|-|-|-|")
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    print(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
