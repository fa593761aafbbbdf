"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json (run by hand)."""
import json
import os
import sys

root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
for name in sorted(os.listdir(root)):
    meta = json.load(open(os.path.join(root, name, 'meta.json')))
    print(f"| {name} | {meta['property']} | {meta['needs']} |")
sys.stdout.flush()
