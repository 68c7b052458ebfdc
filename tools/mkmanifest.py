"""Writes MANIFEST.json from vf/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import config, verify
checks = []
for p in sorted(config.CLAIMED):
    us = verify.units(p)
    tech = config.CLAIMED[p]['technique']
    note = config.CLAIMED[p]['note']
    checks.append(dict(property=p, quick_cmd=f'./check {p} quick', thorough_cmd=f'./check {p} thorough', technique=tech, level=config.LEVEL[p], level_note=note))
json.dump(dict(version=1, setup_cmd='./check setup', checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(config.NOT_APPLICABLE.items())],
    notes='Every check extracts the functions under contract from /repo, proves them with Verus, and runs the bounded check of the rest; see DESIGN.md.'),
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
