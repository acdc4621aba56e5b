"""Writes /verif/MANIFEST.json: one check per claimed property."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from claims import CLAIMED, NA
from mkprops import P
checks = []
for x in P:
    i = x['id']
    if i not in CLAIMED:
        continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                       technique='contract-based deductive verification of the MIR of the real functions (weakest-precondition style VC generator, z3)',
                       level='proof', level_note=CLAIMED[i], theorems=[]))
    if not checks[-1]['theorems']:
        del checks[-1]['theorems']
na = [dict(property=x['id'], reason=NA.get(x['id'], 'not yet under contract')) for x in P if x['id'] not in CLAIMED]
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', hooks=dict(guard='none', enable='no hooks: the checks read the unmodified crate', source_commits=[]), checks=checks, not_applicable=na,
         notes='See DESIGN.md. Every check extracts the MIR of /repo\'s current tree and discharges the obligations of its contracts.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
