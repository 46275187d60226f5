"""Writes specs/baseline.json: the functions of the tree and their parameters, as they were when the checks were written."""
import ast
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine.program import Program
p = Program(os.environ.get('VERIF_REPO', '/repo'))
out = {}
for mn, m in p.mods.items():
    for nm, node in m.funcs.items():
        a = node.args
        out[mn + '.' + nm] = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
json.dump(out, open(os.path.join(HERE, 'specs', 'baseline.json'), 'w'), indent=0, sort_keys=True)
print(len(out))
