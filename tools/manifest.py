"""Write MANIFEST.json from the table of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
NA = {}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NOTE = ("Bounded: within the sizes, scheduling deviations and environment choices of the harnesses (DESIGN.md) every path of the compiled code is explored and "
        "every assertion decided for all remaining input values; nothing is claimed beyond the bounds. Trusts the LLVM lowering of rustc, the executor (cross-checked by native replay of sampled paths), z3, "
        "the patched decision points of tokio{}.")
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {i}',
        technique='symbolic execution of the compiled crate (LLVM IR, own executor) with an SMT solver deciding paths and assertions; counterexamples replayed natively',
        level='model_checking', level_note=NOTE.format(p.get('trusts', ''))))
m = dict(version=1, setup_cmd='python3 check.py --setup', hooks=dict(guard='none', enable='no hooks are needed: the harness crate depends on /repo/paladin-core as it is', source_commits=[]), checks=checks,
    not_applicable=[dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in PROPS],
    notes='check.py rebuilds the engine and the harness crate against /repo on every run; see DESIGN.md')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
