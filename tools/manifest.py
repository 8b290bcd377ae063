#!/usr/bin/env python3
"""writes MANIFEST.json: every property with a harness is claimed, the others are listed with their reason"""
import json, glob, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={}  # property -> reason
na_f=V+'/tools/not_applicable.json'
if os.path.exists(na_f): NA=json.load(open(na_f))
notes=json.load(open(V+'/tools/level_notes.json')) if os.path.exists(V+'/tools/level_notes.json') else {}
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
checks=[]; na=[]
for i in ids:
    if (glob.glob(f'{V}/harness/{i}.cpp') or glob.glob(f'{V}/harness/{i}_*.cpp')) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', technique='bounded symbolic execution of the LLVM IR of the real headers, decided by z3; counterexamples replayed natively',
            level='model_checking', level_note=notes.get(i,'Holds for every input within the bounds printed in the evidence (all paths of the harness explored, each branch and assertion decided by z3). Trusts: clang -O1 IR as the meaning of the source, the symx executor (cross-checked per run against native ASan runs), the libstdc++ models in symx/sxrt.cpp.')))
    else: na.append(dict(property=i, reason=NA.get(i,'not built yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na, notes='All checks: see DESIGN.md. No hooks in /repo.'), open(V+'/MANIFEST.json','w'), indent=1)
