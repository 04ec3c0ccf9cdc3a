#!/usr/bin/env python3
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, V)
from props import PROPS, NA
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
T = 'symbolic execution of the LLVM bitcode of the real code, every assertion decided by z3/cvc5, counterexamples replayed natively'
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none: no hooks are needed', 'enable': 'nothing to enable; the harness crate uses the public API of /repo/crates/tinywasm', 'source_commits': []},
     'checks': [{'property': i, 'quick_cmd': f'./check.py {i} quick', 'thorough_cmd': f'./check.py {i} thorough', 'technique': T, 'level': 'model_checking',
                 'level_note': 'Bounded: holds for all symbolic values within: ' + PROPS[i]['bounds'] + '. Trusts rustc/LLVM, the executor in engine/ and the solvers; witnesses and counterexamples are replayed natively.'} for i in ids if i in PROPS],
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'no check built yet')} for i in ids if i not in PROPS]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
