#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the engine's table."""
import json, re, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
claimed = set(subprocess.check_output([root + '/engine/symgo', 'list'], text=True).split())
tech = 'bounded symbolic execution of the Go SSA of the real code, paths and assertions decided by z3 (SMT)'
notes = {
 'M': 'Holds for every history, input and clock value within the bounds the evidence lists (operations, tokens, keys, preemptions); counterexamples are replayed natively before they are reported. Trusts go/ssa, the executor (sampled paths are replayed natively and compared) and the solver.',
 'S': 'Holds for all byte strings up to the stated lengths; the MAC is an uninterpreted function without collisions, so the claim is relative to the hash being a MAC.',
 'O': 'Holds for every duration value and every sequence of options up to the stated length.',
 'X': 'Holds for every sequence of session operations within the bounds against a provider that may fail at any call.',
 'B': 'Holds for every history within the bounds over an executable model of the bolt API (transactions, buckets, cursors, memory validity); the model is compared with real bolt, and counterexamples are replayed on real bolt.',
 'P': 'Holds for every history and every pair of names within the bounds, over the same models of bolt and redis as the B and R properties.',
 'E': 'Holds for every history, or every interleaving and pair of operations, within the bounds over the real manager, session object, coders, signing methods and stores (bolt and redis as in the B and R properties); counterexamples are replayed natively, races under the race detector.',
 'C': 'Holds for every operation and every point at which the context is looked at or a command is sent, within the bounds, over the real code with the models of bolt and of the redis server; counterexamples are replayed natively.',
 'R': 'Holds for every history within the bounds over the real go-redis command layer and a model of the redis server; counterexamples are replayed through go-redis against the same model behind a socket.',
}
checks, na = [], []
pend = json.load(open(root + '/tools/not_applicable.json'))
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({'property': i, 'quick_cmd': f'bash run.sh {i} quick', 'thorough_cmd': f'bash run.sh {i} thorough', 'technique': tech, 'level': 'model_checking', 'level_note': notes[i[0]]})
    else:
        na.append({'property': i, 'reason': pend.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'bash run.sh setup', 'checks': checks, 'not_applicable': na,
     'notes': 'engine/ is the symbolic executor, harness/ the harnesses and models; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
