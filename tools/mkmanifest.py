#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a checks/cXX.py is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'explicit-state exploration of the braid group Cayley graph on the real code, vs. a faithful-action reference model',
 'C02': 'explicit-state exploration of the braid group Cayley graph (dual structure) on the real code, vs. a faithful-action reference model',
 'C03': 'explicit-state exploration of all presentations and conversions in a ball, vs. a faithful-action reference model',
 'C04': 'exhaustive enumeration of listings, extensions and the sampler\'s complete random outcome tree, vs. a reference automaton of left-weighted sequences',
 'C05': 'exhaustive enumeration of value pairs and table insert/lookup orders on the real code',
 'C06': 'exhaustive bounded enumeration of permutations, pairs, words and sequences on the real code, vs. reference definitions',
 'C07': 'exhaustive bounded enumeration of set partitions on the real code, vs. reference definitions and a faithful braid action',
 'C08': 'exhaustive bounded enumeration of diagrams and composable pairs on the real code, vs. a union-find picture model',
 'C09': 'exhaustive bounded enumeration of diagrams, cells and products on the real code, vs. a half-diagram action model',
 'C10': 'exhaustive bounded enumeration of polynomials, pairs and triples on the real code, vs. a sparse-dictionary model',
 'C11': 'exhaustive bounded enumeration of polynomials, pairs and indices on the real code, vs. a sparse-dictionary model',
 'C12': 'exhaustive bounded enumeration of shapes, entries and indices on the real code, vs. textbook definitions',
 'C13': 'exhaustive bounded enumeration of packed tensors, batch shapes and broadcasts on the real code, vs. a sparse-dictionary model',
 'C14': 'explicit-state exploration of words and braids through every representation, vs. a half-diagram transition model',
 'C15': 'explicit-state exploration of braids, batches and routes on the real code, vs. a half-diagram transition model',
 'C16': 'explicit-state exploration of tracker histories with every random outcome on the real code, vs. a reference tracker model',
 'C17': 'explicit-state exploration of tracker histories with every random outcome on the real code, vs. a reference tracker model',
 'C18': 'exhaustive enumeration of search schedules (bootstrap/step/order) on the real code, vs. a reference automaton of normal forms',
 'C19': 'complete enumeration of the random outcome tree with exact probabilities on the real code',
 'C20': 'exhaustive enumeration of a configuration grid and hash seeds on the real script, vs. a reference search',
 'C21': 'exhaustive enumeration of crash and interrupt points of the real script, vs. a prefix-of-whole-steps model',
 'C22': 'exhaustive enumeration of bounded call histories in pristine processes on the real code',
 'C23': 'exhaustive bounded enumeration of displayable objects on the real code, read back by independent readers',
}
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'notes.py')) else None
DEF = ('Every execution within the bounds stated in DESIGN.md and in the evidence file is run on the code imported from /repo and compared '
       'with an independent reference model; nothing is sampled. Trusts the reference model (self-checked), CPython and numpy; says nothing beyond the bounds.')
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': f'./run.sh {p}', 'thorough_cmd': f'./run.sh {p} thorough',
                       'evidence_file': f'evidence/{p}.json', 'technique': T[p], 'level': 'model_checking', 'level_note': NOTE.get(p, DEF)})
    else:
        na.append({'property': p, 'reason': 'check under construction'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo. ./run.sh --replay FILE re-runs a recorded counterexample; VERIF_REPO points the checks at another copy for experiments.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed')
