#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('runtime oracle over recorded transform calls', 'Every observed transform agrees with direct long-double cosine sums; n, interval, data and order of calls are sampled.'),
 'C02': ('runtime oracle over recorded derivative calls', 'Exactness judged on polynomials spanning all claimed degrees; other inputs follow by observed linearity.'),
 'C03': ('runtime oracle: per-mode response of the filter', 'All modes of the sampled n are observed; arbitrary data must be predicted by the observed factors.'),
 'C04': ('runtime oracle: recovered stencil weights and polynomial exactness', 'All weights for n<=70, every one-sided stencil and sampled interior windows for larger n.'),
 'C05': ('runtime oracle: recovered stencil weights', 'All weights for n<=70; every value of every filtered data set for larger n.'),
 'C06': ('history monitor plus FFTW plan typestate monitor', 'Random histories and concurrent calls; the FFTW protocol is observed through link-time wrappers.'),
}
T.update(json.load(open(V + '/tools/manifest_more.json')) if os.path.exists(V + '/tools/manifest_more.json') else {})
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh',
     'checks': [{'property': i, 'quick_cmd': f'python3-vt /verif/checks/run.py {i}', 'thorough_cmd': f'python3-vt /verif/checks/run.py {i} --thorough',
                 'technique': T[i][0], 'level': 'exploration', 'level_note': T[i][1]} for i in ids if i in T],
     'not_applicable': [{'property': i, 'reason': 'Not claimed yet: its check is still being built.'} for i in ids if i not in T]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
