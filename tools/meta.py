#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (run from /verif)."""
import json, os
P = []
CHECKS = {}
NA = {}

def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), note=None, na=None, tech=None):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
    if na:
        NA[id] = na
    else:
        CHECKS[id] = (note, tech)

exec(open(os.path.join(os.path.dirname(__file__), 'props.py')).read())

with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

SIM = ("Exploration: a violation found is real (it is reproduced, shrunk and saved as a replay file); none found means none in the cases "
       "counted in the evidence. Trusted: the simulation runtime (virtual clock, futex, epoll_wait, scheduler at atomic operations; "
       "sequentially consistent), the reference model in the harness, Linux/epoll only. ")
checks = []
for id, (note, tech) in CHECKS.items():
    checks.append(dict(property=id, quick_cmd=f'./run.sh {id}', thorough_cmd=f'./run.sh {id} --thorough',
                       evidence_file=f'evidence/{id}.json',
                       technique=tech or 'property-based testing: generated histories and schedules (deterministic simulation) against a reference model, with shrinking',
                       level='exploration', level_note=SIM + (note or '')))
m = dict(version=1, setup_cmd='./run.sh --build', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='No hooks in /repo are needed: the harness builds the crate with its own flags. The thorough commands explore longer cases until 13 minutes are over. '
               'known-findings.txt lists findings and repairs; DESIGN.md describes everything.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open('MANIFEST.json', 'a').write('\n')
print(len(P), 'properties', len(checks), 'checks', len(NA), 'not applicable')
