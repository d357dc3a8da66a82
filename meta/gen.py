#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
CLAIMED, NA = [], []
TECH = 'contract-based deductive verification of the real C++ (LLVM IR VC generation, z3/cvc5)'
NOTE = ('Every obligation generated from the current source is discharged for all inputs and iterations by an SMT solver (loop invariants inferred from '
        'candidate templates and proved inductive); trusted: clang front end, the VC generator, the solvers, and the assumed contracts listed in the evidence file.')
def P(id, title, statement, over, qtext, why, files, mech, note='', claim=True, reason=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    assert len(title) <= 80, (id, len(title))
    CLAIMED.append((d, note)) if claim else NA.append((d, reason))
exec(open(os.path.join(HERE, 'props.py')).read())
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for d, _ in sorted(CLAIMED + NA, key=lambda x: x[0]['id']): f.write(json.dumps(d) + '\n')
man = dict(version=1, setup_cmd='python3-vt -c "import z3" && which clang++-18 opt-18 g++ >/dev/null && echo ready',
           hooks=dict(guard='none', enable='no hooks are needed: the checks compile the unmodified sources of /repo', source_commits=[]),
           checks=[dict(property=d['id'], quick_cmd='python3-vt vcgen/check.py %s --tier quick' % d['id'], thorough_cmd='python3-vt vcgen/check.py %s --tier thorough' % d['id'],
                        technique=TECH, level='proof', level_note=NOTE + (' ' + n if n else '')) for d, n in CLAIMED],
           not_applicable=[dict(property=d['id'], reason=r) for d, r in NA])
json.dump(man, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
