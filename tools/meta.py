"""Single source of the property texts: writes properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
M = 'dex/src/matching.rs'; S = 'dex/src/state.rs'; F = 'dex/src/fees.rs'; K = 'dex/src/critbit.rs'; I = 'dex/src/instruction.rs'
TECH = 'contract-based deductive verification (mirv: pre/postconditions and loop invariants over rustc MIR of the real functions, discharged by z3/cvc5)'


def prop(id, title, statement, over, text, why, files, mech, note='', state=None, claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, state=state, claim=claim, reason=reason))


exec(open(os.path.join(ROOT, 'tools', 'texts.py')).read())

for p in P: assert len(p['title']) <= 80, p['id']
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        if p['state']: d['anchors']['state'] = p['state']
        f.write(json.dumps(d) + '\n')
BASE = ('Every obligation generated from the MIR of the current source is discharged for all inputs and all iterations. Trusted: the mirv engine (MIR semantics), z3/cvc5, rustc lowering to MIR; '
        'assumed: transactions that fail have no effect, arithmetic is checked (overflow aborts), std models and the callee contracts listed in the evidence. ')
man = dict(version=1, setup_cmd='bash setup.sh',
           checks=[dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
                        technique=TECH, level='proof', level_note=BASE + p['note']) for p in P if p['claim']],
           not_applicable=[dict(property=p['id'], reason=p['reason']) for p in P if not p['claim']])
if HOOKS: man['hooks'] = HOOKS
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(man, f, indent=1); f.write('\n')
