"""Property texts -> properties.jsonl and MANIFEST.json (run: python3 lib/props.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe))))
NA = {}       # property -> reason
LEVEL = {}    # property -> (technique, level_note)
TECH = 'symbolic execution of the LLVM IR of the real code, SMT-decided (z3), counterexamples replayed natively'
exec(open(os.path.join(V, 'lib', 'props_text.py')).read())
if __name__ == '__main__':
    import checks
    open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
    ch, na = [], []
    for p in P:
        i = p['id']
        if i in checks.TABLE and i not in NA:
            t, n = LEVEL.get(i, (TECH, ''))
            ch.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, technique=t, level='model_checking', level_note=n or 'Every value within the bounds recorded in the evidence is decided by the solver; trusts the IR semantics of the engine (cross-checked against native runs of the same paths) and the environment models.'))
        else: na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
    json.dump(dict(version=1, setup_cmd="make -C engine && build/selftest 300 1", checks=ch, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties,', len(ch), 'claimed;', [x['property'] for x in na])
