"""Writes properties.jsonl and MANIFEST.json from harness/meta.py and harness/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import meta, registry
known = json.load(open(os.path.join(V, 'known_findings.json')))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, note in meta.P:
        assert len(d['title']) <= 80, d['title']
        assert d['id'] in meta.NA or d['id'] in registry.PROPS, d['id']
        f.write(json.dumps(d) + '\n')
NOTE = ('Solver verdict (exact real/integer normal forms, z3) over all inputs within the stated bounds, on LLVM IR compiled from the '
        'current tree: %s. Floating point is read as real arithmetic with the stated tolerance; LAPACK is modelled by exact elimination. '
        'Counterexamples are replayed on a native build before they are reported.')
m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=[], not_applicable=[])
for d, note in meta.P:
    i = d['id']
    if i in meta.NA:
        m['not_applicable'].append(dict(property=i, reason=meta.NA[i]))
        continue
    b = registry.PROPS[i]['bounds']
    assert 'TODO' not in b, i
    m['checks'].append(dict(property=i, quick_cmd='python3-vt engine/check.py ' + i,
        thorough_cmd='python3-vt engine/check.py %s --tier thorough' % i,
        technique='symbolic execution of the LLVM IR of the real code + SMT (z3)', level='model_checking',
        level_note=NOTE % b + ((' ' + note) if note else '')))
ids = [d['id'] for d, _ in meta.P]
assert len(set(ids)) == len(ids) and set(registry.PROPS) <= set(ids), set(registry.PROPS) - set(ids)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
for f in known['findings']: assert f['property'] in ids
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
