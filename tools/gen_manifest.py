"""Writes MANIFEST.json and known_findings.json's validity is checked. Run: python3 tools/gen_manifest.py"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PY = '/opt/venv/bin/python'

NOTE = ('Random exploration: holds on all cases generated from the seed (quick) or on 12-20 times as many (thorough). Trusts the oracle (%s) '
        'and the PyPy interpreter; inputs named as unspecified in DESIGN.md are not judged.')

def doc(path):
    s = open(path).read()
    m = re.search(r'^TECHNIQUE\s*=\s*(.+)$', s, re.M)
    o = re.search(r'^ORACLE\s*=\s*(.+)$', s, re.M)
    return (eval(m.group(1)) if m else 'property-based testing: generated scripts against a reference model', eval(o.group(1)) if o else 'hv/model.py and the check itself')

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    path = os.path.join(ROOT, 'hv', 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property = pid, reason = 'its check is not written yet'))
        continue
    tech, oracle = doc(path)
    checks.append(dict(property = pid, quick_cmd = '%s check.py %s --tier quick' % (PY, pid), thorough_cmd = '%s check.py %s --tier thorough' % (PY, pid),
                       evidence_file = 'evidence/%s.json' % pid, technique = tech, level = 'exploration', level_note = NOTE % oracle))
m = dict(version = 1, setup_cmd = '%s check.py --selftest' % PY, checks = checks, not_applicable = na,
         notes = 'All checks run the code from /repo/src on the interpreter of /opt/venv; nothing is built. `check.py ID --replay FILE` re-runs a saved failure.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent = 1); f.write('\n')
kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
assert set(kf) == {'findings', 'fixed'}
print(len(checks), 'checks', len(na), 'not claimed')
