"""Writes MANIFEST.json from the registered checks (run from /verif)."""
import json
import sys
sys.path.insert(0, '.')
from vp.specs import SPECS, NOTES, NOT_APPLICABLE

props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in SPECS:
        bounds = '; '.join(t.bound for t in SPECS[i] if t.bound)
        checks.append(dict(
            property=i,
            quick_cmd='./run.sh %s quick' % i,
            thorough_cmd='./run.sh %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='bounded symbolic execution of the compiled code (LLVM IR regenerated from /repo), every branch and assertion decided by SMT (z3), '
                      'counterexamples replayed natively',
            level='model_checking',
            level_note='Holds for all values within the bounds: %s. %s' % (
                bounds, NOTES.get(i, 'Numbers are exact reals (rounding outside the claim); trusted: clang front end, the symbolic machine '
                                     '(co-simulated against native runs on every run), z3.'))))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, numpy" && chmod +x run.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the harnesses use the repository\'s own test friend declarations (TEST_CONSTRUCTOR).'),
          open('MANIFEST.json', 'w'), indent=1)
