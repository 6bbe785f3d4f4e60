"""writes /verif/MANIFEST.json from plan.py"""
import json, os
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the C source (VC generation from /repo + SMT); concrete replay search on the built library'
m = dict(version=1, setup_cmd='python3-vt engine/setup.py',
         checks=[dict(property=p, quick_cmd='python3-vt engine/check.py --property %s --tier quick' % p,
                      thorough_cmd='python3-vt engine/check.py --property %s --tier thorough' % p,
                      technique=d.get('technique', TECH), level=d['level'], level_note=d['explain'] or 'see DESIGN.md') for p, d in plan.PROPS.items()],
         not_applicable=[], notes='No hooks in /repo; the contracts live in engine/contracts and are attached to the functions of the preprocessed source by name.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
