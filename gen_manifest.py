"""writes MANIFEST.json from vc/props.py (run by hand after changing the list of checks)"""
import json, sys
sys.path.insert(0, '/verif/vc')
import props
NA = props.NOT_APPLICABLE
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++-18 --version >/dev/null && mkdir -p evidence/replays',
         checks=[dict(property=k, quick_cmd='python3-vt vc/check.py %s --tier quick' % k, thorough_cmd='python3-vt vc/check.py %s --tier thorough' % k,
                      technique=p.get('technique', 'contracts on the real functions, discharged by a deductive verifier (clang AST -> verification conditions -> z3); failed obligations replayed on the compiled code'),
                      level=p.get('level', 'proof'), level_note=p['note']) for k, p in props.PROPS.items()],
         not_applicable=[dict(property=k, reason=r) for k, r in NA.items() if k not in props.PROPS])
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
missing = [i for i in ids if i not in props.PROPS and i not in NA]
print(len(m['checks']), 'checks;', 'unlisted:', missing)
