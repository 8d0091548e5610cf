"""Writes /verif/MANIFEST.json: one check per property module in harness/props."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]

TECHNIQUE = {}
NOTE = {}
DEFAULT_TECHNIQUE = 'property-based testing (Hypothesis): generated cases against an explicit oracle'
DEFAULT_NOTE = 'Generated-input search; absence of violations is shown only for the cases explored. Trusts Hypothesis, ' \
               'the interpreter and the reference models in /verif/harness.'
exec(open(os.path.join(here, 'tools', 'manifest_notes.py')).read())

checks, missing = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(here, 'harness', 'props', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 run.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 run.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECHNIQUE.get(pid, DEFAULT_TECHNIQUE),
            'level': 'exploration',
            'level_note': NOTE.get(pid, '') + (' ' if pid in NOTE else '') + DEFAULT_NOTE,
        })
    else:
        missing.append({'property': pid, 'reason': 'The check is not built yet.'})
manifest = {
    'version': 1,
    'setup_cmd': 'python3 setup_check.py',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks in /repo: the checks observe the engine through its public objects. Every check imports the '
             'engine from /repo\'s working tree. VERIF_SEED selects the generated cases, VERIF_TIER or --tier the '
             'depth. A violation is replayed with: python3 run.py <ID> --replay <path>. Genuine defects that were '
             'repaired are listed in KNOWN_FINDINGS.txt.',
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'not claimed')
