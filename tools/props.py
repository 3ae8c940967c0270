"""The list of properties and checks: writes ../properties.jsonl and ../MANIFEST.json."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': a}, technique, note))


A = 'acoular/'
ALLF = [A + f for f in ('base.py', 'process.py', 'tprocess.py', 'sources.py', 'spectra.py', 'fprocess.py', 'tbeamform.py',
                        'tools/utils.py', 'tfastfuncs.py')]
TV = 'TLA+ (TLC): exhaustive design model + trace validation of the real objects'

exec((ROOT / 'tools' / 'props_list.py').read_text())

(ROOT / 'properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p, _, _ in P))
man = {'version': 1, 'setup_cmd': 'true',
       'checks': [{'property': p['id'], 'quick_cmd': f"VERIF_TIER=quick bin/check {p['id']}",
                   'thorough_cmd': f"VERIF_TIER=thorough bin/check {p['id']}",
                   'evidence_file': f"evidence/{p['id']}.json",
                   'technique': t, 'level': 'model_checking', 'level_note': n} for p, t, n in P if t],
       'not_applicable': NA,
       'notes': 'No hooks in /repo: the checks drive the public API of the code of /repo and validate what they recorded '
                'against the TLA+ specifications in specs/. setup needs nothing; bin/check compiles what numba needs.'}
(ROOT / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')
for p, _, _ in P:
    assert len(p['title']) <= 80, p['id']
print(len(P), 'properties')
