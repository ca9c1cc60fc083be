"""Writes /verif/MANIFEST.json from the contract modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
DED = ('contracts on the real functions; deductive discharge (symbolic execution of the real code objects over all paths, '
       'exact trigonometric algebra and z3); counterexamples replayed natively')
NOTE = {
}
NOTES_FILE = os.path.join(HERE, 'tools', 'notes.json')
NOTE = json.load(open(NOTES_FILE, encoding='utf-8'))
checks, na = [], []
for p in PROPS:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')) and i in NOTE['claimed']:
        n = NOTE['claimed'][i]
        checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python check.py {i}',
                           thorough_cmd=f'VERIF_TIER=thorough /opt/venv/bin/python check.py {i}',
                           evidence_file=f'evidence/{i}.json', technique=n.get('technique', DED),
                           level=n.get('level', 'proof'), level_note=n['note']))
    else:
        na.append(dict(property=i, reason=NOTE['not_applicable'].get(i, 'no contract written yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import z3, numpy"',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo. Every check imports the code from /repo as it is and runs the contracts in '
               'contracts/<id>.py; the replay file is evidence/<id>.replay.json.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
