"""note.py ID 'note text' [LEVEL]: claim a property;  note.py fix ID COMMIT 'text': record a repair."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1] == 'fix':
    f = os.path.join(H, 'known_findings.json'); d = json.load(open(f))
    d['fixed'].append(f'fixed: property={sys.argv[2]} {sys.argv[3]} {sys.argv[4]}')
else:
    f = os.path.join(H, 'tools', 'notes.json'); d = json.load(open(f))
    d['claimed'][sys.argv[1]] = dict(note=sys.argv[2], **({'level': sys.argv[3]} if len(sys.argv) > 3 else {}))
    d['not_applicable'].pop(sys.argv[1], None)
json.dump(d, open(f, 'w'), indent=1)
subprocess.check_call([sys.executable, os.path.join(H, 'tools', 'gen_manifest.py')])
