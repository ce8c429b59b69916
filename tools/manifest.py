"""Writes MANIFEST.json from the list of built checks."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import P
TECH = {}
exec(open(os.path.join(V, 'tools', 'tech.py')).read(), TECH)
checks, na = [], []
for p in P:
    pid = p['id']
    if os.path.exists(os.path.join(V, 'mon', 'checks', pid.lower() + '.py')):
        t, note = TECH['TECH'][pid]
        checks.append({'property': pid, 'quick_cmd': './check.sh %s --quick' % pid,
                       'thorough_cmd': './check.sh %s --thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': t, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': pid, 'reason': TECH['NA'].get(pid, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every monitor observes public results.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
