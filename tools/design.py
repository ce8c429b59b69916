"""Writes DESIGN.md: hand-written text plus tables taken from the checks, the findings file and the planted bugs."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
exec(open('tools/design_text.py').read())

out = [INTRO]
props = {}
for line in open('properties.jsonl'):
    p = json.loads(line)
    props[p['id']] = p
for pid in sorted(props):
    src = open('mon/checks/%s.py' % pid.lower()).read()

    def const(name):
        m = re.search(r'^%s = (.*?)(?=^\S)' % re.escape(name), src, re.M | re.S)
        return m.group(1).strip() if m else None
    rule = eval(const('RULE'))
    q, t = eval(const('QUICK, THOROUGH'))
    d = TEXT[pid]
    out.append('### %s. %s\n' % (pid, props[pid]['title']))
    out.append('- **Specified**: the statement in `properties.jsonl`. %s' % d['spec'])
    out.append('- **Workload**: %s.' % rule.rstrip('.'))
    out.append('- **Monitor and oracle**: %s' % d['oracle'])
    out.append('- **Bounds**: %s' % d['bounds'])
    out.append('- **Cost**: quick %s cases (%s), thorough up to %s cases or 660 s.' % (format(q, ','), d['cost'], format(t, ',')))
    out.append('- **Beyond the tests**: %s %s\n' % (props[pid]['why_tests_cant'], d.get('reach', '')))
out.append(AFTER)
out.append('## Planted bugs\n')
out.append(SEEDED)
out.append('| id | property | what it needs to show | caught by |\n|---|---|---|---|')
for s in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % s))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), CAUGHT.get(s, m['property'])))
out.append('\n## Repairs of pcb-tools\n')
out.append(FIXES)
for f in json.load(open('known_findings.json'))['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    out.append('- `%s` (%s) %s' % (m.group(2), m.group(1), m.group(3)))
out.append('')
open('DESIGN.md', 'w').write('\n'.join(out))
