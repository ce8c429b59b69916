"""C17: copying operations never touch their source."""
from mon import gbr, exc, snap
from mon.core import require
from mon.checks.c07 import gen_file

PID = 'C17'
QUICK, THOROUGH = 5200, 60000
RULE = ('a case is a random Gerber or drill file and a sequence of copying operations (gerber.operations), in-place operations and changes of single objects, statements and tools '
        'on the source and on the copies; full snapshots (statements, objects, boxes, tools, hits, written file) of source and copies are compared around every step, and each copy with a freshly '
        'read design changed in place; non-trivial when there are at least two objects')
REQUIRED = {'copy:gerber': 1500, 'copy:drill': 1000, 'op:offset': 700, 'op:to_inch': 700, 'op:to_metric': 700, 'mutate:copy': 1000, 'mutate:source': 1000,
            'mutate:tool': 50, 'mutate:object': 300, 'mutate:statement': 120, 'mutate:aperture': 50, 'mutate:append': 150, 'snapshots': 8000}
ASSUMPTIONS = ['equality with the in-place result is exact']


def gen(rng, i):
    case = {'kind': 'gerber' if i % 2 else 'drill'}
    case['prog'] = gen_file(rng, n=rng.randint(2, 10)) if i % 2 else exc.gen_prog(rng, n=rng.randint(2, 12))
    case['pre'] = [inplace(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
    steps = []
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if r < .35 or not steps:
            steps.append(['copy', rng.randint(0, 9), inplace(rng, False)])
        else:
            steps.append(['mutate', rng.randint(0, 9), inplace(rng, rng.random() < .8)])
    case['steps'] = steps
    return case


def inplace(rng, more=True):
    r = rng.random()
    if more and r < .45:
        k = rng.choice(['object', 'object', 'statement', 'tool', 'query', 'aperture', 'append'])
        return [k, rng.randint(0, 30), round(rng.uniform(-3, 3), 3)]
    if rng.random() < .34:
        return ['offset', rng.choice([0, round(rng.uniform(-2, 2), 2), round(rng.uniform(-2, 2), 2)]), rng.choice([0, 0, 1, round(rng.uniform(-9, 9), 3)])]
    return [rng.choice(['to_inch', 'to_metric'])]


def signature(case):
    return repr(case) if len(case['prog']['ops']) > 2 else None


def do(f, s, mon=None):
    """One in-place operation or change."""
    k = s[0]
    if k in ('offset', 'to_inch', 'to_metric'):
        getattr(f, k)(*s[1:])
        return True
    if k == 'query':
        snap.snap(f)
        return True
    if k == 'object':
        objs = f.hits if hasattr(f, 'hits') and s[1] % 2 else f.primitives
        if not objs:
            return False
        objs[s[1] % len(objs)].offset(s[2], 1.5)
    elif k == 'tool':
        if not getattr(f, 'tools', None):
            return False
        n = sorted(f.tools)[s[1] % len(f.tools)]
        f.update_tool(n, diameter=abs(s[2]) + .01)
    elif k == 'append':
        from gerber.excellon_statements import CommentStmt as drill_comment
        from gerber.gerber_statements import CommentStmt
        f.statements.insert(len(f.statements) - 1, (drill_comment if hasattr(f, 'hits') else CommentStmt)('x'))
    elif k == 'aperture':
        from gerber.primitives import Circle
        aps = [a for a in list(getattr(f, 'apertures', [])) + [p.aperture for p in f.primitives if hasattr(p, 'aperture')] if isinstance(a, Circle)]
        if not aps:
            return False
        aps[s[1] % len(aps)].diameter = abs(s[2]) + .02
    elif k == 'statement':
        st = [x for x in f.statements if isinstance(getattr(x, 'x', None), (int, float))]
        if not st:
            return False
        st[s[1] % len(st)].x += s[2]
    if mon is not None:
        mon.count('mutate:' + k)
    return True


def load(case):
    import gerber
    return gerber.loads(gbr.text(case['prog'])) if case['kind'] == 'gerber' else exc.loads(case['prog'])


def judge(case, mon):
    import gerber.operations as ops
    designs = [load(case)]
    history = [list(case['pre'])]          # in-place history that leads to each design
    for s in case['pre']:
        do(designs[0], s)
    text = gbr.text(case['prog']) if case['kind'] == 'gerber' else exc.text(case['prog'])
    Q = ['query']                          # (a query may settle a pending conversion, and so change roundings)
    snaps = [snap.snap(designs[0])]
    history[0].append(Q)
    for n, s in enumerate(case['steps']):
        what = lambda: 'step %d of %r after %r\n%s' % (n, case['steps'], case['pre'], text)
        i = s[1] % len(designs)
        if s[0] == 'copy':
            mon.count('copy:' + case['kind'])
            mon.count('op:' + s[2][0])
            src = designs[i]
            new = getattr(ops, s[2][0])(src, *s[2][1:])
            require(new is not src and new is not None, 'same-object', lambda: 'the design itself was returned: ' + what())
            designs.append(new)
            history.append(history[i] + [s[2]])
            twin = load(case)
            for h in history[-1]:
                do(twin, h)
            snaps.append(snap.snap(new))
            history[-1] = history[-1] + [Q]
            d = snap.diff(snap.snap(twin), snaps[-1])
            require(d is None, 'copy-differs', lambda: 'in place %s (copy) %s' % (d, what()))
            changed = -1
        else:
            if not do(designs[i], s[2], mon):
                continue
            mon.count('mutate:copy' if i else 'mutate:source')
            history[i] = history[i] + [s[2], Q]
            snaps[i] = snap.snap(designs[i])
            changed = i
        for j, f in enumerate(designs):
            if j == changed:
                continue
            mon.count('snapshots')
            d = snap.diff(snaps[j], snap.snap(f))
            history[j] = history[j] + [Q]
            require(d is None, 'source-changed' if s[0] == 'copy' else 'shared', lambda: 'design %d: %s (%s)' % (j, d, what()))
