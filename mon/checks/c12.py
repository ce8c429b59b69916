"""C12: writing a drill file and reading it back preserves every hit."""
import os
import tempfile
from mon import exc, gbr
from mon.core import require

PID = 'C12'
QUICK, THOROUGH = 10000, 120000
RULE = ('a case is a random Excellon program that is read, sometimes converted, offset or given another diameter, then written and read back; tools, hits per tool and '
        'units are compared and writing again must give the same text; non-trivial when there are at least two hits or slots')
REQUIRED = {'hit': 10000, 'slot85': 1500, 'slotrout': 1500, 'incremental': 300, 'repeat': 1000, 'multi_tool': 1000,
            'header_incremental': 30, 'converted': 300, 'extras': 1000, 'default_tool': 100, 'undefined_tool': 50, 'begin:%': 80, 'begin:;': 150, 'no_tool_defined': 50}
ASSUMPTIONS = ['the file declares its number format, or the same settings are given when reading back',
               'every coordinate fits the format']


def gen(rng, i):
    prog = exc.gen_prog(rng, begin=True)
    case = {'prog': prog, 'steps': []}
    r = rng.random()
    if r < .2:
        case['steps'] = [rng.choice([['to_inch'], ['to_metric'], ['offset', round(rng.uniform(-1, 1), 3), round(rng.uniform(-1, 1), 3)],
                                     ['tool', rng.randint(0, 9), round(rng.uniform(.05, 3), 3)]])]
    if rng.random() < .08 and prog['decl'] != 'given':
        prog['ops'].append(['T', rng.choice([50, 61])])
        prog['ops'].append(['xy', 100, 100, 0])
    elif rng.random() < .04 and prog['decl'] != 'given' and prog['ops'] and prog['ops'][0][0] == 'T' and prog['ops'][0][1]:
        # (only a selection defines a tool then)
        prog['tools'] = []
        prog['ops'] = [o for o in prog['ops'] if o != ['next']]
    return case


def signature(case):
    return exc.text(case['prog']) if len(case['prog']['ops']) > 2 else None


def write(f):
    fd, name = tempfile.mkstemp(suffix='.drl')
    os.close(fd)
    try:
        f.write(name)
        with open(name) as g:
            return g.read()
    finally:
        os.remove(name)


FIELDS = ('diameter', 'feed_rate', 'rpm', 'retract_rate', 'max_hit_count', 'depth_offset', 'plated')


def tools(f):
    return dict((n, tuple(getattr(t, k) for k in FIELDS)) for n, t in f.tools.items())


def by_tool(f):
    out = {}
    for h in f.hits:
        out.setdefault(h.tool.number, []).append(exc.obs(h))
    return out


def same_tools(a, b, tol):
    if set(a) != set(b):
        return 'tools %r, read back %r' % (sorted(a), sorted(b))
    for n in a:
        for k, x, y in zip(FIELDS, a[n], b[n]):
            if (x is None) != (y is None) or (x != y and (isinstance(x, str) or abs(x - y) > (tol if k == 'diameter' else 1e-6 * max(1, abs(x))))):
                return 'tool %d %s %r, read back %r' % (n, k, x, y)
    return None


def reload(prog, f, data):
    """Reads written data the way a user would."""
    if prog['decl'] == 'given':
        q = dict(prog, units=f.units)
        return exc.loads(q, data)
    return exc.loads(prog, data)


def fits(f):
    a, b = f.format
    top = 10 ** a - 10 ** -b
    return all(abs(c) <= top for h in f.hits for p in exc.obs(h)[2:] for c in p)


def judge(case, mon):
    prog = case['prog']
    data = exc.text(prog)
    f = exc.loads(prog)
    for s in case['steps']:
        if s[0] == 'offset':
            f.offset(s[1], s[2])
        elif s[0] == 'tool':
            n = sorted(f.tools)[s[1] % len(f.tools)]
            f.update_tool(n, diameter=s[2])
        else:
            getattr(f, s[0])()
            mon.count('converted')
    for o in prog['ops']:
        if o[0] == 'ici' and o[1]:
            mon.count('incremental')
        if o[0] == 'R':
            mon.count('repeat')
    if 'ICI,ON' in prog['mid']:
        mon.count('header_incremental')
    if any(t[2] != ['', ''] for t in prog['tools']):
        mon.count('extras')
    if prog.get('begin'):
        mon.count('begin:' + prog['begin'][0])
    if f.hits and prog['ops'][0][0] != 'T':
        mon.count('default_tool')
    if any(o[0] == 'T' and o[1] in (50, 61) for o in prog['ops']):
        mon.count('undefined_tool')
    if not prog['tools']:
        mon.count('no_tool_defined')
    if not fits(f):
        mon.count('not_representable')
        return
    before = [exc.obs(h) for h in f.hits]
    for h in before:
        mon.count(h[0])
    if len(by_tool(f)) > 1:
        mon.count('multi_tool')
    out = write(f)
    require(before == [exc.obs(h) for h in f.hits], 'write-changes', lambda: 'writing changed the hits\n' + data)
    g = reload(prog, f, out)
    what = lambda: '%r\n%s\nwritten\n%s' % (case['steps'], data, out)
    require(g.units == f.units, 'units', lambda: 'units %r, read back %r\n%s' % (f.units, g.units, what()))
    d = same_tools(tools(f), tools(g), 1e-6)
    require(d is None, 'tools', lambda: '%s\n%s' % (d, what()))
    res = .51 * 10 ** -f.format[1] + 1e-9
    a, b = by_tool(f), by_tool(g)
    require(set(a) == set(b), 'hits', lambda: 'hits of tools %r, read back %r\n%s' % (sorted(a), sorted(b), what()))
    for n in a:
        p = [(h[0],) + h[2:] for h in a[n]]
        q = [(h[0],) + h[2:] for h in b[n]]
        d = gbr.diff_lists(p, q, res)
        require(d is None, 'hits', lambda: 'tool %d: %s\n%s' % (n, d, what()))
    again = write(g)
    undefined = not prog['tools'] or any(o[0] == 'T' and o[1] in (50, 61) for o in prog['ops'])
    if undefined:
        # such tools are defined ahead of the others, so that their order may change once
        out, again = sorted(out.split()), sorted(again.split())
    require(again == out, 'not-stable', lambda: 'writing what was read back differs:\n%s\n%s' % (again, what()))
