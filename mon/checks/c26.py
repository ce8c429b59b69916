"""C26: re-emitting a drill design as Excellon."""
from mon import exc, gbr, snap
from mon.core import require
from mon.checks.c12 import FIELDS

PID = 'C26'
QUICK, THOROUGH = 10000, 120000
RULE = ('a case is a random Excellon program (holes, G85 slots, routed slots, repeats, incremental parts, tool changes, repeated positions) that is read, sometimes converted or moved, rendered through the '
        'Excellon output context with random settings, and read back; holes and slots are compared in order with their tools; non-trivial when there are at least two')
REQUIRED = {'hit': 20000, 'slot85': 2000, 'slotrout': 3000, 'same_point': 1000, 'chained': 1000, 'zero_length': 300, 'rout_then_drill': 500, 'drill_then_rout': 300, 'tool_change': 2000,
            'tool_change_routing': 100, 'converted': 500, 'moved': 300, 'fmt_changed': 1000, 'zeros:leading': 1500, 'zeros:trailing': 1500, 'incremental': 100}
ASSUMPTIONS = ['every coordinate fits the output format', 'designs that end in incremental mode are written with absolute settings',
               'tools without holes are not written']


def gen(rng, i):
    prog = exc.gen_prog(rng, given=False)
    ops = prog['ops']
    # the same places again
    for _ in range(rng.choice([0, 1, 3])):
        k = [n for n, o in enumerate(ops) if o[0] in ('xy', 'slot', 'G01')]
        if not k:
            break
        n = rng.choice(k)
        o = list(ops[n])
        if o[0] == 'slot' and rng.random() < .3:
            o[3:5] = o[1:3]
            ops[n] = list(o)
        if rng.random() < .3:
            ops.insert(n + 1, ['T', rng.choice(prog['tools'])[0]])
        ops.insert(n + 1, o)
    if rng.random() < .3:
        # routing, drilling and routing on from where it drilled (or from where it routed before)
        p, q, r, s = (list(exc.pair(rng, prog)) for _ in range(4))
        for v in (p, q, r, s):
            v[:] = [c if c is not None else exc.coord(rng, prog) for c in v]
        drill = rng.choice([['xy'] + q + [0], ['slot'] + s + q + [0]])
        back = rng.choice([q, q, q, p])
        ops += [['M', 'G05'], ['abs'], ['G00'] + r + [0], ['M', 'M15'], ['G01'] + p + [0], ['M', rng.choice(['M16', 'M17'])], ['M', 'G05'], drill]
        if rng.random() < .3:
            ops.append(['T', rng.choice(prog['tools'])[0]])
        ops += [['G00'] + back + [0], ['M', 'M15'], ['G01'] + rng.choice([r, s]) + [0], ['M', 'M16'], ['M', 'G05']]
    case = {'prog': prog, 'steps': [], 'fmt': None, 'zeros': rng.choice(['leading', 'trailing'])}
    r = rng.random()
    if r < .15:
        case['steps'].append([rng.choice(['to_inch', 'to_metric'])])
    if r > .9 or r < .05:
        case['steps'].append(['offset', round(rng.uniform(-1, 1), 3), round(rng.uniform(-1, 1), 3)])
    if rng.random() < .5:
        case['fmt'] = rng.choice([[2, 4], [3, 3], [4, 4], [3, 5], [6, 6], [2, 5]])
    return case


def signature(case):
    return repr(case) if len(exc.Ref(case['prog']).hits) > 1 else None


def judge(case, mon):
    import gerber
    from gerber.cam import FileSettings
    from gerber.render.excellon_backend import ExcellonContext
    prog = case['prog']
    data = exc.text(prog)
    f = exc.loads(prog)
    for s in case['steps']:
        getattr(f, s[0])(*s[1:])
        mon.count('moved' if s[0] == 'offset' else 'converted')
    fmt = tuple(case['fmt'] or f.settings.format)
    before = [exc.obs(h) for h in f.hits]
    if not before:
        return
    top = 10 ** fmt[0] - 10. ** -fmt[1]
    if any(abs(c) > top for h in before for p in h[2:] for c in p):
        return
    mon.count('fmt_changed', fmt != tuple(f.settings.format))
    mon.count('zeros:' + case['zeros'])
    mon.count('incremental', f.settings.notation == 'incremental')
    numbers = [h.tool.number for h in f.hits]
    tools = dict((h.tool.number, tuple(getattr(h.tool, k) for k in FIELDS[:-1])) for h in f.hits)
    last = None
    for n, h in enumerate(before):
        mon.count(h[0])
        mon.count('zero_length', h[0] != 'hit' and h[2] == h[3])
        if last:
            mon.count('same_point', h[2] == last[-1] and h[0] == 'hit')
            mon.count('chained', h[0] == last[0] == 'slotrout' and h[2] == last[-1])
            mon.count('drill_then_rout', last[0] != 'slotrout' and h[0] == 'slotrout' and h[2] == last[-1])
            mon.count('rout_then_drill', last[0] == 'slotrout' and h[0] != 'slotrout')
            if numbers[n] != numbers[n - 1]:
                mon.count('tool_change')
                mon.count('tool_change_routing', last[0] == h[0] == 'slotrout')
        last = h
    settings = FileSettings(units=f.units, format=fmt, zeros=case['zeros'], notation='absolute')
    s0 = snap.snap(f)
    ctx = ExcellonContext(settings)
    f.render(ctx)
    out = '\n'.join(s.to_excellon(settings) for s in ctx.statements) + '\n'
    what = lambda: 'from %r\n%s\nwritten with %r %s\n%s' % (case['steps'], data, fmt, case['zeros'], out)
    require('\n'.join(s.to_excellon(settings) for s in ctx.statements) + '\n' == out, 'statements', lambda: 'asking again gives other statements ' + what())
    d = snap.diff(s0, snap.snap(f))
    require(d is None, 'changed', lambda: 'rendering changed %s %s' % (d, what()))
    g = gerber.loads(out)
    require(g.units == f.units and tuple(g.settings.format) == fmt and g.settings.zeros == case['zeros'], 'settings', lambda: 'read back as %s %r %s %s' % (
        g.units, g.settings.format, g.settings.zeros, what()))
    after = [exc.obs(h) for h in g.hits]
    require([h[0] for h in after] == [h[0] for h in before], 'count', lambda: '%d hits (%s), read back %d (%s) %s' % (
        len(before), ' '.join(h[0] for h in before), len(after), ' '.join(h[0] for h in after), what()))
    require([h.tool.number for h in g.hits] == numbers, 'tool', lambda: 'tools %r, read back %r %s' % (numbers, [h.tool.number for h in g.hits], what()))
    tol = .5001 * 10. ** -fmt[1] + 1e-9
    for k, (a, b) in enumerate(zip(before, after)):
        require(all(abs(u - v) <= tol for p, q in zip(a[2:], b[2:]) for u, v in zip(p, q)) and abs(a[1] - b[1]) < 1e-6, 'hit', lambda: 'hit %d was %r, read back %r %s' % (k, a, b, what()))
    require(set(g.tools) == set(tools), 'tools', lambda: 'tools %r, read back %r %s' % (sorted(tools), sorted(g.tools), what()))
    for n, t in tools.items():
        for k, x in zip(FIELDS, t):
            y = getattr(g.tools[n], k)
            require((x is None) == (y is None) and (x is None or abs(x - y) <= 1e-6 * max(1, abs(x))), 'tool-field', lambda: 'tool %d %s %r, read back %r %s' % (n, k, x, y, what()))
