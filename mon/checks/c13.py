"""C13: drill accounting agrees with the hits in the file."""
import copy
import math
import os
import re
import tempfile
from mon import exc, gbr
from mon.core import require

PID = 'C13'
QUICK, THOROUGH = 12000, 150000
RULE = ('a case is a random Excellon program with a history of tool updates, moves, conversions and queries; hit counts, path lengths, '
        'the report and the written tool table are compared with the hits; non-trivial when there are at least two hits or slots')
REQUIRED = {'hits': 20000, 'slots': 3000, 'tools_without_hits': 500, 'reselected': 1000, 'update': 2000, 'own': 200, 'absent': 5000, 'report': 5000,
            'report_file': 200, 'incremental_end': 100, 'decl:given': 300, 'parsed': 5000, 'parsed:bounds': 8000, 'parsed:holes': 1000}
ASSUMPTIONS = ['a path starts at the origin, where the machine starts', 'a slot adds the way to its start and along it']
FIELDS = ('feed_rate', 'retract_rate', 'rpm', 'diameter', 'max_hit_count', 'depth_offset')


def gen(rng, i):
    prog = exc.gen_prog(rng)
    steps = []
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        if r < .6:
            kw = dict((k, round(rng.uniform(.01, 6), rng.choice([1, 2, 3]))) for k in rng.sample(FIELDS, rng.randint(1, 4)))
            if rng.random() < .2:
                kw[rng.choice(FIELDS)] = 0.0
            if 'diameter' in kw:
                kw['diameter'] += 0.01
            steps.append(['update', rng.randint(0, 9), kw])
        elif r < .65:
            steps.append(['own', rng.randint(0, 9)])
        elif r < .8:
            steps.append([rng.choice(['to_inch', 'to_metric'])])
        else:
            steps.append(['offset', round(rng.uniform(-2, 2), 3), round(rng.uniform(-2, 2), 3)])
    return {'prog': prog, 'steps': steps, 'file': rng.random() < .1}


def signature(case):
    return repr(case) if len(exc.Ref(case['prog']).hits) > 1 else None


def travel(hits):
    pos, n = (0., 0.), 0.
    for h in hits:
        for p in h[2:]:
            n += math.hypot(p[0] - pos[0], p[1] - pos[1])
            pos = p
    return n


ROW = re.compile(r'^\s*T(\d+)\s+(\S+)\s+(\d+)\s+(\S+?)(in\.|mm)$')


def parse_report(text):
    rows, info = [], {}
    for line in text.splitlines():
        m = ROW.match(line)
        if m:
            rows.append((int(m.group(1)), float(m.group(2)), int(m.group(3)), float(m.group(4)), m.group(5)))
        m = re.match(r'^\s*(Data Mode|Units)\s+(\S+)$', line)
        if m:
            info[m.group(1)] = m.group(2)
    return rows, info


def check(f, hits, numbers, table, units, fmt, what, mon, report_name=None):
    """hits: expected (kind, diameter, points), numbers: their tools, table: tool data."""
    want = dict((n, 0) for n in table)
    for n in numbers:
        want[n] += 1
    got = f.hit_count()
    require(got == want, 'hit-count', lambda: 'hit counts %r, expected %r\n%s' % (got, want, what()))
    require(sum(got.values()) == len(f.hits) == len(hits), 'hit-total', lambda: 'counts %r, %d hits\n%s' % (got, len(f.hits), what()))
    k = 25.4 if units == 'metric' else 1
    lengths = f.path_length()
    for n in table:
        require(f.hit_count(n) == want[n], 'hit-count', lambda: 'hit_count(%d) %r, expected %r\n%s' % (n, f.hit_count(n), want[n], what()))
        w = travel([h for h, m in zip(hits, numbers) if m == n])
        g = f.path_length(n)
        tol = 1e-6 * k * (1 + abs(w) * 1e-3)
        if want[n] == 0:
            mon.count('tools_without_hits')
            require(not g and not lengths.get(n), 'path-length', lambda: 'path length of tool %d without hits %r\n%s' % (n, g, what()))
        else:
            require(g is not None and abs(g - w) <= tol, 'path-length', lambda: 'path length of tool %d is %r, expected %r\n%s' % (n, g, w, what()))
            require(n in lengths and abs(lengths[n] - w) <= tol, 'path-length', lambda: 'path lengths %r, tool %d expected %r\n%s' % (lengths, n, w, what()))
    for n in (0, 1, 100, None if not table else max(table) + 1):
        if n is not None and n not in table:
            mon.count('absent')
            g = (f.hit_count(n), f.path_length(n))
            require(g[0] in (None, 0) and g[1] in (None, 0), 'absent', lambda: 'tool %d is not in the file and has (hits, path) %r\n%s' % (n, g, what()))
    require(set(lengths) <= set(table), 'path-length', lambda: 'path lengths of unknown tools %r\n%s' % (lengths, what()))
    rep = f.report(report_name) if report_name else f.report()
    mon.count('report')
    if report_name:
        mon.count('report_file')
        with open(report_name) as g:
            require(g.read() == rep, 'report-file', lambda: 'saved report differs\n' + rep)
    rows, info = parse_report(rep)
    require(sorted(r[0] for r in rows) == sorted(table), 'report', lambda: 'tools in the report %r, expected %r\n%s\n%s' % ([r[0] for r in rows], sorted(table), rep, what()))
    for n, d, c, p, u in rows:
        require(c == want[n] and u == ('in.' if units == 'inch' else 'mm'), 'report', lambda: 'row %r, expected %d hits\n%s\n%s' % ((n, d, c, p, u), want[n], rep, what()))
        w = travel([h for h, m in zip(hits, numbers) if m == n])
        require(abs(p - w) < 1e-5 * k, 'report', lambda: 'path length %r of tool %d, expected %r\n%s\n%s' % (p, n, w, rep, what()))
        require(abs(d - table[n]['diameter']) <= .51 * 10 ** -fmt[1] + 1e-9, 'report', lambda: 'size %r of tool %d, expected %r\n%s\n%s' % (d, n, table[n]['diameter'], rep, what()))
    w = {'Units': 'Inches' if units == 'inch' else 'Millimeters', 'Data Mode': 'Absolute' if f.settings.notation == 'absolute' else 'Incremental'}
    require(info == w, 'report', lambda: 'report says %r, expected %r\n%s\n%s' % (info, w, rep, what()))


def parsed(case, ref, table, mon, what):
    """The figures of the parser itself."""
    from gerber.excellon import ExcellonParser
    from gerber.excellon_statements import CoordinateStmt
    from gerber.cam import FileSettings
    prog = case['prog']
    if prog.get('allegro'):
        return
    p = ExcellonParser(FileSettings(units=prog['units'], zeros=prog['zeros'], format=tuple(prog['fmt'])))
    f = p.parse_raw(exc.text(prog))
    mon.count('parsed')
    require(p.hole_count == len(ref.hits) == len(f.hits), 'hole-count', lambda: 'the parser counts %r holes, there are %d\n%s' % (p.hole_count, len(ref.hits), what()))
    a, b = sorted(p.hole_sizes), sorted(t['diameter'] for t in table.values())
    require(len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(a, b)), 'hole-sizes', lambda: 'the parser has hole sizes %r, the tools are %r\n%s' % (a, b, what()))
    c = list(p.coordinates)
    w = [(s.x, s.y) for s in f.statements if isinstance(s, CoordinateStmt)]
    require(c == w, 'coordinates', lambda: 'coordinates %r, the statements have %r\n%s' % (c, w, what()))
    for k in (0, 1):
        v = [q[k] for q in w if q[k] is not None]
        if v:
            mon.count('parsed:bounds')
            require(tuple(p.bounds[k]) == (min(v), max(v)), 'parser-bounds', lambda: 'bounds %r of coordinates %r\n%s' % (p.bounds, w, what()))
    if not ref.incremental and 'ICI,ON' not in exc.text(prog) and not any(o[0] in ('R', 'slot') for o in prog['ops']):
        # every hole lies within them
        mon.count('parsed:holes')
        for h in ref.hits:
            for q in h[2:]:
                require(all(b0 - 1e-9 <= x <= b1 + 1e-9 or x == 0 for x, (b0, b1) in zip(q, p.bounds)), 'parser-bounds', lambda: 'bounds %r without %r\n%s' % (p.bounds, h, what()))


def judge(case, mon):
    prog = case['prog']
    ref = exc.Ref(prog)
    f = exc.loads(prog)
    mon.count('decl:' + prog['decl'])
    data = exc.text(prog)
    what = lambda: '%r\n%s' % (case['steps'], data)
    hits, numbers, units = list(ref.hits), list(ref.numbers), prog['units']
    mon.count('hits', len(hits))
    mon.count('slots', sum(1 for h in hits if h[0] != 'hit'))
    if f.settings.notation == 'incremental':
        mon.count('incremental_end')
    sel = [o[1] for o in prog['ops'] if o[0] == 'T']
    if len(sel) > len(set(sel)):
        mon.count('reselected')
    table = dict((n, dict((k, getattr(t, k)) for k in FIELDS)) for n, t in f.tools.items())
    require(set(table) == set(ref.tools), 'tools', lambda: 'tools %r, expected %r\n%s' % (sorted(table), sorted(ref.tools), what()))
    name = None
    try:
        if case['file']:
            fd, name = tempfile.mkstemp()
            os.close(fd)
        check(f, hits, numbers, table, units, prog['fmt'], what, mon, name)
    finally:
        if name:
            os.remove(name)
    parsed(case, ref, table, mon, what)
    for s in case['steps']:
        if s[0] == 'update':
            n = sorted(table)[s[1] % len(table)]
            f.update_tool(n, **s[2])
            mon.count('update')
            table[n].update(s[2])
            if 'diameter' in s[2]:
                hits = [(h[0], s[2]['diameter']) + h[2:] if m == n else h for h, m in zip(hits, numbers)]
        elif s[0] == 'own':
            # a hit with a tool object of its own
            if f.hits:
                mon.count('own')
                h = f.hits[s[1] % len(f.hits)]
                h.tool = copy.deepcopy(h.tool)
        elif s[0] == 'offset':
            f.offset(s[1], s[2])
            hits = [exc.move(h, s[1], s[2]) for h in hits]
        else:
            getattr(f, s[0])()
            new = s[0][3:]
            if new != units:
                k = 25.4 if new == 'metric' else 1 / 25.4
                hits = [exc.scale(h, k) for h in hits]
                for t in table.values():
                    t['diameter'] *= k
                units = new
        check(f, hits, numbers, table, units, prog['fmt'], what, mon)
        d = gbr.diff_lists(hits, [exc.obs(h) for h in f.hits], 1e-6)
        require(d is None, 'hits', lambda: 'after %r: %s\n%s' % (s, d, what()))
        for n, t in table.items():
            for k in FIELDS:
                g = getattr(f.tools[n], k)
                require((g is None) == (t[k] is None) and (g is None or abs(g - t[k]) < 1e-9 * max(1, abs(g))), 'tool-data',
                        lambda: 'after %r: %s of tool %d is %r, expected %r\n%s' % (s, k, n, g, t[k], what()))
    if case['steps']:
        from mon.checks import c12
        out = c12.write(f)
        for n, t in table.items():
            line = [l for l in out.splitlines() if re.match(r'T0*%d[BCFHSZ]' % n, l)]
            require(len(line) == 1, 'written-tool', lambda: 'definitions of tool %d: %r\n%s\n%s' % (n, line, out, what()))
            g = float(re.search(r'C([\d.]+)', line[0]).group(1))
            require(abs(g - t['diameter']) < 1e-6, 'written-tool', lambda: 'tool %d written with %r, expected %r\n%s\n%s' % (n, g, t['diameter'], out, what()))
