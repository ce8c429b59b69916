"""C27: tool tables, drill reports and parameter files are read as listed, and used for what a program leaves open."""
from fractions import Fraction

from mon.core import require

PID = 'C27'
QUICK, THOROUGH = 24000, 300000
RULE = ('a case is a tool table (column or comment form, mils or mm), a drill report, a parameter file or a drill program read with '
        'a table of external tools; every field read is compared with the generator\'s own record of what the text lists, and two '
        'programs sharing one table are edited alternately; non-trivial when something is listed')
REQUIRED = {'table': 1500, 'entry:column': 1500, 'entry:comment': 1500, 'entry:comment2': 1500, 'report': 1500, 'report_entry': 4000,
            'params': 1500, 'params_partial': 500, 'program': 2000, 'tool:own': 1500, 'tool:table': 1500, 'tool:default': 500,
            'plating_merged': 400, 'shared_table': 1500, 'no_settings': 300}
ASSUMPTIONS = ['a tool number is listed once per table', 'the column form is in mils, a drill report in its own unit',
               'the tools given to a program are in the program\'s unit, as its parser cannot know any other']

PLATED = {'P': 'plated', 'N': 'nonplated', 'PLATED': 'plated', 'NON_PLATED': 'nonplated', 'OPTIONAL': 'optional'}
NOISE = ['', '   ', ';', 'Allegro Design', '; Format : 2.5 / Absolute English', ';LEADER: 12', 'M48', '# comment', 'DIAMETER P/N TOOL +TOL -TOL',
         'Holesize', 'Quantity = 5', 'T01', '%', 'M30', 'Holesize = 5', 'X01Y01']


def dec(rng, lo=1, hi=9999, places=None):
    n = rng.randint(lo, hi)
    p = rng.choice([1, 2, 3, 4]) if places is None else places
    return '%d.%0*d' % (n // 10 ** p, p, n % 10 ** p) if p else str(n)


def size(rng):
    return rng.choice([lambda: '%.6f' % rng.uniform(.5, 250), lambda: dec(rng), lambda: str(rng.randint(1, 250)), lambda: '%.1f' % rng.uniform(.2, 99)])()


def table(rng):
    ids = rng.sample(range(1, 100), rng.randint(0, 6))
    out = []
    for n in ids:
        form = rng.choice(['column', 'comment', 'comment2'])
        if form == 'column':
            out.append({'form': form, 'n': n, 'size': size(rng), 'plated': rng.choice('PN'), 'unit': 'MILS',
                        'gap': rng.choice([' ', '   ', '\t']), 'tol': [size(rng), size(rng)]})
        else:
            out.append({'form': form, 'n': n, 'size': size(rng), 'plated': rng.choice(['PLATED', 'NON_PLATED', 'OPTIONAL']),
                        'unit': rng.choice(['MILS', 'MM']), 'tol': [size(rng), size(rng)], 'pad': rng.random() < .5, 'qty': rng.randint(0, 5000)})
    k = rng.randint(0, 4)
    rows = [('e', e) for e in out] + [('n', rng.choice(NOISE)) for _ in range(k)]
    rng.shuffle(rows)
    return [list(r) for r in rows]


def gen(rng, i):
    kind = rng.choice(['table', 'report', 'params', 'program', 'program'])
    case = {'kind': kind, 'eol': rng.choice(['\n', '\n', '\r\n']), 'indent': rng.choice(['', '', '  ']), 'last': rng.random() < .8}
    if kind == 'table':
        case.update(rows=table(rng), units=rng.choice(['inch', 'metric', None]))
    elif kind == 'report':
        ids = rng.sample(range(1, 100), rng.randint(0, 7))
        case['rows'] = [{'n': n, 'size': size(rng), 'plated': rng.choice(['x', '-', '?']), 'feed': rng.randint(0, 500), 'speed': rng.randint(0, 200),
                         'qty': rng.randint(0, 9999), 'gap': rng.choice([' ', '    ', '\t'])} for n in ids]
        case['blank'] = rng.random() < .5
        case['pad'] = rng.random() < .4
        case['before'] = [rng.choice(['Drill Sizes Report', '', 'Tool Size Pltd Feed Speed Qty', '1 2 x 4 5 6', '3 4 - 5 6 7']) for _ in range(rng.randint(0, 4))]
        case['settings'] = rng.choice([None, 'inch', 'metric'])
    elif kind == 'params':
        keys = {'INTEGER-PLACES': str(rng.randint(0, 6)), 'DECIMAL-PLACES': str(rng.randint(1, 6)),
                'COORDINATES': rng.choice(['ABSOLUTE', 'INCREMENTAL']), 'OUTPUT-UNITS': rng.choice(['ENGLISH', 'METRIC'])}
        if rng.random() < .4:
            for k in list(keys):
                if rng.random() < .5:
                    del keys[k]
        # A format needs both of its numbers
        if ('INTEGER-PLACES' in keys) != ('DECIMAL-PLACES' in keys):
            keys.setdefault('INTEGER-PLACES', '3')
            keys.setdefault('DECIMAL-PLACES', '2')
        rows = [list(kv) for kv in keys.items()] + [[rng.choice(['MACHINE-TOOL', 'FEEDRATE', 'FILE-CODE', 'SPINDLE-SPEED', 'TOOL-ORDER', 'OPTIMIZE']), rng.choice(['1', 'ASCII', 'YES', 'INCREASING'])]
                                                    for _ in range(rng.randint(0, 3))] + [[x] for x in rng.sample(['', 'REPEAT-CODES', '# x y z', ';', 'HEADER none of this'], rng.randint(0, 2))]
        rng.shuffle(rows)
        case.update(rows=rows, keys=keys, gap=rng.choice([' ', '     ', '\t']))
    else:
        nums = rng.sample(range(1, 30), 8)
        own, ext, none = nums[:rng.randint(0, 3)], nums[3:3 + rng.randint(0, 3)], nums[6:6 + rng.randint(0, 2)]
        if own and rng.random() < .6:
            ext = ext + [rng.choice(own)]       # the table lists it, too
        units = rng.choice(['inch', 'metric'])
        q = (1, 250) if units == 'inch' else (10, 9999)
        case.update(units=units, own=[[n, dec(rng, q[0], q[1], 3)] for n in own],
                    type=[rng.choice([None, None, 'PLATED', 'NON_PLATED']) for _ in own],
                    ext=[[n, dec(rng, q[0], q[1], 3), rng.choice([None, 'plated', 'nonplated', 'optional'])] for n in ext],
                    via=rng.choice(['objects', 'objects', 'comment']),
                    none=none, hits=[[rng.choice(own + ext + none or [1]), rng.randint(-900, 900), rng.randint(-900, 900)] for _ in range(rng.randint(1, 8))],
                    edits=[rng.choice(['inch', 'metric', 'offset', 'update', 'read']) for _ in range(rng.randint(0, 5))])
    return case


def signature(case):
    if case['kind'] in ('table', 'report') and not any(isinstance(r, dict) or r[0] == 'e' for r in case['rows']):
        return None
    return repr(case)


def entry(e):
    if e['form'] == 'column':
        return e['gap'].join([e['size'], e['plated'], 'T%02d' % e['n'], e['tol'][0], e['tol'][1]])
    n = ('%02d' if e['pad'] else '%d') % e['n']
    return '%sHolesize %s. = %s Tolerance = +%s/-%s %s %s Quantity = %d' % (
        'T%s ' % n if e['form'] == 'comment2' else '', n, e['size'], e['tol'][0], e['tol'][1], e['plated'], e['unit'], e['qty'])


def join(case, rows):
    return case['eol'].join(case['indent'] + r for r in rows) + (case['eol'] if case['last'] else '')


def close(a, b):
    return a is not None and abs(a - b) <= 1e-9 * max(1, abs(b))


def want_size(e, units):
    mm = Fraction(e['size']) * (1 if e['unit'] == 'MM' else Fraction(254, 10000))
    return float(mm if units == 'metric' else mm * 10 / 254)


def judge_table(case, mon):
    from gerber import excellon_tool
    from gerber.cam import FileSettings
    text = join(case, [entry(v) if k == 'e' else v for k, v in case['rows']])
    want = {v['n']: v for k, v in case['rows'] if k == 'e'}
    units = case['units']
    if units is None:
        mon.count('no_settings')
        got = excellon_tool.loads(text)
    else:
        got = excellon_tool.loads(text, FileSettings(units=units))
    mon.count('table')
    require(sorted(got) == sorted(want), 'tools', lambda: 'table lists tools %r, read %r from %r' % (sorted(want), sorted(got), text))
    for n, e in want.items():
        t = got[n]
        mon.count('entry:' + e['form'])
        require(t.number == n, 'number', 'tool %d read as number %r' % (n, t.number))
        w = want_size(e, units or 'inch')
        require(close(t.diameter, w), 'diameter', '%r: diameter %r instead of %r %s' % (entry(e), t.diameter, w, units or 'inch'))
        require(t.plated == PLATED[e['plated']], 'plated', '%r: plating %r' % (entry(e), t.plated))
        mon.seen('plating', '%s%s' % (e['form'], e['plated']))


def judge_report(case, mon):
    from gerber import excellon_tool
    from gerber.cam import FileSettings
    rows = list(case['before']) + ['==== ==== ==== ==== ===== ===']
    for r in case['rows']:
        rows.append(r['gap'].join([('%02d' if case['pad'] else '%d') % r['n'], r['size'], r['plated'], str(r['feed']), str(r['speed']), str(r['qty'])]))
        if case['blank']:
            rows.append('')
    rows += ['=' * 30, 'Total quantity 10']
    text = join(case, rows)
    s = case['settings']
    got = excellon_tool.loads_rep(text, *([FileSettings(units=s)] if s else []))
    mon.count('report')
    require(sorted(got) == sorted(r['n'] for r in case['rows']), 'report_tools', lambda: 'read tools %r from %r' % (sorted(got), text))
    for r in case['rows']:
        t = got[r['n']]
        mon.count('report_entry')
        require(t.number == r['n'] and close(t.diameter, float(r['size'])), 'report_diameter', '%r read as %r, %r' % (r, t.number, t.diameter))
        require(t.plated == {'x': 'plated', '-': 'nonplated'}.get(r['plated']), 'report_plated', '%r read as %r' % (r, t.plated))
        require(t.feed_rate == r['feed'] and t.rpm == r['speed'], 'report_speeds', '%r read as feed %r, speed %r' % (r, t.feed_rate, t.rpm))


def judge_params(case, mon):
    from gerber import excellon_settings
    from gerber.cam import FileSettings
    k = case['keys']
    got = excellon_settings.loads(join(case, [case['gap'].join(r) for r in case['rows']]))
    mon.count('params')
    if len(k) < 4:
        mon.count('params_partial')
    d = FileSettings()
    w = ({'ABSOLUTE': 'absolute', 'INCREMENTAL': 'incremental'}[k['COORDINATES']] if 'COORDINATES' in k else d.notation,
         {'ENGLISH': 'inch', 'METRIC': 'metric'}[k['OUTPUT-UNITS']] if 'OUTPUT-UNITS' in k else d.units,
         (int(k['INTEGER-PLACES']), int(k['DECIMAL-PLACES'])) if 'INTEGER-PLACES' in k else d.format)
    g = (got.notation, got.units, tuple(got.format))
    require(g == (w[0], w[1], tuple(w[2])), 'params', '%r read as %r instead of %r' % (case['rows'], g, w))
    rest = [getattr(got, a) for a in ('zero_suppression', 'zeros', 'angle_units')], [getattr(d, a) for a in ('zero_suppression', 'zeros', 'angle_units')]
    require(rest[0] == rest[1], 'params_default', lambda: '%r: zero suppression, zeros and angles are %r instead of the defaults %r' % (case['rows'], rest[0], rest[1]))


def judge_program(case, mon):
    from gerber import excellon, excellon_tool
    from gerber.cam import FileSettings
    from gerber.excellon_statements import ExcellonTool
    units = case['units']
    settings = FileSettings(units=units, format=(3, 3), zeros='leading')
    if case['via'] == 'objects':
        ext = dict((n, ExcellonTool(None, number=n, diameter=float(d), plated=p)) for n, d, p in case['ext'])
        plating = dict((n, p) for n, d, p in case['ext'])
    else:
        unit = 'MM' if units == 'metric' else 'MILS'
        rows = []
        plating = {}
        for n, d, p in case['ext']:
            plating[n] = p or 'optional'
            q = Fraction(d) * (1 if units == 'metric' else 1000)
            rows.append('Holesize %d. = %s Tolerance = +0.0/-0.0 %s %s Quantity = 1' % (
                n, '%.4f' % q, {'plated': 'PLATED', 'nonplated': 'NON_PLATED', 'optional': 'OPTIONAL'}[plating[n]], unit))
        ext = excellon_tool.loads('\n'.join(rows), settings)
        require(sorted(ext) == sorted(plating), 'tools', 'read %r from %r' % (sorted(ext), rows))
    table = dict((n, (t.number, t.diameter, t.plated)) for n, t in ext.items())

    lines = ['M48', 'INCH,LZ' if units == 'inch' else 'METRIC,LZ']
    want = {}
    state = None
    for (n, d), typ in zip(case['own'], case['type']):
        if typ:
            state = {'PLATED': 'plated', 'NON_PLATED': 'nonplated'}[typ]
            lines.append(';TYPE=' + typ)
        lines.append('T%02dC%s' % (n, d))
        want[n] = (float(d), state or plating.get(n))
        if not state and plating.get(n):
            mon.count('plating_merged')
    lines.append('%')
    cur = None
    expect = []
    for n, x, y in case['hits']:
        if n not in want:
            if n in ext:
                want[n] = (ext[n].diameter, plating[n])
                mon.count('tool:table')
            else:
                q = (16 + 8 * n) / 1000.
                want[n] = (q if units == 'inch' else q * 25.4, state)
                mon.count('tool:default')
        elif n != cur:
            mon.count('tool:own')
        if n != cur:
            lines.append('T%02d' % n)
            cur = n
        lines.append('X%s%03d.%03dY%s%03d.%03d' % ('-' if x < 0 else '', abs(x) // 10, abs(x) % 10 * 100, '-' if y < 0 else '', abs(y) // 10, abs(y) % 10 * 100))
        expect.append((n, x / 10., y / 10.))
    lines.append('M30')
    text = '\n'.join(lines) + '\n'

    def check(f, unit, shift, what):
        k = (1 if unit == units else 25.4 if unit == 'metric' else 1 / 25.4)
        require(len(f.hits) == len(expect), 'hits', '%d hits instead of %d' % (len(f.hits), len(expect)))
        for h, p, (n, x, y) in zip(f.hits, f.primitives, expect):
            w = (want[n][0] * k, x * k + shift[0], y * k + shift[1])
            g = (p.diameter, p.position[0], p.position[1])
            require(h.tool.number == n and all(close(a, b) or abs(a - b) < 1e-9 for a, b in zip(g, w)), what,
                    lambda: '%s: hole with tool %d is %r instead of %r (%r)' % (text, n, g, w, table))
            require(h.tool.plated == want[n][1], what + '_plated', lambda: '%s: tool %d has plating %r instead of %r (%r)' % (
                text, n, h.tool.plated, want[n][1], table))

    mon.count('program')
    a = excellon.loads(text, settings=settings, tools=ext)
    b = excellon.loads(text, settings=settings, tools=ext)
    check(a, units, (0, 0), 'tool')
    check(b, units, (0, 0), 'tool')
    unit, shift = units, [0., 0.]
    for e in case['edits']:
        mon.count('shared_table')
        if e in ('inch', 'metric'):
            (a.to_inch if e == 'inch' else a.to_metric)()
            k = 1 if unit == e else 25.4 if e == 'metric' else 1 / 25.4
            unit, shift = e, [v * k for v in shift]
        elif e == 'offset':
            a.offset(1.5, -2.25)
            shift = [shift[0] + 1.5, shift[1] - 2.25]
        elif e == 'update':
            n = case['hits'][0][0]
            old = b.tools[n].feed_rate
            a.update_tool(n, feed_rate=17)
            require(b.tools[n].feed_rate == old, 'shared_feed', 'the feed rate of the other file changed')
        else:
            check(excellon.loads(text, settings=settings, tools=ext), units, (0, 0), 'later_read')
        check(a, unit, shift, 'edited')
        check(b, units, (0, 0), 'other_file')
        now = dict((n, (t.number, t.diameter, t.plated)) for n, t in ext.items())
        require(now == table, 'table_changed', '%s: the shared table changed from %r to %r' % (e, table, now))


def judge(case, mon):
    {'table': judge_table, 'report': judge_report, 'params': judge_params, 'program': judge_program}[case['kind']](case, mon)
