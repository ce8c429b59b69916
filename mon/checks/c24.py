"""C24: detection of undeclared drill formats."""
import os
import re
import tempfile
from mon import exc, gbr, snap
from mon.core import require

PID = 'C24'
QUICK, THOROUGH = 10000, 120000
RULE = ('a case is a random Excellon program with a random subset of its declarations (units, digits, zeros) given in any of the ways the format '
        'knows; the detected settings, the design read with them, with them given explicitly and from a file are compared with the declarations and '
        'with a twin that spells out every coordinate; non-trivial when something is undeclared and there are at least two holes')
REQUIRED = {'undeclared_format': 1500, 'undeclared_zeros': 1000, 'declared_both': 500, 'twins': 1500, 'files': 300, 'all_decimals': 200,
            'plausible': 500, 'plausible_wrong_alternatives': 500, 'no_diameter': 100, 'stray_comment': 100, 'hits': 20000,
            'fdecl:none': 1000, 'fdecl:comment': 300, 'fdecl:unit': 100, 'fdecl:fmat': 100, 'fdecl:twice': 100,
            'zdecl:unit': 1000, 'zdecl:twice': 100, 'zdecl:m': 500, 'zdecl:nothing': 100}
ASSUMPTIONS = ['INCH or METRIC without LZ or TZ is not generated: the file format does not say what it means',
               'where neither the digits nor the zeros are declared the file is read as its detected settings say; the right ones are only required of '
               'files that look like a board of about 8 square inches, as the detection assumes, under exactly one reading']
SEEN = {}
OPTIONS = [((a, b), z) for a, b in ((2, 4), (2, 5), (3, 3)) for z in ('leading', 'trailing')]


def gen(rng, i):
    if rng.random() < .25:
        return gen_plausible(rng)
    prog = exc.gen_prog(rng, given=False)
    prog.pop('allegro', None)
    fdecl = rng.choice(['none', 'none', 'comment', 'unit', 'fmat', 'twice'])
    if rng.random() < .2:
        for op in prog['ops']:
            if op[0] in ('xy', 'slot', 'G00', 'G01', 'R'):
                op[-1] = 1
        decimals = True
    else:
        decimals = False
    if fdecl == 'unit' and tuple(prog['fmt']) not in exc.UNIT_FORMATS or fdecl == 'fmat' and prog['fmt'] != [2, 4]:
        fdecl = 'comment'
    zdecl = 'unit' if fdecl == 'unit' else rng.choice(['unit', 'unit', 'twice', 'm', 'm', 'nothing'])
    if zdecl == 'nothing':
        prog['units'] = 'inch'
    case = {'prog': prog, 'fdecl': fdecl, 'zdecl': zdecl, 'decimals': decimals, 'file': rng.random() < .15, 'order': rng.random() < .5,
            'stray': rng.choice(['; FILE_FORMAT unknown', ';FILE_FORMAT', ';no FILE_FORMAT=given']) if rng.random() < .06 else None,
            'nodia': rng.random() < .06, 'plausible': None}
    return case


def gen_plausible(rng):
    """A board of about 8 square inches under one reading only."""
    fmt = rng.choice([(2, 4), (2, 4), (2, 5), (3, 3)])
    zeros = rng.choice(['leading', 'trailing'])
    b = fmt[1]
    w = rng.uniform(1.6, 5)
    h = rng.uniform(7.7, 8.2) / w
    x0, y0 = rng.uniform(0, 2), rng.uniform(0, 2)
    pts = [(x0, y0), (x0 + w, y0 + h)] + [(x0 + rng.random() * w, y0 + rng.random() * h) for _ in range(rng.randint(3, 12))]
    prog = {'units': 'inch', 'fmt': list(fmt), 'zeros': zeros, 'decl': 'comment', 'head': [], 'mid': [], 'end': '%', 'pad': True,
            'tools': [[1, gbr.dec(rng, .02, .06, 4), ['', '']]], 'ops': [['T', 1]]}
    step = rng.choice([1, 1, 5, 10, 50]) if b > 3 else 1
    for x, y in pts:
        prog['ops'].append(['xy', int(round(x * 10 ** b / step)) * step, int(round(y * 10 ** b / step)) * step, 0])
    f, z = rng.choice([('none', 'm'), ('none', 'm'), ('none', 'nothing'), ('none', 'unit'), ('comment', 'm')])
    return {'prog': prog, 'fdecl': f, 'zdecl': z, 'decimals': False, 'file': False, 'order': False, 'stray': None, 'nodia': False, 'plausible': True}


def signature(case):
    declared = case['fdecl'] != 'none' and case['zdecl'] in ('unit', 'twice')
    return repr(case) if not declared and len(exc.Ref(case['prog']).hits) > 1 else None


def text(case):
    prog = case['prog']
    a, b = prog['fmt']
    d = []
    unit = '%s,%s' % ('INCH' if prog['units'] == 'inch' else 'METRIC', 'LZ' if prog['zeros'] == 'leading' else 'TZ')
    if case['fdecl'] == 'unit':
        unit += ',' + exc.UNIT_FORMATS[(a, b)]
    if case['zdecl'] in ('unit', 'twice'):
        d.append(unit)
    if case['zdecl'] == 'twice':
        d.append('M72' if prog['units'] == 'inch' else 'M71')
        d.append(unit)
    if case['zdecl'] == 'm':
        d.append('M72' if prog['units'] == 'inch' else 'M71')
    c = ';FILE_FORMAT=%d:%d' % (a, b)
    e = {'comment': [c], 'twice': [c, c], 'fmat': ['FMAT,%d' % a]}.get(case['fdecl'], [])
    d = d + e if case['order'] else e + d
    if case['stray']:
        d.insert(0, case['stray'])
    tools = []
    for n, dia, extra in prog['tools']:
        t = 'T%0*d%s%s%s' % (2 if prog.get('pad', True) else 1, n, extra[0], 'C' + dia, extra[1])
        if case['nodia'] and n == 1:
            t = t.replace('C' + dia, '')
        tools.append(t)
    n = len(exc.header(prog))
    return '\n'.join(['M48'] + prog['head'] + d + prog.get('mid', []) + tools + [prog['end']] + exc.lines(prog)[n:]) + '\n'


def decode(s, fmt, zeros):
    """The number a string of digits stands for; None when it has too many."""
    if '.' in s:
        return s
    sign = '-' if s[0] == '-' else ''
    s = s.lstrip('+-')
    a, b = fmt
    if len(s) > a + b:
        return None
    s = s.ljust(a + b, '0') if zeros == 'leading' else s.rjust(a + b, '0')
    return sign + s[:a] + '.' + s[a:]


def spell(data, fmt, zeros):
    """The program with a decimal point in every coordinate."""
    out = []
    bad = []

    def sub(m):
        v = decode(m.group(2), fmt, zeros)
        if v is None:
            bad.append(m.group(0))
        return m.group(1) + (v or '0.')
    for line in data.split('\n'):
        if line[:1] in ('X', 'Y', 'R') or line[:3] in ('G00', 'G01'):
            line = re.sub(r'([XY])([-+]?[0-9.]+)', sub, line)
        out.append(line)
    return None if bad else '\n'.join(out)


def size(prog, fmt, zeros):
    """Width times height of the points of the program under a reading."""
    pts = []
    for op in prog['ops']:
        if op[0] == 'xy':
            v = [decode(exc.enc(c, prog, 0), fmt, zeros) for c in op[1:3]]
            if None in v:
                return None
            pts.append([float(c) for c in v])
    d = prog['tools'][0][1]
    return [max(p[k] for p in pts) - min(p[k] for p in pts) + float(d) for k in (0, 1)]


def hits(f):
    return [exc.obs(h) for h in f.hits]


def close(a, b, tol):
    if len(a) != len(b):
        return False
    for h, g in zip(a, b):
        if h[0] != g[0] or (h[1] is None) != (g[1] is None) or h[1] is not None and abs(h[1] - g[1]) > 1e-9:
            return False
        for p, q in zip(h[2:], g[2:]):
            if max(abs(p[0] - q[0]), abs(p[1] - q[1])) > tol * (1 + abs(p[0]) + abs(p[1])):
                return False
    return True


def judge(case, mon):
    import gerber
    from gerber import excellon
    from gerber.cam import FileSettings
    from gerber.excellon import detect_excellon_format
    prog = case['prog']
    data = text(case)
    fmt, zeros = tuple(prog['fmt']), prog['zeros']
    what = lambda: '%s/%s\n%s' % (case['fdecl'], case['zdecl'], data)
    ref = exc.Ref(prog)
    mon.count('fdecl:' + case['fdecl'])
    mon.count('zdecl:' + case['zdecl'])
    mon.count('hits', len(ref.hits))
    for k in ('nodia', 'stray'):
        if case[k]:
            mon.count('no_diameter' if k == 'nodia' else 'stray_comment')
    d = detect_excellon_format(data)
    require(set(d) == set(('format', 'zeros')) and d['zeros'] in ('leading', 'trailing') and len(d['format']) == 2
            and all(isinstance(v, int) and v >= 0 for v in d['format']), 'result', lambda: 'detected %r\n%s' % (d, what()))
    f = gerber.loads(data)
    fdeclared = case['fdecl'] != 'none'
    zdeclared = case['zdecl'] in ('unit', 'twice')
    mon.count('declared_both' if fdeclared and zdeclared else 'undeclared')
    got = (tuple(f.settings.format), f.settings.zeros)
    for name, g in (('detected', (tuple(d['format']), d['zeros'])), ('settings', got)):
        require(not fdeclared or g[0] == fmt, 'declared-format', lambda: '%s: format %r, the file declares %r\n%s' % (name, g[0], fmt, what()))
        require(not zdeclared or g[1] == zeros, 'declared-zeros', lambda: '%s: zeros %r, the file declares %r\n%s' % (name, g[1], zeros, what()))
    require(got == (tuple(d['format']), d['zeros']), 'used', lambda: 'detected %r, the design has %r\n%s' % (d, got, what()))
    require(f.settings.units == f.units == prog['units'], 'units', lambda: 'units %r, declared %r\n%s' % (f.settings.units, prog['units'], what()))
    if not fdeclared:
        mon.count('undeclared_format')
    if not zdeclared:
        mon.count('undeclared_zeros')
    # tools and number of holes
    table = dict((n, dia) for n, dia in ref.tools.items())
    require(set(f.tools) == set(table) and all(
        f.tools[n].diameter is None if case['nodia'] and n == 1 else f.tools[n].diameter is not None and abs(f.tools[n].diameter - table[n]) < 1e-9 for n in table),
        'tools', lambda: 'tools %r, expected %r\n%s' % (dict((n, t.diameter) for n, t in f.tools.items()), table, what()))
    h = hits(f)
    require([x[0] for x in h] == [x[0] for x in ref.hits] and [x.tool.number for x in f.hits] == ref.numbers, 'hits',
            lambda: '%d hits, expected %d\n%s' % (len(h), len(ref.hits), what()))
    # the same again, whatever was detected in between
    last = SEEN.get('data')
    if last is not None:
        require(detect_excellon_format(last[0]) == last[1], 'deterministic', lambda: 'detected %r first, then %r\n%s' % (last[1], detect_excellon_format(last[0]), last[0]))
    require(detect_excellon_format(data) == d, 'deterministic', lambda: 'detected %r first, then %r\n%s' % (d, detect_excellon_format(data), what()))
    SEEN['data'] = (data, d)
    # the settings given explicitly
    e = excellon.loads(data, settings=FileSettings(units=prog['units'], **d))
    # (holes without a diameter have no outlines or report)
    shot = snap.snap if not case['nodia'] else lambda g: [snap.pub(x) for x in (g.statements, g.tools, g.hits, g.units, g.settings)]
    require(shot(e) == shot(f), 'explicit', lambda: 'read with the detected settings %r given the design differs\n%s' % (d, what()))
    if case['file']:
        mon.count('files')
        fd, name = tempfile.mkstemp(suffix='.drl')
        try:
            os.write(fd, data.encode('utf-8'))
            os.close(fd)
            require(detect_excellon_format(filename=name) == d, 'file', lambda: 'detected %r in the file, %r in its text\n%s' % (detect_excellon_format(filename=name), d, what()))
            for g in (gerber.read(name), excellon.read(name)):
                require(hits(g) == h and (tuple(g.settings.format), g.settings.zeros, g.units) == got + (f.units,), 'file',
                        lambda: 'the design read from a file differs\n%s' % what())
        finally:
            os.unlink(name)
    tol = 1e-9
    if fdeclared and zdeclared or case['decimals']:
        if case['decimals']:
            mon.count('all_decimals')
        want = [(x[0], None if case['nodia'] and n == 1 else x[1]) + x[2:] for x, n in zip(ref.hits, ref.numbers)]
        require(close(h, want, tol), 'geometry', lambda: 'hits %r, expected %r\n%s' % (h, want, what()))
    twin = spell(data, *got)
    if twin is not None:
        mon.count('twins')
        t = gerber.loads(twin)
        require(close(h, hits(t), tol), 'reading', lambda: 'hits %r, under %r they are %r\n%s' % (h, got, hits(t), what()))
    if case['plausible']:
        opts = [(o, size(prog, *o)) for o in OPTIONS if (not fdeclared or o[0] == fmt) and (not zdeclared or o[1] == zeros)]
        right = size(prog, fmt, zeros)
        mon.count('plausible')
        area = len(f.hits) * (3.1416 * table[1] / 2) ** 2

        def wrong(s):
            q = s[0] * s[1]
            return q < 3 and abs(area / q - .25) > .05 or q > 40 and area / q < .2
        if all(s is not None for o, s in opts) and abs(right[0] * right[1] - 8) < .9 and all(
                max(abs(s[0] - right[0]), abs(s[1] - right[1])) < 1e-9 or wrong(s) for o, s in opts):
            mon.count('plausible_wrong_alternatives')
            require(close(h, ref.hits, tol), 'scale', lambda: 'detected %r for a board of %r in, it measures %r\n%s' % (d, right, size(prog, *got), what()))
