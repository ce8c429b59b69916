"""C15: a netlist file yields exactly the records written in it."""
import math
from mon.core import require

PID = 'C15'
QUICK, THOROUGH = 24000, 400000
RULE = ('a case is an IPC-D-356 file made from a list of records (parameters, units, aliases, comments, test records, conductors, outlines, adjacency, end of file) '
        'laid out in the columns of the format, with optional fields, early line ends, continuation lines, line endings and blank lines; '
        'every record read is compared field by field with the one written; non-trivial when it holds a test, conductor, outline or adjacency record')
REQUIRED = {'test': 20000, 'conductor': 2000, 'outline': 2000, 'adjacency': 1500, 'continuation': 1000, 'continuation_blank_at_end': 300, 'alias': 1500, 'radians': 1000, 'metric': 3000,
            'early_end': 5000, 'negative': 5000, 'long_id': 1000, 'no_pin': 1000, 'from_disk': 1000}
ASSUMPTIONS = ['test records reach at least to the Y coordinate', 'a rotation is a whole number of the declared angle unit',
               'a reference designator longer than its field is followed by a dash and a pin']
NAMES = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz0123456789$+-/_#.~()'
FEAT = {'1': 'through-hole', '2': 'smt', '3': 'tooling-feature', '4': 'tooling-hole', '6': 'non-plated-tooling-hole'}
ACCESS = ['both', 'top', 'layer2', 'layer3', 'layer4', 'layer5', 'layer6', 'layer7', 'bottom']
SM = ['none', 'primary side', 'secondary side', 'both']


def name(rng, n, chars=NAMES):
    return ''.join(rng.choice(chars) for _ in range(rng.randint(1, n)))


def gen(rng, i):
    nets = [name(rng, rng.choice([2, 6, 14])) for _ in range(rng.randint(1, 5))]
    recs = [['P', 'JOB', name(rng, 8)]]
    alias = []
    style = {'pad': rng.choice(['0', ' ']), 'eol': rng.choice(['\n', '\n', '\r\n']), 'blank': rng.random() < .2, 'at_end': rng.random() < .3, 'trail': rng.choice([0, 0, 1, 80]),
             'final': rng.random() < .8, 'disk': rng.random() < .15, 'pspace': rng.choice(['  ', '  ', ' '])}
    for _ in range(rng.randint(0, 2)):
        recs.append(rng.choice([['P', 'VER', 'IPC-D-356A'], ['P', 'TITLE', 'some board 7'], ['P', 'DIM', 'N'], ['P', 'CODE', '00']]))
    if rng.random() < .85:
        recs.append(['P', 'UNITS', rng.choice(['CUST', 'CUST 0', 'CUST 1', 'CUST 1', 'CUST 2'])])
    for k in range(rng.choice([0, 0, 1, 3])):
        alias.append('NNAME%d' % (k + rng.choice([0, 1, 100])))
        recs.append(['P', alias[-1], 'A_LONG_NET_NAME_' + name(rng, 20, NAMES[:30])])
    for _ in range(rng.choice([0, 1, 3, 8, 14])):
        r = rng.random()
        # (a netlist may also name an alias nobody defined: it is a name like any other)
        net = lambda: rng.choice(nets + nets + alias + ['NNAME77'])
        if r < .62:
            recs.append(['T', test(rng, net)])
        elif r < .72:
            recs.append(['C', rng.choice(['', 'hello', '  spaced   text', 'C', '317GND   not a record', name(rng, 10)])])
        elif r < .79:
            recs.append(['O', rng.choice(['BOARD_EDGE', 'PANEL_EDGE', 'SCORE_LINE', 'OTHER_FAB']), points(rng), rng.choice([0, 0, 1, 2])])
        elif r < .87:
            recs.append(['W', net(), rng.randint(1, 12), [rng.randint(1, 500), rng.choice([None, None, rng.randint(1, 500)])],
                         [points(rng) for _ in range(rng.choice([1, 1, 2, 3]))], rng.choice([0, 0, 1, 2])])
        elif r < .94:
            recs.append(['A', net(), [net() for _ in range(rng.choice([0, 1, 2, 4]))], rng.choice([0, 0, 1])])
        else:
            recs.append(['P', 'UNITS', rng.choice(['CUST 0', 'CUST 1', 'CUST 2'])])
    if rng.random() < .9:
        recs.append(['9'])
    return {'recs': recs, 'style': style}


def coord(rng):
    v = rng.choice([0, rng.randint(0, 99), rng.randint(0, 30000), rng.randint(0, 99999), 999999])
    return -v if rng.random() < .3 else v


def points(rng):
    pts = [['xy', coord(rng), coord(rng)]]
    for _ in range(rng.choice([0, 1, 2, 4])):
        pts.append([rng.choice(['xy', 'xy', 'x', 'y']), coord(rng), coord(rng)])
    return pts


def test(rng, net):
    t = {'feature': rng.choice('1112223466'[:9]), 'net': rng.choice([net, net, net, lambda: ''])(),
         'id': rng.choice(['VIA', 'VIA', name(rng, 6), name(rng, 6), name(rng, 6), '']), 'pin': rng.choice([None, name(rng, 4), name(rng, 4), '1']),
         'mid': rng.random() < .2, 'dia': rng.choice([None, rng.randint(0, 999), rng.randint(0, 9999)]), 'plate': rng.choice('PPU '),
         'access': rng.randint(0, 8), 'x': coord(rng), 'y': coord(rng), 'w': rng.choice([None, rng.randint(0, 999), 9999]), 'h': None, 'rot': None, 'sm': None, 'info': None,
         'sign': rng.choice(['space', 'plus', 'right'])}
    if rng.random() < .06:
        t['id'] = name(rng, 6, NAMES[:26]).ljust(7, 'Q') + name(rng, 6, NAMES[:26])
        t['pin'] = t['pin'] or '3'
    if not t['id']:
        t['pin'] = None
    if t['w'] is not None:
        t['h'] = rng.choice([None, rng.randint(0, 999), 1234])
        t['rot'] = rng.choice([None, rng.choice([0, 6, 90, 180, 270, rng.randint(0, 359)])])
    t['sm'] = rng.choice([None, None, 0, 1, 2, 3])
    t['info'] = rng.choice([None, None, None, name(rng, 5)])
    return t


def num(v, n, pad, sign=None):
    if sign is None:
        return ('%d' % v).rjust(n, '0' if pad == '0' else ' ')
    s = '-' if v < 0 else ('+' if sign == 'plus' else ' ')
    if sign == 'right' and pad == ' ':
        return (('-' if v < 0 else '') + '%d' % abs(v)).rjust(n)
    return s + ('%d' % abs(v)).rjust(n - 1, '0')


def test_line(t, pad):
    s = '3%s7' % t['feature'] + t['net'].ljust(14) + '   ' + t['id'].ljust(6)
    s += ('-' + t['pin'].ljust(4)) if t['pin'] else '     '
    s += 'M' if t['mid'] else ' '
    s += ('D' + num(t['dia'], 4, pad)) if t['dia'] is not None else '     '
    s += t['plate'] + 'A%02d' % t['access'] + 'X' + num(t['x'], 7, pad, t['sign']) + 'Y' + num(t['y'], 7, pad, t['sign'])
    s += ('X' + num(t['w'], 4, pad)) if t['w'] is not None else '     '
    s += ('Y' + num(t['h'], 4, pad)) if t['h'] is not None else '     '
    s += ('R' + num(t['rot'], 3, pad)) if t['rot'] is not None else '    '
    s += ' ' + ('S%d' % t['sm'] if t['sm'] is not None else '  ')
    s += ' ' + (t['info'] or '')
    return s.rstrip()


def pts_text(pts):
    return ' '.join({'xy': 'X%dY%d' % (x, y), 'x': 'X%d' % x, 'y': 'Y%d' % y}[k] for k, x, y in pts)


def wrap(text, code, n, at_end=False):
    """Cut a text at blanks into 1 + n lines."""
    words = text.split(' ')
    if n == 0 or len(words) < 4:
        return [text]
    lines = []
    # the first two words stay together with the record code
    rest = [w for w in words]
    head = []
    while len([w for w in head if w]) < 2:
        head.append(rest.pop(0))
    k = max(1, len(rest) // (n + 1))
    # the blank between two words is at the end of a line or at the start of the next
    end, start = (' ', '') if at_end else ('', ' ')
    lines.append(' '.join(head + rest[:k]) + end)
    rest = rest[k:]
    while rest:
        k2 = max(1, k)
        lines.append('0' + code[1:] + start + ' '.join(rest[:k2]) + end)
        rest = rest[k2:]
    return lines


def lines_of(case, mon=None):
    out = []
    st = case['style']
    for r in case['recs']:
        k = r[0]
        if k == 'P':
            out.append('P' + st['pspace'] + r[1] + ' ' + r[2])
        elif k == 'C':
            out.append(('C  ' + r[1]).rstrip())
        elif k == 'T':
            out.append(test_line(r[1], st['pad']))
        elif k == 'O':
            out += wrap('389' + r[1].ljust(14) + '    ' + pts_text(r[2]), '389', r[3], st.get('at_end'))
        elif k == 'W':
            ap = 'X%04d' % r[3][0] + ('Y%04d' % r[3][1] if r[3][1] is not None else '')
            out += wrap('378' + r[1].ljust(14) + ' L%02d ' % r[2] + ap + ' ' + ' * '.join(pts_text(p) for p in r[4]).replace(' * ', '* '), '378', r[5], st.get('at_end'))
        elif k == 'A':
            out += wrap('379' + r[1] + ''.join(' ' + n for n in r[2]), '379', r[3], st.get('at_end'))
        elif k == '9':
            out.append('999')
    if mon is not None:
        n = sum(1 for ln in out if ln[:1] == '0')
        mon.count('continuation', n)
        if st.get('at_end'):
            mon.count('continuation_blank_at_end', n)
    return out


def text_of(case, mon=None):
    st = case['style']
    out = []
    for k, ln in enumerate(lines_of(case, mon)):
        out.append(ln.ljust(st['trail']) if st['trail'] == 80 else ln + ' ' * st['trail'])
        if st['blank'] and k % 3 == 1:
            out.append('')
    # (a blank line would separate a record from its continuation)
    fixed = []
    for ln in out:
        if ln[:1] == '0' and fixed and fixed[-1] == '':
            fixed.pop()
        fixed.append(ln)
    return st['eol'].join(fixed) + (st['eol'] if st['final'] else '')


def expected(case):
    units, angle = 'inch', 'degrees'
    names = {}
    out = []
    full = lambda n: names.get(n, n)
    for r in case['recs']:
        sc = 1e-4 if units == 'inch' else 1e-3
        k = r[0]
        if k == 'P':
            if r[1] == 'UNITS':
                units, angle = {'0': ('inch', 'degrees'), '1': ('metric', 'degrees'), '2': ('inch', 'radians')}[(r[2] + ' 0').split()[1]]
            if r[1].startswith('NNAME'):
                names[r[1]] = r[2]
            out.append(('parameter', {'parameter': r[1], 'value': r[2]}))
        elif k == 'C':
            out.append(('comment', {'comment': r[1].strip()}))
        elif k == 'T':
            t = r[1]
            rot = t['rot']
            if rot is not None and angle == 'radians':
                rot = math.degrees(rot)
            out.append(('test', {
                'feature_type': FEAT[t['feature']], 'net_name': full(t['net']), 'id': t['id'], 'pin': t['pin'], 'location': 'middle' if t['mid'] else 'end',
                'hole_diameter': None if t['dia'] is None else t['dia'] * sc, 'plated': t['plate'] == 'P', 'access': ACCESS[t['access']],
                'x_coord': t['x'] * sc, 'y_coord': t['y'] * sc, 'rect_x': None if t['w'] is None else t['w'] * sc,
                'rect_y': None if t['h'] is None else t['h'] * sc, 'rect_rotation': rot, 'soldermask_info': None if t['sm'] is None else SM[t['sm']],
                'optional_info': t['info']}))
        elif k == 'O':
            out.append(('outline', {'type': r[1], 'points': walk(r[2], sc)}))
        elif k == 'W':
            out.append(('conductor', {'net_name': full(r[1]), 'layer': r[2], 'aperture': [v if v is None else v * sc for v in r[3]],
                                      'shapes': [walk(p, sc) for p in r[4]]}))
        elif k == 'A':
            out.append(('adjacency', {'net': full(r[1]), 'adjacent_nets': [full(n) for n in r[2]]}))
        else:
            out.append(('eof', {}))
    return out, units, angle


def walk(pts, sc):
    x = y = 0
    out = []
    for k, a, b in pts:
        x = a if 'x' in k else x
        y = b if 'y' in k else y
        out.append([x * sc, y * sc])
    return out


def same(a, b):
    if isinstance(b, float) or isinstance(b, int) and not isinstance(b, bool):
        return isinstance(a, (int, float)) and abs(a - b) <= 1e-9 * (1 + abs(b))
    if isinstance(b, list):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return a == b


KIND = {'IPC356_Comment': 'comment', 'IPC356_Parameter': 'parameter', 'IPC356_TestRecord': 'test', 'IPC356_Outline': 'outline', 'IPC356_Conductor': 'conductor',
        'IPC356_Adjacency': 'adjacency', 'IPC356_EndOfFile': 'eof'}
FIELDS_OPT = {'optional_info'}


def signature(case):
    return repr(case['recs']) if any(r[0] in 'TOWA' for r in case['recs']) else None


def judge(case, mon):
    import gerber
    from gerber import ipc356
    text = text_of(case, mon)
    if case['style']['disk']:
        mon.count('from_disk')
        with open('net.ipc', 'wb') as f:
            f.write(text.encode())
        nl = gerber.read('net.ipc') if len(text) % 2 else ipc356.read('net.ipc')
    else:
        nl = gerber.loads(text) if len(text) % 2 else ipc356.loads(text)
    want, units, angle = expected(case)
    show = lambda: ' in\n' + text
    require(isinstance(nl, ipc356.IPCNetlist), 'kind', lambda: repr(nl))
    got = nl.statements
    kinds = [KIND.get(type(s).__name__) for s in got]
    require(kinds == [k for k, _ in want], 'records', lambda: 'records %r, expected %r%s' % (kinds, [k for k, _ in want], show()))
    for r in case['recs']:
        if r[0] == 'T':
            t = r[1]
            mon.count('early_end', t['info'] is None)
            mon.count('negative', t['x'] < 0 or t['y'] < 0)
            mon.count('long_id', len(t['id']) > 6)
            mon.count('no_pin', t['pin'] is None)
    for s, (k, f) in zip(got, want):
        mon.count(k)
        for a, v in f.items():
            g = getattr(s, a, None)
            if a == 'optional_info':
                g = (g or '').strip() or None
            require(same(g, v), '%s:%s' % (k, a), lambda: '%s of %s is %r, expected %r%s' % (a, k, g, v, show()))
        if k == 'test' and f['rect_rotation'] is not None:
            mon.seen('rotation', f['rect_rotation'])
    mon.count('radians', angle == 'radians')
    mon.count('metric', units == 'metric')
    mon.count('alias', sum(1 for r in case['recs'] if (r[0] == 'T' and r[1]['net'].startswith('NNAME')) or (r[0] in 'WA' and r[1].startswith('NNAME'))))
    require((nl.units, nl.angle_units) == (units, angle) and nl.settings.units == units, 'units', lambda: repr((nl.units, nl.angle_units)) + show())
    # groups
    by = lambda k: [s for s, (q, _) in zip(got, want) if q == k]
    for attr, k in (('comments', 'comment'), ('parameters', 'parameter'), ('test_records', 'test'), ('outlines', 'outline'), ('adjacency_records', 'adjacency')):
        g = list(getattr(nl, attr))
        require(len(g) == len(by(k)) and all(p is q for p, q in zip(g, by(k))), 'group:' + attr, lambda: '%s: %r%s' % (attr, g, show()))
    tests = [f for k, f in want if k == 'test']
    nets = nl.nets
    names = [n.name for n in nets]
    require(len(names) == len(set(names)) and set(names) - {''} == set(t['net_name'] for t in tests) - {''}, 'nets', lambda: repr(names) + show())
    adj = [f for k, f in want if k == 'adjacency']
    for n in nets:
        w = set()
        for a in adj:
            if a['net'] == n.name:
                w |= set(a['adjacent_nets'])
            if n.name in a['adjacent_nets']:
                w.add(a['net'])
        require(set(n.adjacent_nets) - {n.name} == w - {n.name}, 'adjacent', lambda: 'nets next to %r: %r, expected %r%s' % (n.name, n.adjacent_nets, w, show()))
    comps = list(nl.components)
    require(len(comps) == len(set(comps)) and set(comps) - {''} == set(t['id'] for t in tests) - {'', 'VIA'}, 'components', lambda: repr(comps) + show())
    require(len(nl.vias) == sum(1 for t in tests if t['id'] == 'VIA'), 'vias', lambda: repr(nl.vias) + show())
    # image objects
    prims = list(nl.primitives)
    require(len(prims) == len(tests), 'objects', lambda: '%d objects for %d records%s' % (len(prims), len(tests), show()))
    for p, t in zip(prims, tests):
        require(same(list(p.position), [t['x_coord'], t['y_coord']]) and p.net_name == t['net_name'] and p.layer == t['access'], 'object',
                lambda: '%r %r %r, expected %r%s' % (p.position, p.net_name, p.layer, t, show()))
    # rendering one side selects the records accessible from it
    for side, ok in (('top', ('top', 'both')), ('bottom', ('bottom', 'both')), ('both', ('top', 'bottom', 'both'))):
        seen = []

        class Ctx(object):
            def render(self, p):
                seen.append(p)
        nl.render(Ctx(), layer=side)
        exp = [p for p, t in zip(prims, tests) if t['access'] in ok]
        require(len(seen) == len(exp) and all(p is q for p, q in zip(seen, exp)), 'side', lambda: '%s: %d of %d%s' % (side, len(seen), len(exp), show()))
