"""C31: single objects, statements, tools and hits rescale once and only once, and move as a whole."""
import copy
from mon import gbr, prims, macros
from mon.core import require
from mon.checks import c09, c23

PID = 'C31'
QUICK, THOROUGH = 32000, 400000
RULE = ('a case is one graphic object of any of 18 kinds (with holes and apertures), one Gerber or drill statement read from random text, a drill tool with the hits and slots made with it, or one macro element, '
        'with a history of 1-6 conversions, moves, queries and writes; all its fields are compared with the first ones scaled and moved; non-trivial with at least one real conversion')
GKINDS = {'AD:C': 'm', 'AD:R': 'm', 'AD:O': 'm', 'AD:P': 'p', 'AD:macro': '', 'OF': 'ab', 'coord': 'xyij', 'AM': None}
DKINDS = {'tool': ['diameter'], 'coord': ['x', 'y'], 'repeat': ['xdelta', 'ydelta'], 'slot': ['x_start', 'y_start', 'x_end', 'y_end'], 'M30': ['x', 'y'], 'select': [], 'feed': [], 'comment': [],
          'G90': [], 'G05': [], 'VER': [], 'FMAT': [], 'unit': 'unit', 'M71': 'unit'}
MOVES = {'coord': 'xy', 'slot': 'xyxy', 'M30': 'xy'}
REQUIRED = {'convert:real': 15000, 'convert:noop': 4000, 'move': 4000, 'reread': 1500, 'element': 1500, 'hits': 2000, 'hole': 300, 'shared_tool': 1000}
REQUIRED.update(('kind:' + k, 60) for k in prims.KINDS)
REQUIRED.update(('gerber ' + k, 80) for k in GKINDS if k != 'AM')
REQUIRED.update(('drill ' + k, 60) for k in DKINDS)
ASSUMPTIONS = ['scale factor (SF) statements and moves of arc offsets are left out: the tests fix their behaviour', 'macro elements have no unit of their own: every call converts them']
FIELDS = {'1': 'diameter position', '2': 'start end width', '20': 'start end width', '21': 'width height center', '22': 'width height lower_left', '4': 'start_point points', '5': 'diameter position',
          '6': 'position diameter ring_thickness gap crosshair_thickness crosshair_length', '7': 'position outer_diameter inner_diameter gap'}
OTHERS = {'1': 'exposure rotation', '2': 'exposure rotation', '20': 'exposure rotation', '21': 'exposure rotation', '22': 'exposure rotation', '4': 'exposure rotation', '5': 'exposure vertices rotation',
          '6': 'max_rings rotation', '7': 'rotation'}


def gen(rng, i):
    k = ['object', 'gerber', 'drill', 'hits', 'element', 'object', 'gerber', 'drill'][i % 8]
    case = {'kind': k}
    if k == 'object':
        case['model'] = prims.model(rng)
    elif k in ('gerber', 'drill'):
        kind = rng.choice([g for g in sorted(GKINDS) if g != 'AM'] if k == 'gerber' else sorted(DKINDS))
        fmt = rng.choice([f for f in c23.FMTS if f[0] <= 4 and f[1] <= 5])
        zs = rng.choice('LTD' if k == 'gerber' else 'LT')
        text, want = (c23.gerber if k == 'gerber' else c23.drill)(rng, kind, fmt, zs)
        case['stmt'] = {'lang': k, 'kind': kind, 'units': rng.choice(['inch', 'metric']), 'fmt': list(fmt), 'zs': zs, 'text': text, 'want': want}
    elif k == 'hits':
        case['units'] = rng.choice(['inch', 'metric'])
        case['diameters'] = [prims.length(rng) for _ in range(rng.randint(1, 2))]
        case['hits'] = [[rng.randrange(len(case['diameters'])), prims.point(rng), prims.point(rng) if rng.random() < .4 else None] for _ in range(rng.randint(1, 5))]
    else:
        e = macros.element(rng, lambda lo, hi, atleast=False: macros.n(rng, lo, hi), rng.choice('01'))
        if rng.random() < .4:
            e = macros.rescale(e, 10.)
        case['text'] = ','.join(e)
    steps = []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < .6 or k == 'element':
            steps.append([rng.choice(['to_inch', 'to_metric'])])
        elif r < .8:
            steps.append(['offset'] + c09.vector(rng))
        else:
            steps.append(['query'])
        if k == 'hits':
            # by which of the objects
            steps[-1].insert(1, rng.randrange(len(case['diameters']) + len(case['hits'])))
    case['steps'] = steps
    return case


def signature(case):
    return repr(case) if any(s[0].startswith('to_') for s in case['steps']) else None


def judge(case, mon):
    return globals()['judge_' + case['kind']](case, mon)


def factor(units, new):
    return 1.0 if units == new else 25.4 if new == 'metric' else 1 / 25.4


def count(mon, units, new):
    mon.count('convert:noop' if units == new else 'convert:real')


def close(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a))


# ---------------------------------------------------------------- graphic objects
def judge_object(case, mon):
    m = copy.deepcopy(case['model'])
    obj = prims.build(m)
    mon.count('kind:' + m['kind'])
    mon.count('hole', any(h in m or h in m.get('aperture', ()) for h in prims.HOLES))
    for s in case['steps']:
        if s[0] == 'query':
            obj.bounding_box, obj.vertices
        else:
            if s[0] == 'offset':
                mon.count('move')
            else:
                count(mon, m['units'], s[0][3:])
            prims.apply(obj, m, s)
        tol = 1e-9 * prims.scale_of(m)
        fresh = prims.build(m)
        a, b = c09.state(fresh, m), c09.state(obj, m)
        d = c09.same(a, b, tol)
        require(d is None, 'object', lambda: 'after %r: %s, where the values are those of a newly built %r' % (case['steps'], d, m))
        for n in prims.lengths(m):
            require(close(m[n], getattr(obj, n)), 'length', lambda: '%s is %r, expected %r after %r of %r' % (n, getattr(obj, n), m[n], case['steps'], case['model']))
        require(obj.units == m['units'], 'units', lambda: 'units %r, expected %r' % (obj.units, m['units']))
        if 'aperture' in m:
            ap = obj.aperture
            for n in prims.lengths(m['aperture']):
                require(close(m['aperture'][n], getattr(ap, n)), 'aperture', lambda: '%s of the aperture is %r, expected %r after %r of %r' % (n, getattr(ap, n), m['aperture'][n], case['steps'], case['model']))
            require(ap.units == m['units'], 'units', lambda: 'units of the aperture %r' % ap.units)
        for p in getattr(obj, 'primitives', None) or ():
            require(p.units == m['units'], 'units', lambda: 'units of a segment %r, expected %r' % (p.units, m['units']))


# ---------------------------------------------------------------- statements
def scaled(stmt, k, dx, dy):
    """The fields expected."""
    kind, want = stmt['kind'], dict(stmt['want'][1])
    if stmt['lang'] == 'gerber':
        how = GKINDS[kind]
        if how in ('m', 'p', ''):
            mods = want['modifiers'][0]
            keep = () if how == 'm' else (1, 2) if how == 'p' else range(len(mods))
            want['modifiers'] = [[v if j in keep else v * k for j, v in enumerate(mods)]]
            return want
        names = how
    else:
        names = DKINDS[kind]
        if names == 'unit':
            return want
    for n in names:
        if want.get(n) is not None:
            want[n] = want[n] * k
    return want


def judge_gerber(case, mon):
    judge_stmt(case, mon)


def judge_drill(case, mon):
    judge_stmt(case, mon)


def judge_stmt(case, mon):
    from gerber.cam import FileSettings
    stmt = case['stmt']
    lang, kind = stmt['lang'], stmt['kind']
    mon.count('%s %s' % (lang, kind))
    show = lambda: '%s statement %r under %r %s %s after %r' % (lang, stmt['text'], stmt['fmt'], stmt['zs'], stmt['units'], case['steps'])
    s = c23.one(stmt, stmt['text'], stmt['fmt'], stmt['zs'], show)
    name, base = stmt['want']
    want = dict(base)
    units = stmt['units']
    isunit = lang == 'drill' and DKINDS[kind] == 'unit'
    if isunit:
        units = base['units']
    for step in case['steps']:
        if step[0] == 'query':
            str(s)
            continue
        if step[0] == 'offset':
            # (the offsets of arcs and distances are not positions)
            if kind in ('coord', 'slot', 'M30') and (want.get('i') is None and want.get('j') is None):
                prims.shift(s, step[1], step[2])
                mon.count('move')
                for n in want:
                    if n in ('x', 'x_start', 'x_end') and want[n] is not None:
                        want[n] += step[1]
                    if n in ('y', 'y_start', 'y_end') and want[n] is not None:
                        want[n] += step[2]
        else:
            new = step[0][3:]
            count(mon, units, new)
            getattr(s, step[0])()
            k = factor(units, new)
            want = scaled(dict(stmt, want=[name, want]), k, 0, 0)
            units = new
            if isunit:
                want['units'] = units
        have = c23.fields(s)
        for n in want:
            require(n in have and close(want[n], have[n]), 'field', lambda: '%s is %r, not %r, for %s' % (n, have.get(n), want[n], show()))
        if kind == 'tool':
            require(s.settings.units == units, 'units', lambda: 'units of the tool %r: %s' % (s.settings.units, show()))
        elif hasattr(s, 'units') and (lang == 'gerber' or kind in ('coord', 'repeat', 'slot', 'M30', 'unit', 'M71')):
            require(s.units == units, 'units', lambda: 'units %r: %s' % (s.units, show()))
    # written in the units it has now
    if isunit or kind == 'OF' or kind == 'comment':
        return
    fmt, zs = (6, 7), 'L' if stmt['zs'] == 'D' else stmt['zs']
    vals = [v for v in want.values() if isinstance(v, float)]
    if any(abs(v) >= 1e6 for v in vals):
        return
    settings = FileSettings(units=units, format=fmt, zero_suppression={'L': 'leading', 'T': 'trailing'}[zs])
    out = s.to_gerber(settings) if lang == 'gerber' else s.to_excellon(settings)
    mon.count('reread')
    t = c23.one(dict(stmt, units=units), out, fmt, zs, show)
    have = c23.fields(t)
    for n in want:
        if n in ('function', 'op', 'mode'):
            continue
        w, h = want[n], have.get(n)
        if n in ('xdelta', 'ydelta'):
            # (no distance is none)
            w, h = w or 0.0, h or 0.0
        ok = close(w, h, 1e-9) or (isinstance(w, float) and isinstance(h, float) and abs(w - h) <= .51e-7)
        require(ok, 'written', lambda: '%s is %r, not %r, when read from %r, written for %s' % (n, h, w, out, show()))


# ---------------------------------------------------------------- tools and hits
def judge_hits(case, mon):
    from gerber.excellon import DrillHit, DrillSlot
    from gerber.excellon_statements import ExcellonTool
    from gerber.cam import FileSettings
    n = len(case['diameters'])
    tools = [ExcellonTool(FileSettings(units=case['units'], format=(3, 4)), number=j + 1, diameter=d) for j, d in enumerate(case['diameters'])]
    model = [{'units': case['units'], 'd': d} for d in case['diameters']]
    hits = [DrillHit(tools[t], tuple(p)) if q is None else DrillSlot(tools[t], tuple(p), tuple(q), DrillSlot.TYPE_ROUT if len(case['hits']) % 2 else DrillSlot.TYPE_G85) for t, p, q in case['hits']]
    pos = [[list(p)] + ([list(q)] if q else []) for t, p, q in case['hits']]
    mon.count('hits', len(hits))
    mon.count('shared_tool', len(set(t for t, _, _ in case['hits'])) < len(hits))
    show = lambda: '%r' % (case,)
    for s in case['steps']:
        w = s[1]
        t = w if w < n else case['hits'][w - n][0]
        if s[0] == 'offset':
            if w >= n:
                prims.shift(hits[w - n], s[2], s[3])
                mon.count('move')
                pos[w - n] = [[p[0] + s[2], p[1] + s[3]] for p in pos[w - n]]
        elif s[0] == 'query':
            if w >= n:
                hits[w - n].bounding_box, str(hits[w - n]) if case['hits'][w - n][2] is None else None
        else:
            # converting a tool, or a hit made with it, converts all of its hits
            new = s[0][3:]
            count(mon, model[t]['units'], new)
            getattr(tools[w] if w < n else hits[w - n], s[0])()
            k = factor(model[t]['units'], new)
            model[t]['units'] = new
            model[t]['d'] *= k
            for j, (u, _, _) in enumerate(case['hits']):
                if u == t:
                    pos[j] = [[v * k for v in p] for p in pos[j]]
        if s[0] == 'query' and w < n:
            continue
        for tool, m in zip(tools, model):
            require(close(m['d'], tool.diameter) and tool.settings.units == m['units'], 'tool', lambda: 'tool %d is %r %s, expected %r, in %s' % (tool.number, tool.diameter, tool.settings.units, m, show()))
        # (some of the hits are not asked for until the end)
        for j, h in enumerate(hits):
            if (j + len(case['steps'])) % 3 == 0 and s is not case['steps'][-1]:
                continue
            got = [h.position] if case['hits'][j][2] is None else [h.start, h.end]
            require(close(pos[j], [list(p) for p in got]), 'hit', lambda: 'hit %d at %r, expected %r, in %s' % (j, got, pos[j], show()))
            r = model[case['hits'][j][0]]['d'] / 2
            xs, ys = zip(*pos[j])
            box = ((min(xs) - r, max(xs) + r), (min(ys) - r, max(ys) + r))
            require(close(box, h.bounding_box), 'box', lambda: 'box %r of hit %d, expected %r, in %s' % (h.bounding_box, j, box, show()))


# ---------------------------------------------------------------- macro elements
def judge_element(case, mon):
    from gerber import am_statements as am
    code = case['text'].split(',')[0]
    cls = {'1': am.AMCirclePrimitive, '2': am.AMVectorLinePrimitive, '20': am.AMVectorLinePrimitive, '21': am.AMCenterLinePrimitive, '22': am.AMLowerLeftLinePrimitive, '4': am.AMOutlinePrimitive,
           '5': am.AMPolygonPrimitive, '6': am.AMMoirePrimitive, '7': am.AMThermalPrimitive}[code]
    e = cls.from_gerber(case['text'])
    twin = cls.from_gerber(case['text'])
    mon.count('element')
    mon.seen('code', code)
    f = 1.0
    for s in case['steps']:
        getattr(e, s[0])()
        mon.count('convert:real')
        f *= 25.4 if s[0] == 'to_metric' else 1 / 25.4
        for n in FIELDS[code].split():
            a, b = mul(getattr(twin, n), f), getattr(e, n)
            require(close(a, b, 1e-8) or f < 1 and close(a, b, 1e-8 * f), 'element', lambda: '%s is %r, expected %r after %r of %r' % (n, b, a, case['steps'], case['text']))
        for n in OTHERS[code].split():
            if hasattr(twin, n):
                require(getattr(twin, n) == getattr(e, n), 'element', lambda: '%s is %r, expected %r after %r of %r' % (n, getattr(e, n), getattr(twin, n), case['steps'], case['text']))
    # the text written describes the converted element
    g = cls.from_gerber(e.to_gerber().rstrip('*\n'))
    for n in FIELDS[code].split():
        a, b = getattr(e, n), getattr(g, n)
        require(close(a, b, 2e-4 if f < 1 else 1e-5), 'element-written', lambda: '%s is %r, expected %r in %r written after %r of %r' % (n, b, a, e.to_gerber(), case['steps'], case['text']))


def mul(v, f):
    return [mul(x, f) for x in v] if isinstance(v, (list, tuple)) else v * f
