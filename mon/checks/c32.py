"""C32: objects answer for what they are now and compare by value."""
import copy
import math
from mon import gbr, prims, macros
from mon.core import require
from mon.checks import c09, c23

PID = 'C32'
QUICK, THOROUGH = 24000, 300000
RULE = ('a case is a graphic object of any of 18 kinds with a history of changes after which everything it reports (vertices, segments, radii, angles, corners, parts, box) is compared with the model and with a new object; '
        'or two objects, statements or macro elements made alike or with one difference, one of them asked for its values, compared in both directions; or two shapes, macros or tools asked for equivalence; '
        'non-trivial with a change or a difference')
KINDS = ['derived', 'derived', 'equal', 'equal', 'equivalent', 'group', 'statement', 'element', 'tool', 'layers']
REQUIRED = {'derived': 5000, 'segments': 300, 'subshapes': 100, 'equal:same': 3000, 'equal:different': 1500, 'asked': 1000, 'equivalent:yes': 300, 'equivalent:no': 300, 'group:yes': 150, 'group:no': 100,
            'statement:same': 400, 'statement:different': 300, 'element:same': 400, 'element:different': 200, 'tool:yes': 150, 'tool:no': 150, 'layers': 500, 'restored': 300}
ASSUMPTIONS = ['equivalence of shapes is judged up to 5e-7 and from 1e-5 on', 'drill statements have an identity of their own and are not compared']
# what an object of each kind reports besides its parameters
ALL = ['bounding_box', 'bounding_box_no_aperture', 'vertices', 'segments', 'flashed', 'units', 'level_polarity', 'rotation']
MORE = {'line': ['angle'], 'arc': ['radius', 'start_angle', 'end_angle', 'sweep_angle'], 'circle': ['radius', 'hole_radius'], 'ellipse': ['axis_aligned_width', 'axis_aligned_height'],
        'rectangle': ['axis_aligned_width', 'axis_aligned_height', 'upper_right', 'lower_left', 'hole_radius'], 'diamond': ['axis_aligned_width', 'axis_aligned_height'],
        'chamfer': ['axis_aligned_width', 'axis_aligned_height'], 'roundrect': ['axis_aligned_width', 'axis_aligned_height'],
        'obround': ['axis_aligned_width', 'axis_aligned_height', 'orientation', 'hole_radius'], 'polygon': ['diameter', 'hole_radius'], 'roundbutterfly': ['radius'],
        'donut': ['width', 'height', 'lower_left', 'upper_right'], 'drill': ['radius'], 'outline': ['width']}
REQUIRED.update(('kind:' + k, 60) for k in prims.KINDS)
SHAPES = ['circle', 'rectangle', 'polygon', 'outline']


def gen(rng, i):
    k = KINDS[i % len(KINDS)]
    case = {'kind': k}
    if k == 'derived':
        case['model'] = m = prims.model(rng)
        case['steps'] = [prims.gen_step(rng, m) for _ in range(rng.choice([0, 1, 2, 4]))]
        case['ask'] = rng.random() < .7
    elif k == 'equal':
        case['model'] = m = prims.model(rng)
        case['ask'] = [n for n in ALL[:4] + MORE.get(m['kind'], []) if rng.random() < .5]
        case['change'] = change(rng, m)
        case['steps'] = [prims.gen_step(rng, m) for _ in range(rng.choice([0, 1, 3]))]
    elif k == 'equivalent':
        m = prims.model(rng, rng.choice(SHAPES))
        grid(m)
        case['model'] = m
        case['by'] = [rng.randint(-40, 40) / 8., rng.randint(-40, 40) / 8.]
        case['change'] = change(rng, m, values=True) if rng.random() < .4 else None
        case['off'] = rng.choice([[.001, 0], [0, -.001], [.5, .5]]) if case['change'] is None and rng.random() < .35 else [0, 0]
    elif k == 'group':
        name, blocks, make = macros.gen_macro(rng, 'M')
        case['macro'] = [blocks, make(rng) if make else []]
        case['twin'] = [twin(rng, blocks), case['macro'][1]]
        case['at'] = [[rng.randint(-9999, 9999), rng.randint(-9999, 9999)] for _ in range(2)]
        case['units'] = rng.choice(['inch', 'metric'])
        case['lp'] = rng.choice('DDC')
    elif k == 'statement':
        kind = rng.choice([g for g in sorted(set(c23.KINDS['gerber'])) if g not in ('AM', 'unknown', 'attribute')])
        fmt = list(rng.choice([f for f in c23.FMTS if f[0] <= 4 and f[1] <= 5]))
        zs = rng.choice('LTD')
        two = [c23.gerber(rng, kind, fmt, zs) for _ in range(2)]
        case['stmt'] = {'lang': 'gerber', 'kind': kind, 'units': rng.choice(['inch', 'metric']), 'fmt': fmt, 'zs': zs}
        case['texts'] = [t[0] for t in two]
        case['wants'] = [t[1] for t in two]
        case['ask'] = rng.random() < .5
    elif k == 'element':
        e = [','.join(macros.element(rng, lambda lo, hi, atleast=False: macros.n(rng, lo, hi), rng.choice('01'))) for _ in range(2)]
        case['texts'] = [e[0], rng.choice([e[1], twin(rng, [e[0]])[0]])]
    elif k == 'tool':
        f = {'diameter': prims.length(rng), 'feed_rate': rng.choice([None, 5, 20]), 'retract_rate': rng.choice([None, 7]), 'rpm': rng.choice([None, 100]), 'depth_offset': rng.choice([None, 2.5]),
             'max_hit_count': rng.choice([None, 10]), 'plated': rng.choice([None, 'plated', 'nonplated']), 'units': rng.choice(['inch', 'metric'])}
        case['fields'] = [f, dict(f)]
        if rng.random() < .6:
            n = rng.choice(sorted(f))
            case['fields'][1][n] = ('inch' if f[n] == 'metric' else 'metric') if n == 'units' else ('optional' if f[n] else 'plated') if n == 'plated' else (f[n] or 0) + 1.5
        case['numbers'] = [rng.randint(1, 20), rng.randint(1, 20)]
        case['counts'] = [rng.randint(0, 3), rng.randint(0, 3)]
    else:
        case['orders'] = [rng.choice([0, 1, 2, 2, 10, 11, 100]) for _ in range(rng.randint(2, 6))]
    return case


def grid(m):
    """Puts the points of a model on a grid of eighths, so that moving it is exact."""
    r = lambda p: [round(v * 8) / 8. for v in p]
    for n in ('position',):
        if n in m:
            m[n] = r(m[n])
    if 'points' in m:
        m['points'] = [r(p) for p in m['points']]


def twin(rng, blocks):
    """The same elements with one number or exposure changed."""
    out = list(blocks)
    known = [j for j, b in enumerate(out) if b.split(',')[0] in ('1', '2', '20', '21', '22', '4', '5', '6', '7')]
    if not known:
        return out
    j = rng.choice(known)
    f = out[j].split(',')
    if f[0] not in '67' and rng.random() < .25:
        f[1] = '0' if f[1] == '1' else '1'
    elif f[0] == '4':
        f[5] = num_plus(f[5], .25)
    else:
        at = rng.choice([2, 3, 4]) if f[0] not in '5' else rng.choice([3, 4, 5])
        if at < len(f):
            f[at] = num_plus(f[at], rng.choice([.25, .01]))
    out[j] = ','.join(f)
    return out


def num_plus(t, d):
    try:
        return '%.4f' % (float(t) + d)
    except ValueError:
        return '(%s)+%s' % (t, d)


def change(rng, m, values=False):
    """A change of one parameter: [name, value] (or ['ap', name, value], ['pt', index, axis])."""
    k = m['kind']
    ch = [[n] for n in prims.LENGTHS[k]]
    if 'position' in m and not values:
        ch.append(['position'])
    ch += [[n] for n in prims.HOLES if n in m]
    if k in prims.ROTATABLE:
        ch.append(['rotation'])
    if k == 'polygon':
        ch.append(['sides'])
    if k in ('chamfer', 'roundrect'):
        ch.append(['corners'])
    if k == 'donut':
        ch.append(['shape'])
    if k in ('line', 'arc', 'slot'):
        ch += [['start'], ['end']]
    if k == 'arc':
        ch += [['center'], ['direction'], ['quadrant_mode']]
    if 'aperture' in m:
        ch += [['ap', n] for n in prims.lengths(m['aperture'])] + [['ap', 'kind']]
    if k == 'outline':
        ch.append(['pt', rng.randrange(1, len(m['points']) - 1), rng.randint(0, 1)])
    if k == 'region':
        ch.append(['seg', rng.randrange(len(m['segs'])), rng.choice(['start', 'end'])])
    if not values:
        ch += [['units'], ['level_polarity'], ['kind']]
    return rng.choice(ch)


def changed(m, c):
    """The model with the change made, or None where there is no such object."""
    m = copy.deepcopy(m)
    n = c[0]
    if n == 'ap':
        a = m['aperture']
        if c[1] == 'kind':
            if a['kind'] not in ('rectangle', 'obround'):
                return None
            a['kind'] = 'obround' if a['kind'] == 'rectangle' else 'rectangle'
        else:
            a[c[1]] += .125
    elif n == 'pt':
        m['points'][c[1]][c[2]] += .5
    elif n == 'seg':
        p = m['segs'][c[1]][c[2]]
        p[0] += .5
    elif n == 'kind':
        other = {'rectangle': 'obround', 'obround': 'rectangle', 'diamond': 'ellipse', 'ellipse': 'diamond', 'circle': 'drill', 'drill': 'roundbutterfly', 'roundbutterfly': 'drill'}.get(m['kind'])
        if other is None:
            return None
        for h in prims.HOLES:
            if other not in prims.AP:
                m.pop(h, None)
        if other not in prims.ROTATABLE:
            m.pop('rotation', None)
        m['kind'] = other
    elif n == 'units':
        m['units'] = 'inch' if m['units'] == 'metric' else 'metric'
    elif n == 'level_polarity':
        pass
    elif n == 'direction':
        m[n] = prims.CW if m[n] == prims.CCW else prims.CCW
    elif n == 'quadrant_mode':
        m[n] = 'single-quadrant' if m[n] == 'multi-quadrant' else 'multi-quadrant'
    elif n == 'shape':
        m[n] = 'square' if m[n] == 'round' else 'round'
    elif n == 'corners':
        m[n] = [not m[n][0]] + m[n][1:]
    elif n == 'sides':
        m[n] += 1
    elif n in ('rotation',):
        m[n] += 7
    elif n in prims.POINTS:
        m[n] = [m[n][0], m[n][1] + .5]
    else:
        m[n] += .125 if n != 'inner_diameter' else -.001
    if m['kind'] in ('chamfer', 'roundrect') and not prims.corners_fit(m):
        return None
    if m.get('inner_diameter', 1) <= 0:
        return None
    return m


def signature(case):
    if case['kind'] == 'derived' and not case['steps']:
        return None
    return repr(case)


def judge(case, mon):
    return globals()['judge_' + case['kind']](case, mon)


# ---------------------------------------------------------------- what an object reports
def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def unordered(v):
    """Pairs of points, whatever their order."""
    return sorted(sorted(map(list, p)) for p in v)


def judge_derived(case, mon):
    m = copy.deepcopy(case['model'])
    mon.count('kind:' + m['kind'])
    obj = prims.build(m)
    show = lambda: '%r after %r' % (m, case['steps'])
    for n, s in enumerate([None] + case['steps']):
        if s is not None:
            prims.apply(obj, m, s)
        if not case['ask'] and n < len(case['steps']):
            continue
        tol = 1e-9 * prims.scale_of(m)
        kind = 'outline' if m.get('was_outline') else m['kind']
        if m.get('was_outline'):
            names = ['units']        # (an outline that is torn open)
        else:
            names = ALL + MORE.get(kind, [])
            if kind == 'line':      # (rounding decides which points are corners of a hull)
                names = [a for a in names if a not in ('vertices', 'segments')]
        fresh = prims.build(m)
        for a in names:
            got = plain(getattr(obj, a))
            if a == 'rotation':
                want = m.get('rotation', 0)
            elif a == 'level_polarity':
                want = fresh.level_polarity
            else:
                want = plain(getattr(fresh, a))
            require(near(a, got, want, tol), 'stale', lambda: '%s is %r, a new object has %r: %s' % (a, got, want, show()))
            mon.count('derived')
        facts(obj, m, kind, tol, mon, show)


def near(name, a, b, tol):
    if name in ('angle', 'start_angle', 'end_angle', 'sweep_angle') and isinstance(a, float):
        d = abs(a - b) % (2 * math.pi)
        return min(d, 2 * math.pi - d) <= 1e-6
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(name, x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a is not None and b is not None and not isinstance(a, (list, str)) and not isinstance(b, (list, str)) and abs(a - b) <= tol
    return a == b


def facts(obj, m, kind, tol, mon, show):
    """What follows from the parameters."""
    def is_(name, want):
        got = plain(getattr(obj, name))
        require(near(name, got, want, tol), 'value', lambda: '%s is %r, expected %r: %s' % (name, got, want, show()))
    is_('units', m['units'])
    vs = obj.vertices if not m.get('was_outline') else None
    if vs is not None and len(vs):
        mon.count('segments')
        pts = [list(map(float, p)) for p in vs]
        want = unordered([(p, q) for j, p in enumerate(pts) for q in pts[j + 1:]])
        got = unordered([[list(map(float, p)) for p in s] for s in obj.segments])
        require(near('', got, want, tol), 'segments', lambda: 'segments %r, expected the pairs of %r: %s' % (got, pts, show()))
    w, h = m.get('width'), m.get('height')
    if kind == 'line':
        dx, dy = m['end'][0] - m['start'][0], m['end'][1] - m['start'][1]
        if math.hypot(dx, dy) > 1e-3:
            is_('angle', math.atan2(dy, dx))
    elif kind == 'arc':
        s, e, c = m['start'], m['end'], m['center']
        is_('radius', math.hypot(s[0] - c[0], s[1] - c[1]))
        is_('start_angle', math.atan2(s[1] - c[1], s[0] - c[0]))
        is_('end_angle', math.atan2(e[1] - c[1], e[0] - c[0]))
    elif kind in ('circle', 'drill', 'roundbutterfly'):
        is_('radius', m['diameter'] / 2.)
    elif kind == 'polygon':
        is_('diameter', m['radius'] * 2.)
    elif kind == 'obround':
        mon.count('subshapes')
        if abs(w - h) > tol:
            is_('orientation', 'vertical' if h > w else 'horizontal')
        x, y = m['position']
        parts = obj.subshapes
        d = abs(w - h) / 2.
        ends = [[x, y + d], [x, y - d]] if h > w else [[x + d, y], [x - d, y]]
        got = sorted([plain(parts[n].position) for n in ('circle1', 'circle2')])
        require(near('', got, sorted(ends), 2 * tol) or near('', got[::-1], sorted(ends), 2 * tol), 'parts', lambda: 'circles at %r, expected %r: %s' % (got, ends, show()))
        for n in ('circle1', 'circle2'):
            require(abs(parts[n].diameter - min(w, h)) <= tol, 'parts', lambda: 'a circle of %r: %s' % (parts[n].diameter, show()))
        r = parts['rectangle']
        want = [[x, y], w if h > w else 2 * d, 2 * d if h > w else h]
        got = [plain(r.position), r.width, r.height]
        require(near('', got, want, 2 * tol), 'parts', lambda: 'a rectangle %r, expected %r: %s' % (got, want, show()))
    if kind == 'donut':
        is_('height', m['outer_diameter'])
        is_('width', m['outer_diameter'] * (math.sqrt(3) / 2 if m['shape'] == 'hexagon' else 1))
    if kind in ('rectangle', 'donut'):
        box = obj.bounding_box
        is_('lower_left', [box[0][0], box[1][0]])
        is_('upper_right', [box[0][1], box[1][1]])
    if 'axis_aligned_width' in MORE.get(kind, ()) and m.get('rotation', 0) % 180 == 0:
        is_('axis_aligned_width', w)
        is_('axis_aligned_height', h)
    if 'hole_diameter' in m:
        is_('hole_radius', m['hole_diameter'] / 2.)


# ---------------------------------------------------------------- equality
def same(a, b, want, key, show):
    """Compares in both directions, with == and with !=."""
    got = [a == b, b == a, not (a != b), not (b != a)]
    require(got == [want] * 4, key, lambda: '==, reversed, != and reversed say %r, expected %r: %s' % (got, want, show()))


def judge_equal(case, mon):
    m = copy.deepcopy(case['model'])
    a, b = prims.build(m), prims.build(m)
    show = lambda: repr(case)
    same(a, b, True, 'equal', show)
    for n in case['ask']:
        getattr(a, n)
    mon.count('asked', bool(case['ask']))
    same(a, b, True, 'asked', show)
    same(a, copy.deepcopy(a), True, 'copy', show)
    for other in (None, 5, 'x', (1, 2), object()):
        require(not (a == other) and a != other, 'foreign', lambda: 'equal to %r: %s' % (other, show()))
    mon.count('equal:same', 3)
    c = case['change']
    if c[0] == 'level_polarity':
        d = prims.build(m)
        d.level_polarity = 'clear' if a.level_polarity != 'clear' else 'dark'
    else:
        n = changed(m, c)
        d = prims.build(n) if n is not None else None
    if d is not None:
        mon.count('equal:different')
        same(a, d, False, 'different', show)
    # changed by hand, and back
    if len(c) == 1 and c[0] in m and c[0] in prims.lengths(m) + ['position', 'rotation', 'start', 'end'] and d is not None:
        old = getattr(b, c[0])
        new = n[c[0]]
        setattr(b, c[0], tuple(new) if isinstance(new, list) else new)
        b.bounding_box
        same(b, d, True, 'changed', show)
        same(a, b, False, 'different', show)
        setattr(b, c[0], old)
        same(a, b, True, 'restored', show)
        mon.count('restored')
    # the same history leads to the same object
    m2 = copy.deepcopy(m)
    a, b = prims.build(m), prims.build(m)
    for s in case['steps']:
        prims.apply(a, m, s)
        prims.apply(b, m2, s)
        for n in case['ask']:
            if not m.get('was_outline'):
                getattr(a, n)
        same(a, b, True, 'history', show)
        mon.count('equal:same')


# ---------------------------------------------------------------- equivalence of shapes
def judge_equivalent(case, mon):
    m = case['model']
    moved = copy.deepcopy(m)
    prims.move_model(moved, *case['by'])
    a = prims.build(moved)
    n = m
    if case['change'] is not None:
        n = changed(m, case['change'])
        if n is None:
            return
    b = prims.build(n)
    off = (case['by'][0] + case['off'][0], case['by'][1] + case['off'][1])
    back = (-off[0], -off[1])
    want = case['change'] is None and case['off'] == [0, 0]
    got = [bool(a.equivalent(b, off)), bool(b.equivalent(a, back))]
    mon.count('equivalent:' + ('yes' if want else 'no'))
    require(got == [want] * 2, 'equivalent', lambda: 'equivalent says %r both ways, expected %r: %r' % (got, want, case))
    same(a, prims.build(moved), True, 'equal', lambda: 'after a comparison: %r' % (case,))


def judge_group(case, mon):
    import gerber
    out = []
    for (blocks, mods), at in zip((case['macro'], case['macro'], case['twin'], case['twin']), (case['at'][0], case['at'][1]) * 2):
        text = '%%FSLAX24Y24*%%\n%%MO%s*%%\n%%AMM*%s*%%\n%%ADD10M%s*%%\n%%LP%s*%%\nD10*\nX%dY%dD03*\nM02*\n' % (
            'IN' if case['units'] == 'inch' else 'MM', '*\n'.join(blocks), ',' + 'X'.join(mods) if mods else '', case['lp'], at[0], at[1])
        ps = gerber.loads(text).primitives
        require(len(ps) == 1, 'objects', lambda: '%d objects from\n%s' % (len(ps), text))
        out.append((ps[0], gbr.obs(ps[0]), text))
    for i in range(4):
        for j in range(4):
            p, a, t = out[i]
            q, b, u = out[j]
            off = (p.position[0] - q.position[0], p.position[1] - q.position[1])
            d = differ(a[3][1], gbr.move_norm(b, *off)[3][1])
            if 4e-7 < d < 1e-5:
                continue
            want = d <= 4e-7
            got = bool(p.equivalent(q, off))
            mon.count('group:' + ('yes' if want else 'no'))
            require(got == want, 'equivalent', lambda: 'equivalent says %r, expected %r, of the macros of\n%s\nand\n%s' % (got, want, t, u))
            if want and a[3][1]:
                wrong = (off[0] + .01, off[1])
                require(not p.equivalent(q, wrong), 'equivalent', lambda: 'equivalent at a wrong place: %s\n%s' % (t, u))


def differ(a, b):
    """The largest difference of two observed macros (infinite for another structure)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return float('inf')
        return max([0] + [differ(x, y) for x, y in zip(a, b)])
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return abs(a - b)
    return 0 if a == b else float('inf')


# ---------------------------------------------------------------- statements, elements, tools, layers
def judge_statement(case, mon):
    from gerber.cam import FileSettings
    st = case['stmt']
    show = lambda: repr(case)
    a, b, c = [c23.one(dict(st, want=case['wants'][t]), case['texts'][t], st['fmt'], st['zs'], show) for t in (0, 0, 1)]
    if case['ask']:
        str(a)
        a.to_gerber(FileSettings(units=st['units'], format=tuple(st['fmt']), zero_suppression={'L': 'leading', 'T': 'trailing', 'D': 'leading'}[st['zs']]))
    same(a, b, True, 'equal', show)
    same(a, copy.deepcopy(a), True, 'copy', show)
    mon.count('statement:same')
    if case['wants'][0] != case['wants'][1]:
        mon.count('statement:different')
        same(a, c, False, 'different', show)
    for other in (None, 5, 'x', object()):
        require(not (a == other) and a != other, 'foreign', lambda: 'equal to %r: %s' % (other, show()))


def judge_element(case, mon):
    from gerber import am_statements as am
    cls = {'1': am.AMCirclePrimitive, '2': am.AMVectorLinePrimitive, '20': am.AMVectorLinePrimitive, '21': am.AMCenterLinePrimitive, '22': am.AMLowerLeftLinePrimitive, '4': am.AMOutlinePrimitive,
           '5': am.AMPolygonPrimitive, '6': am.AMMoirePrimitive, '7': am.AMThermalPrimitive}
    make = lambda t: cls[t.split(',')[0]].from_gerber(t)
    a, b, c = make(case['texts'][0]), make(case['texts'][0]), make(case['texts'][1])
    show = lambda: repr(case)
    a.to_gerber(), str(a)
    same(a, b, True, 'equal', show)
    mon.count('element:same')
    vals = lambda t: [float(v) for v in t.split(',')]
    if vals(case['texts'][0]) != vals(case['texts'][1]):
        x, y = [v + [0.] for v in map(vals, case['texts'])]     # (no rotation is none)
        if x[:-1] != y and y[:-1] != x:
            mon.count('element:different')
            same(a, c, False, 'different', show)
    a.to_metric()
    b.to_metric()
    same(a, b, True, 'converted', show)
    for other in (None, 5, 'x', object()):
        require(not (a == other) and a != other, 'foreign', lambda: 'equal to %r: %s' % (other, show()))


def judge_tool(case, mon):
    from gerber.cam import FileSettings
    from gerber.excellon_statements import ExcellonTool
    tools = []
    for f, n, c in zip(case['fields'], case['numbers'], case['counts']):
        f = dict(f)
        t = ExcellonTool(FileSettings(units=f.pop('units')), number=n, **f)
        t.hit_count = c
        tools.append(t)
    want = case['fields'][0] == case['fields'][1]
    got = [bool(tools[0].equivalent(tools[1])), bool(tools[1].equivalent(tools[0]))]
    mon.count('tool:' + ('yes' if want else 'no'))
    require(got == [want] * 2, 'tool', lambda: 'equivalent says %r, expected %r: %r' % (got, want, case))
    require(not tools[0].equivalent(None) and not tools[0].equivalent(5), 'tool', lambda: 'equivalent to something else: %r' % (case,))


def judge_layers(case, mon):
    from gerber.layers import InternalLayer
    ls = [InternalLayer('layer', None, o) for o in case['orders']]
    for a in ls:
        for b in ls:
            mon.count('layers')
            x, y = a.order, b.order
            got = [a == b, a != b, a < b, a <= b, a > b, a >= b]
            require(got == [x == y, x != y, x < y, x <= y, x > y, x >= y], 'layers', lambda: 'comparisons of layers %d and %d: %r' % (x, y, got))
    require([l.order for l in sorted(ls)] == sorted(case['orders']), 'layers', lambda: 'sorted: %r' % [l.order for l in sorted(ls)])
