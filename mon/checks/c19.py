"""C19: re-emitting a design as Gerber preserves its image."""
import random
from mon import gbr, area
from mon.core import require
from mon.checks.c07 import gen_file

PID = 'C19'
QUICK, THOROUGH = 3200, 30000
RULE = ('a case is one or two random Gerber files (draws, arcs, regions, flashes of every aperture and of macros, dark and clear), perhaps converted or moved first, rendered into one Gerber '
        'output context with random output settings; the output is read back and both images are probed at points on either side of the outline of every object; non-trivial when it holds '
        'at least two objects')
REQUIRED = {'object:line': 1500, 'object:arc': 500, 'object:flash': 1000, 'object:region': 500, 'macro': 500, 'hole': 200, 'clear': 600, 'shared': 300, 'two_files': 200, 'moved': 100, 'converted': 100,
            'zero_length': 50, 'twin_macros': 300, 'bare_group': 300, 'unset:clear': 80, 'long_macros': 100, 'polygon': 40, 'points_dark': 50000, 'points_clear': 50000, 'edge': 30000}
ASSUMPTIONS = ['draws use circles and rectangles and arcs use circles', 'files rendered together use the same units',
               'the output format has the digits the coordinates need', 'points within the output resolution of an outline are left undecided']


def gen(rng, i):
    how = rng.choice(['plain', 'plain', 'plain', 'finer', 'finer', 'convert', 'move'])
    kw = {'draws_any': False, 'units': rng.choice(['inch', 'metric'])}
    if how in ('convert', 'move'):
        kw['fmt'] = rng.choice([(2, 3), (2, 4), (3, 3), (3, 4)])
    n = rng.choice([1, 1, 1, 2])
    progs = []
    for k in range(n):
        if k:
            kw['fmt'] = progs[0]['fmt']
        p = gen_file(rng, n=rng.randint(2, 14), **kw)
        if rng.random() < .15 and how in ('plain', 'finer'):
            # a dot made by a draw that goes nowhere
            at = [m for m, o in enumerate(p['ops']) if o[0] == 'op']
            if at:
                p['ops'].append(['q', 'G75'])
                cur = [[0, 0]]
                for o in p['ops']:
                    if o[0] == 'op':
                        cur.append([cur[-1][0] if o[2] is None else o[2], cur[-1][1] if o[3] is None else o[3]])
                circles = [o[1] for o in p['ops'] if o[0] == 'ad' and o[2] == 'C' and len(o[3]) == 1]
                last = {}
                for o in p['ops']:
                    if o[0] == 'ad':
                        last[o[1]] = o
                circles = [c for c in circles if last[c][2] == 'C']
                if circles:
                    p['ops'].append(['sel', rng.choice(circles), False])
                    p['ops'].append(['op', 'G01', gbr.rnd_coord(rng, p), gbr.rnd_coord(rng, p), None, None, 'D02'])
                    x, y = p['ops'][-1][2:4]
                    if rng.random() < .5:
                        p['ops'].append(['op', None, x, y, None, None, 'D01'])
                    else:
                        # (in single quadrant mode the same holds for an arc)
                        r = lambda: rng.randint(0, 10 ** p['fmt'][1])
                        p['ops'] += [['q', 'G74'], ['op', rng.choice(['G02', 'G03']), x, y, r(), r(), 'D01']]
        if rng.random() < .5:
            twin_macros(rng, p)
        elif rng.random() < .4:
            long_macros(rng, p)
        progs.append(p)
    a, b = progs[0]['fmt']
    out = None
    if how == 'finer':
        out = [min(6, a + rng.randint(0, 2)), min(6, b + rng.randint(0, 2)), rng.choice(['leading', 'trailing'])]
    elif how != 'plain':
        out = [6, rng.choice([5, 6]), rng.choice(['leading', 'trailing'])]
    return {'progs': progs, 'how': how, 'out': out, 'by': [round(rng.uniform(-3, 3), 5), round(rng.uniform(-3, 3), 5)],
            'condensed': rng.random() < .7, 'explicit': rng.random() < .2, 'bare': rng.random() < .25, 'unset': rng.random() < .3, 'via': rng.choice(['render', 'primitives']), 'seed': rng.randrange(10 ** 9)}


def twin_macros(rng, p):
    """Adds a macro that differs from another in one number, and flashes of both in turn."""
    ams = [o for o in p['ops'] if o[0] == 'am']
    if not ams:
        return
    am = rng.choice(ams)
    mods = [o[3] for o in p['ops'] if o[0] == 'ad' and o[2] == am[1]]
    mods = rng.choice(mods) if mods else [('%.3f' % rng.uniform(.3, .9)) for _ in range(3)]
    blocks = [b for b in am[2]]
    known = [k for k, b in enumerate(blocks) if b.split(',')[0] in ('1', '2', '20', '21', '22', '4', '5', '6', '7')]
    if not known:
        return
    k = rng.choice(known)
    f = blocks[k].split(',')
    if rng.random() < .4:
        # how the next element is painted
        if f[0] not in '67':
            f[1] = '0' if f[1] == '1' else '1'
    elif rng.random() < .4 and len(f) > 5:
        f[-1] = rng.choice(['15', '45', '33.5', '36'])
    else:
        m = rng.choice([2, 3, 4]) if f[0] not in '45' else 5
        if m < len(f) and not (f[0] == '4' and m < 5):
            f[m] = '(%s)+%s' % (f[m], rng.choice(['.1', '.02', '.003']))
    blocks[k] = ','.join(f)
    name = am[1] + 'v'
    p['ops'] += [['lp', 'D'], ['am', name, blocks], ['ad', 501, am[1], mods], ['ad', 502, name, mods]]
    for c in rng.choice([[501, 502], [502, 501], [501, 502, 501], [501, 501, 502, 502]]):
        p['ops'] += [['sel', c, False], ['op', None, gbr.rnd_coord(rng, p), gbr.rnd_coord(rng, p), None, None, 'D03']]
    p['twin'] = True


def long_macros(rng, p):
    """Two macros of many elements, of which one has an element more, less or changed."""
    k = 1.0 if p['units'] == 'inch' else 10.0
    num = lambda lo, hi: '%.3f' % (rng.uniform(lo, hi) * k)
    at = lambda: ','.join(num(-1, 1) for _ in range(2))

    def element():
        return rng.choice([lambda: '1,1,%s,%s' % (num(.1, .5), at()), lambda: '21,1,%s,%s,%s,0' % (num(.1, .6), num(.1, .6), at()),
                           lambda: '5,1,%d,%s,%s,0' % (rng.randint(3, 9), at(), num(.1, .6))])()
    blocks = [element() for _ in range(rng.randint(5, 10))]
    other = list(blocks)
    how = rng.choice(['more', 'less', 'changed'])
    if how == 'more':
        other.append(element())
    elif how == 'less':
        other.pop()
    else:
        other[rng.randint(4, len(other) - 1)] = element()
    p['ops'] += [['lp', 'D'], ['am', 'LONG', blocks], ['am', 'LONGER', other], ['ad', 503, 'LONG', []], ['ad', 504, 'LONGER', []]]
    for c in rng.choice([[503, 504], [504, 503], [504, 503, 504]]):
        p['ops'] += [['sel', c, False], ['op', None, gbr.rnd_coord(rng, p), gbr.rnd_coord(rng, p), None, None, 'D03']]
    p['long'] = True


def signature(case):
    if sum(1 for p in case['progs'] for o in p['ops'] if o[0] == 'op') < 2:
        return None
    return '\n'.join(gbr.text(p) for p in case['progs']) + repr((case['out'], case['how']))


def extent(n):
    """Anchor points and a length scale."""
    k = n[0]
    if k == 'region':
        pts = [q for s in n[2] for q in s[1:3]] + [s[3] for s in n[2] if s[0] == 'arc']
        xs, ys = [q[0] for q in pts], [q[1] for q in pts]
        return pts, max(max(xs) - min(xs), max(ys) - min(ys)) / 2.
    ap = n[3] if k == 'flash' else n[4] if k == 'line' else n[6]
    if ap[0] == 'M':
        pts, size = [], 0
        for e in ap[1]:
            if e[0] == 'outline':
                pts.extend(e[2])
                size = max([size] + [max(abs(a[0] - b[0]), abs(a[1] - b[1])) for a in e[2] for b in e[2]])
            else:
                pts.append(e[2])
                size = max(size, e[3] * (2 if e[0] == 'poly' else 1))
        return pts, size
    size = max([v for v in ap[1:3] if isinstance(v, float)])
    if k == 'flash':
        return [n[2]], size
    pts = [n[2], n[3]]
    t = [((n[2][0] + n[3][0]) / 2., (n[2][1] + n[3][1]) / 2.)]
    if k == 'arc':
        t = area.arc_points(n[2], n[3], n[4], n[5], n[7] == 'multi-quadrant', 12)
        return t, size
    return pts + t, size


def probes(norms, margin, rng):
    """Points near the outline of each object, on both sides of it."""
    out = []
    for n in norms:
        shape = area.shape_of(n, margin)[1]
        pts, size = extent(n)
        if not pts:
            continue        # an empty macro
        size = max(size, margin)
        near = []
        for k in range(10):
            a = rng.choice(pts)
            near.append((a[0] + rng.uniform(-.8, .8) * size, a[1] + rng.uniform(-.8, .8) * size))
        near += pts[:3]
        ins = [q for q in near if shape(q) > 0]
        outs = [q for q in near if shape(q) < 0]
        out += [(q, False) for q in near]
        if ins and outs:
            for k in range(5):
                p, q = rng.choice(ins), rng.choice(outs)
                for _ in range(40):
                    m = ((p[0] + q[0]) / 2., (p[1] + q[1]) / 2.)
                    if shape(m) > 0:
                        p = m
                    else:
                        q = m
                for f in (3 * margin, -3 * margin, .04 * size, -.04 * size):
                    a = rng.uniform(0, 6.3)
                    # one step to each side
                    from math import cos, sin
                    best = max(((shape((p[0] + abs(f) * cos(a + t), p[1] + abs(f) * sin(a + t))) * (1 if f > 0 else -1)), t) for t in (0, .8, 1.6, 2.4, 3.2, 4, 4.8, 5.6))
                    t = best[1]
                    out.append(((p[0] + abs(f) * cos(a + t), p[1] + abs(f) * sin(a + t)), True))
    return out


def judge(case, mon):
    import gerber
    from gerber.cam import FileSettings
    from gerber.render.rs274x_backend import Rs274xContext
    files = [gerber.loads(gbr.text(p)) for p in case['progs']]
    if case.get('bare'):
        # groups of elements that do not know the macro they came from
        for f in files:
            for q in f.primitives:
                for m in (q, getattr(q, 'aperture', None)):
                    if type(m).__name__ == 'AMGroup':
                        mon.count('bare_group')
                        m.stmt = None
    for f in files:
        if case.get('unset'):
            # lines and arcs round a region have no polarity of their own
            for q in f.primitives:
                if type(q).__name__ == 'Region':
                    for e in q.primitives:
                        e.level_polarity = None
                    mon.count('unset')
                    mon.count('unset:clear', q.level_polarity == 'clear')
    for f in files:
        if case['how'] == 'convert':
            f.to_metric() if f.units == 'inch' else f.to_inch()
            mon.count('converted')
        elif case['how'] == 'move':
            f.offset(*case['by'])
            mon.count('moved')
    mon.count('twin_macros', sum(1 for p in case['progs'] if p.get('twin')))
    mon.count('long_macros', sum(1 for p in case['progs'] if p.get('long')))
    mon.count('two_files', len(files) == 2)
    norms = []
    for f in files:
        norms += [gbr.obs(p) for p in f.primitives]
    units = files[0].units
    out = case['out']
    settings = files[0].settings if out is None else FileSettings(units=units, format=tuple(out[:2]), zero_suppression=out[2])
    ctx = Rs274xContext(settings)
    ctx.condensed_flash = case['condensed']
    ctx.explicit_region_move_end = case['explicit']
    for f in files:
        if case['via'] == 'render' and f.primitives:
            f.render(ctx)
        else:
            for p in f.primitives:
                ctx.render(p)
    text = ctx.dump().getvalue()
    show = lambda: '%s%s\n--- written as\n%s' % ('\n+++\n'.join(gbr.text(p) for p in case['progs']), '' if case['how'] == 'plain' else repr((case['how'], case['by'])), text)
    g = gerber.loads(text)
    require(g.units == units, 'units', lambda: '%r, was %r\n%s' % (g.units, units, show()))
    got = [gbr.obs(p) for p in g.primitives]
    for p in g.primitives:
        require(p.units == units, 'units', lambda: 'an object in %r\n%s' % (p.units, show()))
    seen = {}
    for n in norms:
        mon.count('object:' + n[0])
        mon.count('clear', n[1] == 'clear')
        mon.count('zero_length', n[0] == 'line' and n[2] == n[3])
        ap = n[3] if n[0] == 'flash' else n[4] if n[0] == 'line' else None
        if ap:
            mon.count('macro', ap[0] == 'M')
            mon.count('polygon', ap[0] == 'P')
            mon.count('hole', ap[0] != 'M' and ap[-1] != ('none',))
            mon.count('shared', ap[0] != 'M' and seen.get(ap, n) is not n)
            seen[ap] = n
    res = 10.0 ** -settings.format[1]
    big = max([1.0] + [abs(c) for n in norms for q in extent(n)[0] for c in q])
    margin = (4 * res if case['how'] in ('convert', 'move') else 4e-6 if case.get('bare') else 1e-8) + 1e-12 * big
    want_img, got_img = area.image_of(norms, margin), area.image_of(got, 0.0)
    for p, edge in probes(norms, margin, random.Random(case['seed'])):
        w = area.paint(want_img, p, margin)
        if w == 'unsure':
            continue
        s = area.paint(got_img, p, 0.0)
        mon.count('points_' + w)
        mon.count('edge', edge)
        require(s == w, 'area', lambda: 'point %r is %s in the design and %s in the output\n%s' % (p, w, s, show()))
