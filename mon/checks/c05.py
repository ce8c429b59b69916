"""C05: aperture macro shapes cover exactly the area the macro describes."""
import copy
import math
from mon import area, gbr
from mon.core import require

PID = 'C05'
QUICK, THOROUGH = 6000, 60000
RULE = ('a case is a macro of 1-5 elements (circle, vector line, centre line, outline, polygon, moire, thermal, lower left line) with random '
        'rotations, exposures and parameters, flashed at 1-3 points under dark or clear polarity; membership of sample points '
        'near every edge, corner and centre is compared between the macro text and the flashed object; or one to four graphic objects, '
        'made into macro elements one by one and emitted as the macro of a group, which are compared with the objects')
REQUIRED = {'points_dark': 20000, 'points_clear': 20000, 'element:1': 300, 'element:20': 150, 'element:2': 100, 'element:21': 300, 'element:4': 300,
            'element:5': 300, 'element:6': 300, 'element:7': 300, 'element:22': 300, 'moire_inner_disc': 50, 'moire_no_crosshair': 30, 'erasing': 300, 'rotated': 1000, 'second_flash': 500, 'made:circle': 100, 'made:ring': 100, 'made:rect': 200, 'made:poly': 200, 'made:outline': 100, 'made_points': 5000}
ASSUMPTIONS = ['outlines do not overlap themselves (they may touch themselves in a point or along a cut), exposure is 0 or 1', 'thermal arcs may deviate by 0.6% of the radius (ten-segment approximation)']


def num(rng, lo, hi):
    return '%.*f' % (rng.choice([1, 2, 3, 4]), rng.uniform(lo, hi))


def rotation(rng):
    return rng.choice(['0', '0', '0', '30', '45', '90', '-15', '180', '270', '359.5', '12.25', '-120', num(rng, 0, 360)])


def element(rng):
    code = rng.choice(['1', '20', '2', '21', '22', '4', '5', '6', '7'])
    exp = rng.choice(['1', '1', '0'])
    x, y = num(rng, -2, 2), num(rng, -2, 2)
    if rng.random() < 0.35:
        x = y = '0'
    if code == '1':
        e = [code, exp, num(rng, 0.4, 2), x, y]
        return e + ([rotation(rng)] if rng.random() < 0.4 else [])
    if code in ('2', '20'):
        while True:
            s, e = (num(rng, -2, 2), num(rng, -2, 2)), (num(rng, -2, 2), num(rng, -2, 2))
            if rng.random() < 0.3:
                e = (e[0], s[1]) if rng.random() < 0.5 else (s[0], e[1])
            if math.hypot(float(s[0]) - float(e[0]), float(s[1]) - float(e[1])) > 0.5:
                return [code, exp, num(rng, 0.3, 1.5)] + list(s + e) + [rotation(rng)]
    if code in ('21', '22'):
        return [code, exp, num(rng, 0.4, 3), num(rng, 0.4, 3), x, y, rotation(rng)]
    if code == '4':
        n = rng.randint(3, 7)
        cx, cy = float(x), float(y)
        pts = []
        step = 2 * math.pi / n
        sign = rng.choice([1, -1])
        for k in range(n):
            a = sign * (k + rng.uniform(0.1, 0.6)) * step
            r = rng.uniform(0.7, 1.8)
            pts.append(('%.4f' % (cx + r * math.cos(a)), '%.4f' % (cy + r * math.sin(a))))
        form = rng.random()
        if form < 0.15:
            # two or three lobes that meet in one point
            lobes = rng.randint(2, 3)
            pts = []
            for l in range(lobes):
                pts.append(('%.4f' % cx, '%.4f' % cy))
                for k in range(rng.randint(2, 3)):
                    a = sign * (l + 0.1 + 0.25 * k + rng.uniform(0, .1)) * 2 * math.pi / lobes
                    r = rng.uniform(0.7, 1.8)
                    pts.append(('%.4f' % (cx + r * math.cos(a)), '%.4f' % (cy + r * math.sin(a))))
        elif form < 0.3:
            # a ring: the hole is reached through a cut
            inner = [('%.4f' % (cx + 0.4 * (float(px) - cx)), '%.4f' % (cy + 0.4 * (float(py) - cy))) for px, py in pts]
            pts = pts + [pts[0], inner[0]] + inner[:0:-1] + [inner[0]]
        pts.append(pts[0])
        return [code, exp, str(len(pts) - 1)] + [c for p in pts for c in p] + [rotation(rng)]
    if code == '5':
        return [code, exp, str(rng.randint(3, 12)), x, y, num(rng, 0.5, 3), rotation(rng)]
    if code == '6':
        t, g = rng.uniform(.06, .3), rng.uniform(.06, .3)
        while True:
            d, most = rng.uniform(.8, 3), rng.choice([1, 2, 3, 4, 5, 9, 0])
            # no ring that is there only through rounding
            if all(abs(d - 2 * k * (t + g)) > .05 and abs(d - 2 * k * (t + g) - 2 * t) > .05 for k in range(1, 13)):
                break
        ct, cl = (num(rng, .05, .3), num(rng, .5, 4)) if rng.random() < .8 else ('0', rng.choice(['0', '1.5']))
        return [code, x, y, '%.3f' % d, '%.3f' % t, '%.3f' % g, str(most), ct, cl, rotation(rng)]
    od = rng.uniform(1, 3)
    idm = rng.uniform(0, 0.85) * od if rng.random() < 0.8 else 0.0
    gap = rng.uniform(0.02, 0.6) * od
    return [code, x, y, '%.3f' % od, '%.3f' % idm, '%.3f' % gap, rotation(rng)]


def gen_made(rng):
    """Graphic objects of which elements are made."""
    objs = []
    for _ in range(rng.randint(1, 4)):
        f = lambda lo, hi: round(rng.uniform(lo, hi), rng.choice([1, 2, 3, 4]))
        k = rng.choice(['circle', 'ring', 'rect', 'rect', 'poly', 'poly', 'outline'])
        at = [f(-2, 2), f(-2, 2)] if rng.random() < .8 else [0, 0]
        deg = rng.choice([0, 0, 30, 45, 90, -15, 180, 22.5, f(0, 360)])
        pol = rng.choice(['dark', 'dark', 'clear'])
        if k == 'circle':
            o = [k, pol, at, f(.4, 2)]
        elif k == 'ring':
            d = f(.6, 2)
            o = [k, 'dark', at, d, round(d * rng.uniform(.3, .8), 3)]
        elif k == 'rect':
            o = [k, pol, at, f(.4, 3), f(.4, 3), deg]
        elif k == 'poly':
            o = [k, pol, at, rng.randint(3, 12), f(.3, 1.5), deg]
        else:
            n = rng.randint(3, 7)
            o = [k, pol, [[round(at[0] + rng.uniform(.6, 1.8) * math.cos(t), 4), round(at[1] + rng.uniform(.6, 1.8) * math.sin(t), 4)]
                          for t in [2 * math.pi * (q + rng.uniform(.1, .6)) / n for q in range(n)]]]
        objs.append(o)
    return {'made': objs, 'units': rng.choice(['inch', 'metric']), 'at': [round(rng.uniform(-9, 9), 3), round(rng.uniform(-9, 9), 3)] if rng.random() < .8 else [0, 0],
            'times': rng.choice([1, 1, 2]), 'probe': [(round(rng.uniform(-4, 4), 3), round(rng.uniform(-4, 4), 3)) for _ in range(12)]}


def made_object(o, units):
    """The object, its shape and points about its outline."""
    from gerber import primitives as pr
    kw = {'units': units, 'level_polarity': o[1]}
    if o[0] in ('circle', 'ring'):
        c = tuple(o[2])
        if o[0] == 'ring':
            return pr.Circle(c, o[3], hole_diameter=o[4], **kw), area.cut(area.disc(c, o[3] / 2.), area.disc(c, o[4] / 2.)), [c] + area.around(c, o[3] / 2.) + area.around(c, o[4] / 2.)
        return pr.Circle(c, o[3], **kw), area.disc(c, o[3] / 2.), [c] + area.around(c, o[3] / 2.)
    if o[0] == 'rect':
        c, w, h = tuple(o[2]), o[3], o[4]
        pts = [area.rot((c[0] + a * w / 2., c[1] + b * h / 2.), o[5], c) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        return pr.Rectangle(c, w, h, rotation=o[5], **kw), area.poly(pts), area.inout(pts)
    if o[0] == 'poly':
        c, n, r = tuple(o[2]), o[3], o[4]
        pts = [(c[0] + r * math.cos(math.radians(o[5]) + 2 * math.pi * k / n), c[1] + r * math.sin(math.radians(o[5]) + 2 * math.pi * k / n)) for k in range(n)]
        return pr.Polygon(c, n, r, rotation=o[5], **kw), area.poly(pts), area.inout(pts)
    pts = [tuple(p) for p in o[2]]
    pen = pr.Circle((0, 0), 0, units=units)
    lines = [pr.Line(pts[k], pts[(k + 1) % len(pts)], pen, units=units) for k in range(len(pts))]
    return pr.Outline(lines, **kw), area.poly(pts), area.inout(pts)


def judge_made(case, mon):
    import gerber
    from gerber import am_statements as am
    from gerber import primitives as pr
    from gerber.cam import FileSettings
    from gerber.render.rs274x_backend import Rs274xContext
    units = case['units']
    want, pts, objs = [], [tuple(p) for p in case['probe']], []
    for o in case['made']:
        p, sh, kp = made_object(o, units)
        mon.count('made:' + o[0])
        cls = {'circle': am.AMCirclePrimitive, 'ring': am.AMMoirePrimitive, 'rect': am.AMCenterLinePrimitive, 'poly': am.AMPolygonPrimitive, 'outline': am.AMOutlinePrimitive}[o[0]]
        e = cls.from_primitive(p)
        for how, el in (('made', e), ('made and read', cls.from_gerber(e.to_gerber()))):
            q = el.to_primitive(units)
            got = [area.am_shape(gbr.amelem(x)) for x in (q if isinstance(q, list) else [q])]
            for at in kp:
                w = area.paint([(o[1], sh)], at, .002, 'before')
                if w == 'unsure':
                    continue
                g = area.paint(got, at, 0.0, 'before')
                mon.count('made_points')
                require(g == w, 'made', lambda: 'point %r is %s in %r and %s in the element %s of it: %s' % (at, w, o, g, how, e.to_gerber()))
        want.append((o[1], sh))
        pts += kp
        objs.append(p)
    ctx = Rs274xContext(FileSettings(units=units, format=(3, 6), zero_suppression='leading'))
    places = [(case['at'][0] + 7.5 * k, case['at'][1] - 2.25 * k) for k in range(case['times'])]
    for x in places:
        g = pr.AMGroup([], units=units)
        g.primitives.extend(copy.deepcopy(o) for o in objs)
        g.position = x
        ctx.render(g)
    out = ctx.dump().getvalue()
    show = lambda: '%r written as\n%s' % (case['made'], out)
    d = gerber.loads(out)
    require(d.units == units and len(d.primitives) == len(places), 'made-count', lambda: '%d objects in %s, expected %d in %s\n%s' % (len(d.primitives), d.units, len(places), units, show()))
    for p, off in zip(d.primitives, places):
        require(p.level_polarity == 'dark', 'made-polarity', show)
        got = [area.am_shape(gbr.amelem(q)) for q in p.primitives]
        for q in pts:
            w = area.paint(want, q, .002)
            if w == 'unsure':
                continue
            g = area.paint(got, (q[0] + off[0], q[1] + off[1]), 0.0)
            mon.count('made_points')
            require(g == w, 'made-group', lambda: 'point %r relative to the flash at %r is %s in the group and %s when read back: %s' % (q, off, w, g, show()))


def gen(rng, i):
    if i % 8 == 3:
        return gen_made(rng)
    els = [element(rng) for _ in range(rng.randint(1, 5))]
    params = []
    if rng.random() < 0.4:
        for e in els:
            if rng.random() < 0.5:
                k = rng.randrange(1, len(e))
                if e[0] == '4' and k > 1:
                    k = len(e) - 1
                params.append(e[k])
                e[k] = '$%d' % len(params)
    return {'els': els, 'params': params, 'units': rng.choice(['IN', 'MM']),
            'flashes': [(rng.randint(-50000, 50000), rng.randint(-50000, 50000)) if rng.random() < 0.8 else (0, 0) for _ in range(rng.randint(1, 3))],
            'pol': rng.choice('DDC'), 'probe': [(round(rng.uniform(-4, 4), 3), round(rng.uniform(-4, 4), 3)) for _ in range(12)]}


def values(case):
    out = []
    for e in case['els']:
        out.append([float(case['params'][int(t[1:]) - 1]) if t.startswith('$') else float(t) for t in e])
    return out


def text(case):
    out = ['%FSLAX34Y34*%', '%%MO%s*%%' % case['units'],
           '%%AMSHAPE*%s*%%' % '*'.join(','.join(e) for e in case['els']),
           '%%ADD10SHAPE%s*%%' % ((',' + 'X'.join(case['params'])) if case['params'] else ''), 'D10*']
    if case['pol'] != 'D':
        out.append('%LPC*%')
    for x, y in case['flashes']:
        out.append('X%sY%sD03*' % (gbr.enc(x, (3, 4), 'L'), gbr.enc(y, (3, 4), 'L')))
    return '\n'.join(out + ['M02*', ''])


def signature(case):
    return repr(case['made']) if 'made' in case else text(case)


def judge(case, mon):
    if 'made' in case:
        return judge_made(case, mon)
    import gerber
    from gerber import primitives as pr
    data = text(case)
    prims = list(gerber.loads(data).primitives)
    require(len(prims) == len(case['flashes']), 'flashes', lambda: '%d objects for %d flashes\n%s' % (len(prims), len(case['flashes']), data))
    vals = values(case)
    want, pts = [], [tuple(p) for p in case['probe']]
    for v in vals:
        mon.count('element:%d' % v[0])
        if v[0] not in (6, 7) and v[1] == 0:
            mon.count('erasing')
        if v[-1] not in (0, 0.0) and not (v[0] == 1 and len(v) < 6):
            mon.count('rotated')
        if v[0] == 6:
            k = 0
            while k < v[6] and v[3] - 2 * k * (v[4] + v[5]) > 0:
                if v[3] - 2 * k * (v[4] + v[5]) < 2 * v[4]:
                    mon.count('moire_inner_disc')
                k += 1
            if not v[7]:
                mon.count('moire_no_crosshair')
        pol, sh, kp = area.ref_element(v)
        want.append((pol, sh))
        pts += kp
    margin = 0.006
    for n, (p, (fx, fy)) in enumerate(zip(prims, case['flashes'])):
        require(isinstance(p, pr.AMGroup), 'kind', lambda: 'flash of a macro is a %s' % type(p).__name__)
        require(p.level_polarity == ('dark' if case['pol'] == 'D' else 'clear'), 'polarity', lambda: 'flash polarity %r' % p.level_polarity)
        off = (gbr.val(fx, (3, 4)), gbr.val(fy, (3, 4)))
        got = []
        for q in p.primitives:
            if isinstance(q, pr.Outline):
                segs = q.primitives
                for k in range(len(segs)):
                    a, b = segs[k - 1].end, segs[k].start
                    require(abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) < 1e-6, 'outline-open',
                            lambda: 'outline segments do not join: %r -> %r\n%s' % (a, b, data))
            got.append(area.am_shape(gbr.amelem(q)))
        mon.count('flash')
        if n:
            mon.count('second_flash')
        for q in pts:
            w = area.paint(want, q, margin * max(1.0, hyp(q) * 0.2))
            if w == 'unsure':
                continue
            g = area.paint(got, (q[0] + off[0], q[1] + off[1]), 0.0)
            mon.count('points_' + w)
            require(g == w, 'area', lambda: 'point %r relative to the flash at %r is %s, the macro says %s\n%s' % (q, off, g, w, data))


def hyp(q):
    return math.hypot(q[0], q[1])
