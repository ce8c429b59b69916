"""C22: stroke outlines and convex hulls are exact."""
import copy
import math
from mon import gbr, prims
from mon.area import rot
from mon.core import require

PID = 'C22'
QUICK, THOROUGH = 24000, 400000
RULE = ('a case is a point set (random, grid, collinear, repeated, circular, nearly collinear), or a line drawn with a rectangular or polygonal aperture, or a '
        'rectangle, diamond, chamfered rectangle or polygon, each with a history of changes; hulls and vertex lists are compared with '
        'an exact rational hull and with the corners computed from the model; non-trivial when there are at least three distinct points')
REQUIRED = {'hull': 3000, 'hull:collinear': 200, 'hull:one': 50, 'line': 2000, 'line:axis': 300, 'line:zero': 100, 'line:diagonal': 500,
            'polygon_line': 200, 'shape:rectangle': 300, 'shape:diamond': 300, 'shape:chamfer': 300, 'shape:polygon': 300, 'after_change': 3000}
ASSUMPTIONS = ['apertures of strokes are not rotated, except polygons', 'points within 1e-9 of the hull may or may not be listed']
SHAPES = ['rectangle', 'diamond', 'chamfer', 'polygon']


def gen(rng, i):
    r = i % 3
    if r == 0:
        return {'kind': 'hull', 'pts': gen_points(rng)}
    if r == 1:
        m = prims.model(rng, 'line')
        m['aperture'] = prims.aperture(rng, ['rectangle', 'rectangle', 'rectangle', 'polygon'])
        q = rng.random()
        if q < .12:
            m['end'] = list(m['start'])
        elif q < .3:
            m['end'][rng.randint(0, 1)] = m['start'][0]
            m['end'] = [m['start'][0], m['end'][1]] if rng.random() < .5 else [m['end'][0], m['start'][1]]
        elif q < .4:
            d = rng.choice([1e-6, 1e-4, 1e4])
            m['end'] = [m['start'][0] + d, m['start'][1] + rng.choice([d, -d, 0, 2 * d])]
        steps = [prims.gen_step(rng, m) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        return {'kind': 'line', 'model': m, 'steps': [['aperture', dict(m['aperture'])] if s[0] == 'aperture' else s for s in steps]}
    m = prims.model(rng, rng.choice(SHAPES))
    return {'kind': 'shape', 'model': m, 'steps': [prims.gen_step(rng, m) for _ in range(rng.choice([0, 0, 1, 2, 4]))]}


def gen_points(rng):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 30])
    r = rng.random()
    s = rng.choice([1, 1, 1e-3, 1e3])
    if r < .35:
        k = rng.choice([1, 2, 3, 10])
        p = [[rng.randint(0, k) * s, rng.randint(0, k) * s] for _ in range(n)]
    elif r < .55:
        p = [[rng.uniform(-1, 1) * s, rng.uniform(-1, 1) * s] for _ in range(n)]
    elif r < .7:
        a, b = rng.choice([(1, 0), (0, 1), (1, 1), (1, 2), (3, -1)])
        p = [[a * t * s, b * t * s] for t in (rng.randint(-5, 5) for _ in range(n))]
    elif r < .85:
        p = [[math.cos(t) * s, math.sin(t) * s] for t in (rng.choice([rng.uniform(0, 7), math.pi / 6 * rng.randint(0, 12)]) for _ in range(n))]
    else:
        p = [[round(rng.uniform(-5, 5), 1) / 3., round(rng.uniform(-5, 5), 1) / 7.] for _ in range(n)]
    if rng.random() < .3:
        p += [list(rng.choice(p)) for _ in range(rng.randint(1, 4))]
    return p


def signature(case):
    if case['kind'] == 'hull':
        return repr(case) if len(set(map(tuple, case['pts']))) > 2 else None
    return repr(case)


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull(points):
    """Strict convex hull, counterclockwise, exact."""
    from fractions import Fraction
    pts = sorted(set((Fraction(x), Fraction(y)) for x, y in points))
    if len(pts) < 3:
        return pts
    out = []
    for seq in (pts, pts[::-1]):
        h = []
        for p in seq:
            while len(h) > 1 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        out += h[:-1]
    return out


def dist_seg(p, a, b):
    d = (b[0] - a[0], b[1] - a[1])
    n = d[0] ** 2 + d[1] ** 2
    t = 0 if n == 0 else max(0, min(1, ((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / n))
    return math.hypot(float(p[0] - a[0] - t * d[0]), float(p[1] - a[1] - t * d[1]))


def check_hull(points, got, what, tol):
    """got must be the hull of points, to within tol."""
    want = hull(points)
    w = [(float(x), float(y)) for x, y in want]
    g = [(float(x), float(y)) for x, y in got]
    for p in g:
        require(min(math.hypot(p[0] - q[0], p[1] - q[1]) for q in points) <= tol, 'not-a-point', lambda: '%r is none of the points: %r of %s' % (p, g, what()))
        if len(w) > 1:
            d = min(dist_seg(p, w[i], w[(i + 1) % len(w)]) for i in range(len(w)))
            require(d <= tol, 'not-on-hull', lambda: '%r is inside the hull: %r, expected %r of %s' % (p, g, w, what()))
    for q in w:
        d = min(dist_seg(q, g[i], g[(i + 1) % len(g)]) for i in range(len(g)))
        require(d <= tol, 'corner-missing', lambda: 'corner %r is missing: %r, expected %r of %s' % (q, g, w, what()))
    if len(w) > 2:
        # one turn in one direction
        n = len(g)
        area = sum(cross((0, 0), g[i], g[(i + 1) % n]) for i in range(n)) / 2.
        full = sum(cross((0, 0), w[i], w[(i + 1) % len(w)]) for i in range(len(w))) / 2.
        size = max(abs(c) for p in w for c in p) + 1
        require(abs(abs(area) - full) <= 8 * n * tol * size, 'not-a-polygon', lambda: 'area %r, expected %r: %r of %s' % (area, full, g, what()))
        sg = 1 if area > 0 else -1
        turn = min(sg * cross(g[i - 2], g[i - 1], g[i]) for i in range(n))
        require(turn >= -8 * tol * size, 'not-convex', lambda: 'turns back: %r of %s' % (g, what()))


def judge(case, mon):
    if case['kind'] == 'hull':
        from gerber.utils import convex_hull
        pts = [tuple(p) for p in case['pts']]
        mon.count('hull')
        h = hull(pts)
        if len(h) == 1:
            mon.count('hull:one')
        elif len(h) == 2:
            mon.count('hull:collinear')
        arg = list(pts)
        got = convex_hull(arg)
        require(arg == pts, 'argument-changed', lambda: 'points changed: %r' % (arg,))
        check_hull(pts, got, lambda: repr(pts), 1e-9 * (1 + max(abs(c) for p in pts for c in p)))
        require(len(set(map(tuple, got))) == len(got), 'repeated', lambda: 'repeated points %r of %r' % (got, pts))
        return
    m = copy.deepcopy(case['model'])
    obj = prims.build(m)
    check = line if case['kind'] == 'line' else shape
    check(obj, m, case, mon)
    for s in case['steps']:
        prims.apply(obj, m, s)
        mon.count('after_change')
        check(obj, m, case, mon)


def line(obj, m, case, mon):
    a = m['aperture']
    if a['kind'] == 'rectangle':
        mon.count('line')
        w, h = a['width'] / 2., a['height'] / 2.
        corners = [(w, h), (-w, h), (-w, -h), (w, -h)]
        dx, dy = m['end'][0] - m['start'][0], m['end'][1] - m['start'][1]
        mon.count('line:zero' if not dx and not dy else 'line:axis' if not dx or not dy else 'line:diagonal')
    else:
        mon.count('polygon_line')
        corners = [rot((a['radius'], 0), a['rotation'] + 360. * i / a['sides'], (0, 0)) for i in range(a['sides'])]
    pts = [(p[0] + c[0], p[1] + c[1]) for p in (m['start'], m['end']) for c in corners]
    check_hull(pts, obj.vertices, lambda: '%r after %r' % (m, case['steps']), 1e-8 * prims.scale_of(m))


def shape(obj, m, case, mon):
    k = m['kind']
    mon.count('shape:' + k)
    pos, deg = tuple(m['position']), m.get('rotation', 0)
    x, y = pos
    if k == 'polygon':
        want = [rot((x + m['radius'], y), deg + 360. * i / m['sides'], pos) for i in range(m['sides'])]
    else:
        w, h = (m['width'] / 2., m['height'] / 2.)
        pts = []
        for i, (sx, sy) in enumerate(((1, 1), (-1, 1), (-1, -1), (1, -1))):
            if k == 'diamond':
                pts.append(((w, 0), (0, h), (-w, 0), (0, -h))[i])
            elif k == 'chamfer' and m['corners'][i]:
                c = m['chamfer']
                two = [(sx * w, sy * (h - c)), (sx * (w - c), sy * h)]
                pts += two if sx == sy else two[::-1]
            else:
                pts.append((sx * w, sy * h))
        want = [rot((x + px, y + py), deg, pos) for px, py in pts]
    got = [tuple(p) for p in obj.vertices]
    require(cyclic(want, got, 1e-8 * prims.scale_of(m)), 'vertices', lambda: 'vertices %r, expected %r of %r after %r' % (got, want, m, case['steps']))


def cyclic(a, b, tol):
    """Same polygon, whatever the first vertex and direction; repeated vertices count once."""
    a, b = dedup(a, tol), dedup(b, tol)
    n = len(a)
    if len(b) != n:
        return False
    for q in (b, b[::-1]):
        for k in range(n):
            if all(abs(a[i][0] - q[(i + k) % n][0]) <= tol and abs(a[i][1] - q[(i + k) % n][1]) <= tol for i in range(n)):
                return True
    return False


def dedup(p, tol):
    out = [q for i, q in enumerate(p) if i == 0 or max(abs(q[0] - p[i - 1][0]), abs(q[1] - p[i - 1][1])) > tol]
    while len(out) > 1 and max(abs(out[0][0] - out[-1][0]), abs(out[0][1] - out[-1][1])) <= tol:
        out.pop()
    return out
