"""Which points of the plane an image covers: exact point membership oracle.

A shape is a function p -> d with d > 0 inside, d < 0 outside and |d| no larger
than about the distance to its boundary, so that points with |d| <= margin are
left undecided.  An image is a list of (polarity, shape) painted in order.
"""
import math


def hypot(a, b):
    return math.sqrt(a * a + b * b)


def rot(p, deg, c=(0.0, 0.0)):
    a = math.radians(deg)
    s, k = math.sin(a), math.cos(a)
    x, y = p[0] - c[0], p[1] - c[1]
    return (c[0] + k * x - s * y, c[1] + s * x + k * y)


def disc(c, r):
    return lambda p: r - hypot(p[0] - c[0], p[1] - c[1])


def segdist(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    if l2 == 0:
        return hypot(p[0] - a[0], p[1] - a[1])
    t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2
    t = 0.0 if t < 0 else 1.0 if t > 1 else t
    return hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def capsule(a, b, r):
    return lambda p: r - segdist(p, a, b)


def poly(points):
    """Simple closed polygon (even-odd)."""
    pts = [tuple(q) for q in points]
    n = len(pts)

    def d(p):
        inside = False
        best = 1e300
        x, y = p
        for i in range(n):
            a, b = pts[i - 1], pts[i]
            e = segdist(p, a, b)
            if e < best:
                best = e
            if (a[1] > y) != (b[1] > y) and x < (b[0] - a[0]) * (y - a[1]) / (b[1] - a[1]) + a[0]:
                inside = not inside
        return best if inside else -best
    return d


def multi(contours):
    """Several contours filled together by the even-odd rule."""
    shapes = [poly(c) for c in contours]

    def d(p):
        v = [s(p) for s in shapes]
        best = min(abs(x) for x in v)
        return best if sum(1 for x in v if x > 0) % 2 else -best
    return d


def cut(a, b):
    return lambda p: min(a(p), -b(p))


def union(*shapes):
    return lambda p: max(s(p) for s in shapes)


def rect(c, w, h, deg=0.0):
    pts = [(c[0] - w / 2., c[1] - h / 2.), (c[0] + w / 2., c[1] - h / 2.),
           (c[0] + w / 2., c[1] + h / 2.), (c[0] - w / 2., c[1] + h / 2.)]
    return poly([rot(q, deg, c) for q in pts])


def regular(c, r, n, deg):
    return poly([(c[0] + r * math.cos(math.radians(deg) + 2 * math.pi * k / n),
                  c[1] + r * math.sin(math.radians(deg) + 2 * math.pi * k / n)) for k in range(n)])


def obround(c, w, h):
    if w > h:
        return capsule((c[0] - (w - h) / 2., c[1]), (c[0] + (w - h) / 2., c[1]), h / 2.)
    return capsule((c[0], c[1] - (h - w) / 2.), (c[0], c[1] + (h - w) / 2.), w / 2.)


def hull(points):
    """Convex hull (independent of the code under test)."""
    pts = sorted(set((float(a), float(b)) for a, b in points))
    if len(pts) < 3:
        return pts

    def half(seq):
        out = []
        for q in seq:
            while len(out) > 1 and ((out[-1][0] - out[-2][0]) * (q[1] - out[-2][1])
                                    - (out[-1][1] - out[-2][1]) * (q[0] - out[-2][0])) <= 0:
                out.pop()
            out.append(q)
        return out
    lo, hi = half(pts), half(pts[::-1])
    return lo[:-1] + hi[:-1]


def swept_rect(a, b, w, h):
    pts = []
    for q in (a, b):
        for sx in (-1, 1):
            for sy in (-1, 1):
                pts.append((q[0] + sx * w / 2., q[1] + sy * h / 2.))
    return poly(hull(pts))


def arc_params(s, e, c, direction, full_ok):
    a0 = math.atan2(s[1] - c[1], s[0] - c[0])
    a1 = math.atan2(e[1] - c[1], e[0] - c[0])
    d = (a1 - a0) if direction == 'counterclockwise' else (a0 - a1)
    d %= 2 * math.pi
    if d < 1e-9 or d > 2 * math.pi - 1e-9:
        d = 2 * math.pi if full_ok and hypot(s[0] - e[0], s[1] - e[1]) < 1e-9 else d % (2 * math.pi)
    return a0, d if direction == 'counterclockwise' else -d


def arc_points(s, e, c, direction, full_ok, n=96):
    a0, sw = arc_params(s, e, c, direction, full_ok)
    r0 = hypot(s[0] - c[0], s[1] - c[1])
    r1 = hypot(e[0] - c[0], e[1] - c[1])
    k = max(2, int(abs(sw) / (2 * math.pi) * n + 1.37))
    out = []
    for i in range(k + 1):
        t = float(i) / k
        r = r0 + (r1 - r0) * t
        out.append((c[0] + r * math.cos(a0 + sw * t), c[1] + r * math.sin(a0 + sw * t)))
    out[0] = tuple(s)
    out[-1] = tuple(e)
    return out


def arc_stroke(s, e, c, direction, full_ok, r):
    pts = arc_points(s, e, c, direction, full_ok, 360)

    def d(p):
        return r - min(segdist(p, pts[i], pts[i + 1]) for i in range(len(pts) - 1))
    return d


def thermal(c, od, idm, gap, deg):
    """Centre given unrotated; everything rotated about the origin."""
    cc = rot(c, deg)

    def d(p):
        q = rot(p, -deg, cc)
        x, y = q[0] - cc[0], q[1] - cc[1]
        r = hypot(x, y)
        return min(od / 2. - r, r - idm / 2., abs(x) - gap / 2., abs(y) - gap / 2.)
    return d


# ---------------------------------------------------------------- images
def paint(image, p, margin, state='clear'):
    """'dark', 'clear' or 'unsure' at p after painting image in order."""
    for pol, shape in image:
        v = shape(p)
        if v is None:
            cover = 0
        else:
            cover = 1 if v > margin else -1 if v < -margin else 0
        if cover > 0:
            state = pol
        elif cover == 0 and state != pol:
            state = 'unsure'
    return state


def group(elements, margin):
    """A macro as one shape: covered where its own little image is dark."""
    def d(p):
        s = paint(elements, p, margin)
        return margin * 1e6 + 1 if s == 'dark' else -(margin * 1e6 + 1) if s == 'clear' else 0.0
    return d


def hole_shape(c, hole):
    if hole[0] == 'round':
        return disc(c, hole[1] / 2.)
    if hole[0] == 'rect':
        return rect(c, hole[1], hole[2])
    return None


def flash_shape(pos, ap, margin):
    k = ap[0]
    if k == 'M':
        return group([(pol, sh) for pol, sh in map(am_shape, ap[1])], margin)
    hole = ap[-1]
    if k == 'C':
        s = disc(pos, ap[1] / 2.)
    elif k == 'R':
        s = rect(pos, ap[1], ap[2])
    elif k == 'O':
        s = obround(pos, ap[1], ap[2])
    elif k == 'P':
        s = regular(pos, ap[1] / 2., ap[2], ap[3])
        if hole[0] == 'rect':
            h = rect(pos, hole[1], hole[2], ap[3])
            return cut(s, h)
    else:
        raise AssertionError('unknown aperture %r' % (ap,))
    h = hole_shape(pos, hole)
    return cut(s, h) if h else s


def am_shape(e):
    """(polarity, shape) of an observed macro element (gbr.amelem)."""
    k = e[0]
    if k == 'circle':
        if len(e) > 4:
            return e[1], cut(disc(e[2], e[3] / 2.), disc(e[2], e[4] / 2.))
        return e[1], disc(e[2], e[3] / 2.)
    if k == 'poly':
        return e[1], regular(e[2], e[3], e[4], e[5])
    if k == 'outline':
        return e[1], poly(e[2])
    if k == 'rect':
        return e[1], rect(e[2], e[3], e[4], e[5])
    raise AssertionError('unknown macro element %r' % (e,))


def shape_of(n, margin):
    """(polarity, shape) of a normal form made by gbr.obs or gbr.Ref."""
    k = n[0]
    if k == 'flash':
        return n[1], flash_shape(n[2], n[3], margin)
    if k == 'line':
        ap = n[4]
        if ap[0] == 'C':
            return n[1], capsule(n[2], n[3], ap[1] / 2.)
        if ap[0] == 'R':
            return n[1], swept_rect(n[2], n[3], ap[1], ap[2])
        raise AssertionError('line with aperture %r' % (ap,))
    if k == 'arc':
        return n[1], arc_stroke(n[2], n[3], n[4], n[5], n[7] == 'multi-quadrant', n[6][1] / 2.)
    if k == 'region':
        return n[1], multi(contours(n[2]))
    raise AssertionError('unknown object %r' % (n,))


def contours(segs):
    """Splits region segments into contours of points."""
    out = []
    last = None
    for s in segs:
        if last is None or abs(s[1][0] - last[0]) > 1e-9 + 1e-12 * abs(last[0]) or abs(s[1][1] - last[1]) > 1e-9 + 1e-12 * abs(last[1]):
            out.append([])
        if s[0] == 'line':
            out[-1].append(s[2])
        else:
            out[-1].extend(arc_points(s[1], s[2], s[3], s[4], s[5] == 'multi-quadrant')[1:])
        last = s[2]
    return out


def image_of(norms, margin):
    return [shape_of(n, margin) for n in norms]


# ---------------------------------------------------------------- macro reference
def ref_element(vals):
    """(polarity, shape, key points) of one macro primitive given its numbers."""
    code = int(vals[0])
    v = vals[1:]
    if code == 7:
        c = (v[0], v[1])
        pts = [rot((c[0] + f * v[2] / 2. * a, c[1] + f * v[2] / 2. * b), v[5])
               for a, b in ((1, 0), (0, 1), (-1, 0), (0, -1), (.7, .7), (-.7, .7), (.7, -.7), (-.7, -.7))
               for f in (0, .5, (1 + v[3] / v[2]) / 2., .97, 1.1)]
        return 'dark', thermal(c, v[2], v[3], v[4], v[5]), pts
    if code == 6:
        c = rot((v[0], v[1]), v[8])
        shapes, pts = [], [c]
        d, k = v[2], 0
        while d > 1e-9 and k < v[5]:
            inner = max(d - 2 * v[3], 0.0)
            shapes.append(cut(disc(c, d / 2.), disc(c, inner / 2.)) if inner > 0 else disc(c, d / 2.))
            for r in (d / 2. - v[3] / 2., d / 2. - v[3] - v[4] / 2., d / 2. - .02, d / 2. + .02, d / 2. - v[3] + .02, d / 2. - v[3] - .02):
                if r > 0:
                    pts += [(c[0] + r * math.cos(a + math.radians(v[8])), c[1] + r * math.sin(a + math.radians(v[8]))) for a in (.6, 2.4, 3.9, 5.7)]
            d -= 2 * (v[3] + v[4])
            k += 1
        if v[6] > 0 and v[7] > 0:
            for w, h in ((v[7], v[6]), (v[6], v[7])):
                shapes.append(rect(c, w, h, v[8]))
                pts += [rot((c[0] + f * w / 2., c[1] + g * h / 2.), v[8], c)
                        for f, g in ((.96, 0), (-.96, 0), (1.04, 0), (-1.04, 0), (0, .96), (0, -.96), (0, 1.04), (0, -1.04),
                                     (.9, .8), (.9, -.8), (.8, .9), (-.8, .9), (.9, 1.3), (1.3, .9))]
        if not shapes:
            return 'dark', lambda p: -1e9, pts
        return 'dark', union(*shapes), pts
    pol = 'dark' if v[0] == 1 else 'clear'
    if code == 22:
        w, h, (x, y) = v[1], v[2], (v[3], v[4])
        pts = [rot(q, v[5]) for q in ((x, y), (x + w, y), (x + w, y + h), (x, y + h))]
        return pol, poly(pts), inout(pts)
    if code == 1:
        c = rot((v[2], v[3]), v[4] if len(v) > 4 else 0)
        return pol, disc(c, v[1] / 2.), [c, (v[2], v[3])] + around(c, v[1] / 2.)
    if code in (2, 20):
        s, e, w = (v[2], v[3]), (v[4], v[5]), v[1]
        l = hypot(e[0] - s[0], e[1] - s[1])
        ox, oy = (-(e[1] - s[1]) / l * w / 2., (e[0] - s[0]) / l * w / 2.)
        pts = [(s[0] + ox, s[1] + oy), (s[0] - ox, s[1] - oy), (e[0] - ox, e[1] - oy), (e[0] + ox, e[1] + oy)]
        pts = [rot(q, v[6]) for q in pts]
        return pol, poly(pts), inout(pts)
    if code == 21:
        w, h, c = v[1], v[2], (v[3], v[4])
        pts = [(c[0] - w / 2., c[1] - h / 2.), (c[0] + w / 2., c[1] - h / 2.), (c[0] + w / 2., c[1] + h / 2.), (c[0] - w / 2., c[1] + h / 2.)]
        pts = [rot(q, v[5]) for q in pts]
        return pol, poly(pts), inout(pts)
    if code == 4:
        n = int(v[1])
        pts = [rot((v[2 + 2 * k], v[3 + 2 * k]), v[2 + 2 * (n + 1)]) for k in range(n)]
        return pol, poly(pts), inout(pts)
    if code == 5:
        c = rot((v[2], v[3]), v[5])
        n = int(v[1])
        pts = [(c[0] + v[4] / 2. * math.cos(math.radians(v[5]) + 2 * math.pi * k / n),
                c[1] + v[4] / 2. * math.sin(math.radians(v[5]) + 2 * math.pi * k / n)) for k in range(n)]
        return pol, poly(pts), inout(pts)
    raise AssertionError(code)


def around(c, r):
    return [(c[0] + f * r * math.cos(k * math.pi / 4), c[1] + f * r * math.sin(k * math.pi / 4))
            for k in range(8) for f in (.95, 1.05)]


def inout(pts):
    """Points just inside and outside the corners and edges of a polygon."""
    cx = sum(p[0] for p in pts) / len(pts)
    cy = sum(p[1] for p in pts) / len(pts)
    out = [(cx, cy)]
    for i, p in enumerate(pts):
        q = pts[i - 1]
        m = ((p[0] + q[0]) / 2., (p[1] + q[1]) / 2.)
        for a in (p, m):
            for f in (.94, 1.06):
                out.append((cx + f * (a[0] - cx), cy + f * (a[1] - cy)))
    return out


def winding(points):
    """Winding number of a closed polygon around a point."""
    pts = [tuple(q) for q in points]

    def w(p):
        x, y = p
        n = 0
        for i in range(len(pts)):
            a, b = pts[i - 1], pts[i]
            if (a[1] > y) != (b[1] > y) and x < (b[0] - a[0]) * (y - a[1]) / (b[1] - a[1]) + a[0]:
                n += 1 if b[1] > a[1] else -1
        return n
    return w


def plain_multi(cs):
    """Like multi, but undecided where outlines that cross themselves leave room for interpretation."""
    d = multi(cs)
    ws = [winding(c) for c in cs]

    def e(p):
        n = [w(p) for w in ws]
        v = d(p)
        return v if (sum(n) != 0) == (v > 0) and all(abs(k) < 2 for k in n) else 0.0
    return e
