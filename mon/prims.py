"""Models of single graphic objects: random parameters, construction of the real
object, exact extents, and histories applied to object and model alike."""
import math
from mon.area import rot, hypot

CW, CCW = 'clockwise', 'counterclockwise'
FLASH = ['circle', 'ellipse', 'rectangle', 'diamond', 'chamfer', 'roundrect', 'obround', 'polygon', 'roundbutterfly',
         'squarebutterfly', 'donut', 'squarerounddonut', 'drill']
STROKE = ['line', 'arc', 'slot']
COMPOUND = ['outline', 'region']
KINDS = FLASH + STROKE + COMPOUND
ROTATABLE = ('ellipse', 'rectangle', 'diamond', 'chamfer', 'roundrect', 'obround', 'polygon')
LENGTHS = {'circle': ['diameter'], 'ellipse': ['width', 'height'], 'rectangle': ['width', 'height'], 'diamond': ['width', 'height'],
           'chamfer': ['width', 'height', 'chamfer'], 'roundrect': ['width', 'height', 'radius'], 'obround': ['width', 'height'],
           'polygon': ['radius'], 'roundbutterfly': ['diameter'], 'squarebutterfly': ['side'],
           'donut': ['inner_diameter', 'outer_diameter'], 'squarerounddonut': ['inner_diameter', 'outer_diameter'],
           'drill': ['diameter'], 'slot': ['diameter'], 'line': [], 'arc': [], 'outline': [], 'region': []}
AP = ['circle', 'rectangle', 'obround', 'polygon']
HOLES = ['hole_diameter', 'hole_width', 'hole_height']


def lengths(m):
    return LENGTHS[m['kind']] + [h for h in HOLES if h in m]


def add_hole(rng, m):
    if m['kind'] in AP and rng.random() < .4:
        r = rng.random()
        d = m.get('diameter') or m.get('radius') or min(m.get('width', 1), m.get('height', 1))
        if r < .4:
            m['hole_diameter'] = d * .5
        else:
            m['hole_width'] = d * .4
            m['hole_height'] = d * rng.choice([.3, .4, .5])


def num(rng, lo, hi):
    v = rng.uniform(lo, hi)
    return rng.choice([round(v), round(v, 1), round(v, 3), v])


def length(rng):
    return max(abs(num(rng, 0.01, 5)), 0.01)


def point(rng):
    return [num(rng, -6, 6), num(rng, -6, 6)]


def angle(rng):
    return rng.choice([0, 0, 0, 90, 180, 270, -90, 45, 135, 30, 200, -30, 361, 0.0, 720, round(rng.uniform(-400, 400), 2)])


def aperture(rng, kinds=AP):
    k = rng.choice(kinds)
    a = {'kind': k}
    for n in LENGTHS[k]:
        a[n] = length(rng)
    if rng.random() < 0.1 and k in ('circle', 'rectangle'):
        a[LENGTHS[k][0]] = 0
    if k == 'polygon':
        a['sides'] = rng.randint(3, 12)
        a['rotation'] = angle(rng)
    add_hole(rng, a)
    return a


def corners(rng):
    return [rng.random() < .5 for _ in range(4)]


def model(rng, kind=None, lineaps=AP):
    k = kind or rng.choice(KINDS)
    m = {'kind': k, 'units': rng.choice(['inch', 'metric'])}
    for n in LENGTHS[k]:
        m[n] = length(rng)
    if 'height' in m and rng.random() < .2:
        m['height'] = m['width']
    if k in FLASH:
        m['position'] = point(rng)
        if rng.random() < .1:
            m['position'][1] = m['position'][0]
    add_hole(rng, m)
    if k in ROTATABLE:
        m['rotation'] = angle(rng)
    if k in ('chamfer', 'roundrect'):
        m['corners'] = corners(rng)
        n = 'chamfer' if k == 'chamfer' else 'radius'
        m[n] = min(m['width'], m['height']) * rng.choice([0.1, 0.25, 0.5, 0.7, 0.9])
        if not corners_fit(m):
            m[n] = min(m['width'], m['height']) * rng.choice([0.1, 0.25, 0.5])
    if k == 'polygon':
        m['sides'] = rng.randint(3, 12)
    if k in ('donut', 'squarerounddonut'):
        m['outer_diameter'] = m['inner_diameter'] + length(rng)
    if k == 'donut':
        m['shape'] = rng.choice(['round', 'square', 'hexagon', 'octagon'])
    if k == 'slot':
        m['start'], m['end'] = point(rng), point(rng)
    if k == 'line':
        m['start'], m['end'] = point(rng), point(rng)
        r = rng.random()
        if r < .2:
            m['end'] = list(m['start'])
        elif r < .45:
            a = rng.randint(0, 1)
            m['end'][a] = m['start'][a]
        m['aperture'] = aperture(rng, lineaps)
    if k == 'arc':
        m.update(arc(rng))
        m['aperture'] = aperture(rng, lineaps)
    if k == 'outline':
        n = rng.randint(3, 8)
        pts = [point(rng) for _ in range(n)]
        m['points'] = pts + [list(pts[0])]
    if k == 'region':
        cur = first = point(rng)
        segs = []
        for _ in range(rng.randint(1, 6)):
            if rng.random() < .3:
                a = arc(rng)
                dx, dy = cur[0] - a['start'][0], cur[1] - a['start'][1]
                for n in ('start', 'end', 'center'):
                    a[n] = [a[n][0] + dx, a[n][1] + dy]
                a['start'] = list(cur)
                if a['full']:
                    a['end'] = list(cur)
                a['kind'] = 'arc'
                segs.append(a)
                cur = a['end']
            else:
                nxt = point(rng)
                segs.append({'kind': 'line', 'start': list(cur), 'end': nxt})
                cur = nxt
        if cur != first:
            segs.append({'kind': 'line', 'start': list(cur), 'end': list(first)})
        m['segs'] = segs
    return m


def arc(rng):
    c, r = point(rng), length(rng)
    a0 = rng.choice([0, 45, 90, 180, 270, 300, rng.uniform(0, 360)])
    full = rng.random() < .1
    sw = 360 if full else rng.choice([10, 45, 90, 135, 180, 270, 350, rng.uniform(5, 355)])
    d = rng.choice([CW, CCW])
    f = lambda a: [c[0] + r * math.cos(math.radians(a)), c[1] + r * math.sin(math.radians(a))]
    s = f(a0)
    e = list(s) if full else f(a0 + (sw if d == CCW else -sw))
    return {'start': s, 'end': e, 'center': c, 'direction': d, 'quadrant_mode': 'multi-quadrant' if full or sw > 90 else
            rng.choice(['multi-quadrant', 'single-quadrant']), 'full': full}


# ---------------------------------------------------------------- the real object
def build(m):
    from gerber import primitives as pr
    k = m['kind']
    t = lambda n: tuple(m[n])
    kw = {'units': m.get('units')}
    for h in HOLES:
        if h in m:
            kw[h] = m[h]
    if 'rotation' in m:
        kw['rotation'] = m['rotation']
    if k == 'circle':
        return pr.Circle(t('position'), m['diameter'], **kw)
    if k == 'ellipse':
        return pr.Ellipse(t('position'), m['width'], m['height'], **kw)
    if k in ('rectangle', 'diamond', 'obround'):
        c = {'rectangle': pr.Rectangle, 'diamond': pr.Diamond, 'obround': pr.Obround}[k]
        return c(t('position'), m['width'], m['height'], **kw)
    if k == 'chamfer':
        return pr.ChamferRectangle(t('position'), m['width'], m['height'], m['chamfer'], list(m['corners']), **kw)
    if k == 'roundrect':
        return pr.RoundRectangle(t('position'), m['width'], m['height'], m['radius'], list(m['corners']), **kw)
    if k == 'polygon':
        return pr.Polygon(t('position'), m['sides'], m['radius'], **kw)
    if k == 'roundbutterfly':
        return pr.RoundButterfly(t('position'), m['diameter'], **kw)
    if k == 'squarebutterfly':
        return pr.SquareButterfly(t('position'), m['side'], **kw)
    if k == 'donut':
        return pr.Donut(t('position'), m['shape'], m['inner_diameter'], m['outer_diameter'], **kw)
    if k == 'squarerounddonut':
        return pr.SquareRoundDonut(t('position'), m['inner_diameter'], m['outer_diameter'], **kw)
    if k == 'drill':
        return pr.Drill(t('position'), m['diameter'], **kw)
    if k == 'slot':
        return pr.Slot(t('start'), t('end'), m['diameter'], **kw)
    if k == 'line':
        return pr.Line(t('start'), t('end'), build_ap(m['aperture'], m['units']), **kw)
    if k == 'arc':
        return pr.Arc(t('start'), t('end'), t('center'), m['direction'], build_ap(m['aperture'], m['units']), m['quadrant_mode'], **kw)
    if k == 'outline':
        p = [tuple(q) for q in m['points']]
        return pr.Outline([pr.Line(a, b, pr.Circle((0, 0), 0, units=m['units']), **kw) for a, b in zip(p, p[1:])], **kw)
    if k == 'region':
        out = []
        for s in m['segs']:
            ap = pr.Circle((0, 0), 0.3, units=m['units'])
            if s['kind'] == 'line':
                out.append(pr.Line(tuple(s['start']), tuple(s['end']), ap, **kw))
            else:
                out.append(pr.Arc(tuple(s['start']), tuple(s['end']), tuple(s['center']), s['direction'], ap, s['quadrant_mode'], **kw))
        return pr.Region(out, **kw)
    raise AssertionError(k)


def build_ap(a, units):
    return build(dict(a, units=units, position=(0, 0)))


# ---------------------------------------------------------------- extents
def pts_box(pts):
    xs, ys = zip(*pts)
    return ((min(xs), max(xs)), (min(ys), max(ys)))


def grow(box, w, h):
    return ((box[0][0] - w, box[0][1] + w), (box[1][0] - h, box[1][1] + h))


def union(boxes):
    boxes = list(boxes)
    return ((min(b[0][0] for b in boxes), max(b[0][1] for b in boxes)), (min(b[1][0] for b in boxes), max(b[1][1] for b in boxes)))


def arc_box(s, e, c, d, full):
    """Box of the swept centre line."""
    r = hypot(s[0] - c[0], s[1] - c[1])
    a0 = math.atan2(s[1] - c[1], s[0] - c[0])
    a1 = math.atan2(e[1] - c[1], e[0] - c[0])
    sw = 2 * math.pi if full else ((a1 - a0) if d == CCW else (a0 - a1)) % (2 * math.pi)
    pts = [tuple(s), tuple(e)]
    for k in range(4):
        off = ((k * math.pi / 2 - a0) if d == CCW else (a0 - k * math.pi / 2)) % (2 * math.pi)
        if off < sw:
            pts.append((c[0] + r * math.cos(k * math.pi / 2), c[1] + r * math.sin(k * math.pi / 2)))
    return pts_box(pts)


def support(k, m, pos):
    """Box of the area covered by a flash of kind k with parameters m at pos."""
    deg = m.get('rotation', 0)
    x, y = pos
    if k in ('circle', 'drill', 'roundbutterfly'):
        r = m['diameter'] / 2.
        return grow(((x, x), (y, y)), r, r)
    if k == 'ellipse':
        a, b, t = m['width'] / 2., m['height'] / 2., math.radians(deg)
        return grow(((x, x), (y, y)), hypot(a * math.cos(t), b * math.sin(t)), hypot(a * math.sin(t), b * math.cos(t)))
    if k in ('rectangle', 'chamfer', 'roundrect', 'obround', 'diamond'):
        w, h = m['width'] / 2., m['height'] / 2.
        dots = []       # (centre point, disc radius)
        for i, (sx, sy) in enumerate(((1, 1), (-1, 1), (-1, -1), (1, -1))):
            if k == 'rectangle' or (k in ('chamfer', 'roundrect') and not m['corners'][i]):
                dots.append((sx * w, sy * h, 0))
            elif k == 'chamfer':
                c = m['chamfer']
                dots += [(sx * (w - c), sy * h, 0), (sx * w, sy * (h - c), 0)]
            elif k == 'roundrect':
                r = m['radius']
                dots.append((sx * (w - r), sy * (h - r), r))
            elif k == 'obround':
                r = min(w, h)
                dots.append((sx * (w - r), sy * (h - r), r))
            else:
                dots.append(((sx * w, 0, 0) if i % 2 else (0, sy * h, 0)))
        if k == 'diamond':
            dots = [(w, 0, 0), (-w, 0, 0), (0, h, 0), (0, -h, 0)]
        boxes = []
        for dx, dy, r in dots:
            p = rot((x + dx, y + dy), deg, pos)
            boxes.append(grow(((p[0], p[0]), (p[1], p[1])), r, r))
        return union(boxes)
    if k == 'polygon':
        n, r = m['sides'], m['radius']
        return pts_box([rot((x + r, y), deg + 360. * i / n, pos) for i in range(n)])
    if k == 'squarebutterfly':
        return grow(((x, x), (y, y)), m['side'] / 2., m['side'] / 2.)
    if k == 'squarerounddonut':
        return grow(((x, x), (y, y)), m['outer_diameter'] / 2., m['outer_diameter'] / 2.)
    if k == 'donut':
        h = m['outer_diameter'] / 2.
        w = h * math.sqrt(3) / 2 if m['shape'] == 'hexagon' else h
        return grow(((x, x), (y, y)), w, h)
    raise AssertionError(k)


def ap_box(a):
    return support(a['kind'], a, (0., 0.))


def add_box(b, a):
    return ((b[0][0] + a[0][0], b[0][1] + a[0][1]), (b[1][0] + a[1][0], b[1][1] + a[1][1]))


def no_aperture(m):
    if m['kind'] == 'arc':
        return arc_box(m['start'], m['end'], m['center'], m['direction'], m['full'])
    return pts_box([m['start'], m['end']])


def extents(m):
    k = m['kind']
    if k in FLASH:
        return support(k, m, tuple(m['position']))
    if k == 'slot':
        return grow(pts_box([m['start'], m['end']]), m['diameter'] / 2., m['diameter'] / 2.)
    if k in ('line', 'arc'):
        return add_box(no_aperture(m), ap_box(m['aperture']))
    if k == 'outline':
        return pts_box(m['points'])
    return union(no_aperture(s) for s in m['segs'])


def is_tight(m):
    """Shapes whose box must touch them on all sides."""
    a = m.get('aperture')
    if m['kind'] == 'polygon' or (a and a['kind'] == 'polygon'):
        return False
    return m.get('rotation', 0) % 360 == 0 or m['kind'] in ('ellipse', 'rectangle')


def loose(m):
    """Upper bound for the box of a regular polygon: the circumscribed circle."""
    a = m.get('aperture')
    if m['kind'] == 'polygon':
        r = m['radius']
        x, y = m['position']
        return grow(((x, x), (y, y)), r, r)
    if a and a['kind'] == 'polygon':
        return grow(no_aperture(m), a['radius'], a['radius'])
    return None


# ---------------------------------------------------------------- histories
POINTS = ('position', 'start', 'end', 'center')


def corners_fit(m):
    """Whether two cut corners leave something of the side between them."""
    if m['kind'] == 'roundrect':
        return m['radius'] <= min(m['width'], m['height']) / 2.
    c = m['chamfer']
    for i, side in enumerate(('width', 'height', 'width', 'height')):
        if c * (m['corners'][i] + m['corners'][(i + 1) % 4]) > m[side]:
            return False
    return True


def gen_step(rng, m):
    """A random step, applicable to the kind of m (not dependent on its state)."""
    k = m['kind']
    ch = ['offset', 'offset', 'to_inch', 'to_metric', 'to_inch', 'to_metric']
    if k in FLASH:
        ch += ['position', 'position']
    if LENGTHS[k]:
        ch += ['length'] * 3
    if k in ROTATABLE:
        ch += ['rotation'] * 2
    if k in ('chamfer', 'roundrect'):
        ch.append('corners')
    if k in ('line', 'slot'):
        ch += ['start', 'end']
    if k in ('line', 'arc'):
        ch += ['aperture', 'ap_length', 'ap_length']
    if k == 'arc':
        ch += ['reshape']
    if k in ('outline', 'region'):
        ch += ['child_offset']
    s = rng.choice(ch)
    if s == 'offset':
        return [s] + rng.choice([point(rng), point(rng), [point(rng)[0], 0], [0, point(rng)[1]]])
    if s in ('to_inch', 'to_metric'):
        return [s]
    if s in ('position', 'start', 'end'):
        return [s, point(rng)]
    if s == 'length':
        n = rng.choice(LENGTHS[k])
        if k in ('donut', 'squarerounddonut'):
            return [s, 'outer_diameter', 5 + length(rng)] if n == 'outer_diameter' else [s, n, 0.005]
        if n in ('chamfer', 'radius') and k != 'polygon':
            return [s, n, 0.004]
        return [s, n, length(rng)]
    if s == 'rotation':
        return [s, angle(rng)]
    if s == 'corners':
        return [s, corners(rng)]
    if s == 'aperture':
        return [s, aperture(rng)]
    if s == 'ap_length':
        return [s, rng.randint(0, 1), length(rng)]
    if s == 'reshape':
        return [s, arc(rng)]
    if s == 'child_offset':
        return [s, rng.randint(0, 9)] + point(rng)
    raise AssertionError(s)


def scale_model(m, f):
    for n in lengths(m):
        if n in m:
            m[n] *= f
    for n in POINTS:
        if n in m:
            m[n] = [v * f for v in m[n]]
    if 'aperture' in m:
        for n in lengths(m['aperture']):
            m['aperture'][n] *= f
    if 'points' in m:
        m['points'] = [[v * f for v in p] for p in m['points']]
    for s in m.get('segs', ()):
        for n in POINTS:
            if n in s:
                s[n] = [v * f for v in s[n]]


def move_model(m, dx, dy):
    mv = lambda p: [p[0] + dx, p[1] + dy]
    for n in POINTS:
        if n in m:
            m[n] = mv(m[n])
    if 'points' in m:
        m['points'] = [mv(p) for p in m['points']]
    for s in m.get('segs', ()):
        for n in POINTS:
            if n in s:
                s[n] = mv(s[n])


def shift(obj, x, y):
    """Moves an object, a statement or a design, along one axis by that axis alone."""
    if y == 0:
        obj.offset(x_offset=x)
    elif x == 0:
        obj.offset(y_offset=y)
    else:
        obj.offset(x, y)


def apply(obj, m, step):
    """Applies a step to the object and, independently, to its model."""
    s = step[0]
    if s == 'offset':
        shift(obj, step[1], step[2])
        move_model(m, step[1], step[2])
    elif s == 'to_inch':
        obj.to_inch()
        if m['units'] == 'metric':
            scale_model(m, 1 / 25.4)
        m['units'] = 'inch'
    elif s == 'to_metric':
        obj.to_metric()
        if m['units'] == 'inch':
            scale_model(m, 25.4)
        m['units'] = 'metric'
    elif s in ('position', 'start', 'end'):
        setattr(obj, s, tuple(step[1]))
        m[s] = list(step[1])
    elif s == 'length':
        n = dict(m, **{step[1]: step[2]})
        if m['kind'] in ('chamfer', 'roundrect') and not corners_fit(n):
            return          # there is no such shape
        if n.get('inner_diameter', 0) >= n.get('outer_diameter', 1e9):
            return
        setattr(obj, step[1], step[2])
        m[step[1]] = step[2]
    elif s in ('rotation',):
        obj.rotation = step[1]
        m['rotation'] = step[1]
    elif s == 'corners':
        if not corners_fit(dict(m, corners=step[1])):
            return
        obj.corners = list(step[1])
        m['corners'] = list(step[1])
    elif s == 'aperture':
        obj.aperture = build_ap(step[1], m['units'])
        m['aperture'] = dict(step[1])
    elif s == 'ap_length':
        names = LENGTHS[m['aperture']['kind']]
        n = names[step[1] % len(names)]
        setattr(obj.aperture, n, step[2])
        m['aperture'][n] = step[2]
    elif s == 'reshape':
        a = step[1]
        obj.start, obj.end, obj.center = tuple(a['start']), tuple(a['end']), tuple(a['center'])
        obj.direction = a['direction']
        obj.quadrant_mode = a['quadrant_mode']
        m.update(a)
    elif s == 'child_offset':
        kids = obj.primitives
        i = step[1] % len(kids)
        kids[i].offset(step[2], step[3])
        if m['kind'] == 'outline':      # a model of an outline is a list of segments from here on
            p = m.pop('points')
            m['kind'] = 'region'
            m['segs'] = [{'kind': 'line', 'start': list(a), 'end': list(b)} for a, b in zip(p, p[1:])]
            m['was_outline'] = True
        sg = m['segs'][i]
        for n in POINTS:
            if n in sg:
                sg[n] = [sg[n][0] + step[2], sg[n][1] + step[3]]
    else:
        raise AssertionError(s)


def scale_of(m):
    b = extents(m)
    return max(1.0, max(abs(v) for ax in b for v in ax))
