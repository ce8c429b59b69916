"""C06: arcs have the centre, sweep and extent their command describes."""
import math

from mon import gbr
from mon.core import require

PID = 'C06'
QUICK, THOROUGH = 16000, 200000
RULE = ('a case is a file of 4-10 arc commands (both modes, both directions, angles in every quadrant, on and across the '
        'axes, full circles) or a batch of directly built arcs; every distinct arc is non-trivial; centre, radius, angles, '
        'sweep and both boxes are compared with exact trigonometry of the commanded arc')
REQUIRED = {'arc_multi': 2000, 'arc_single': 1000, 'full_circle': 300, 'crosses_zero_ccw': 300, 'box': 2000, 'direct': 500, 'radial': 200}
ASSUMPTIONS = ['round apertures (the only ones the format allows for arcs)',
               'single-quadrant arcs whose centre is unambiguous at the coordinate resolution']


def gen(rng, i):
    if i % 4 == 3:
        arcs = []
        for _ in range(8):
            r = rng.choice([1.0, 0.5, rng.uniform(0.01, 20)])
            c = (rng.choice([0.0, rng.uniform(-10, 10)]), rng.choice([0.0, rng.uniform(-10, 10)]))
            a0 = rng.uniform(0, 360) if rng.random() < 0.6 else rng.choice([0, 90, 180, 270, 45, 30, 359.5, 0.5])
            full = rng.random() < 0.2
            sw = rng.uniform(0.5, 359.5) if rng.random() < 0.8 else rng.choice([90, 180, 270])
            single = rng.random() < 0.3 and not full
            if single:
                sw = rng.uniform(1, 90)
            if rng.random() < 0.1 and not single:
                # the end is further out (or in) in the very direction of the start: no turn at all
                out = rng.choice([1.0001, 1.5, 0.5])
                arcs.append([r, [0.0, 0.0], [rng.choice([1.0, -1.0, 0.0]), rng.choice([1.0, -1.0, 0.5])], out, rng.choice([gbr.CW, gbr.CCW]),
                             'multi-quadrant', rng.choice([0.0, 0.1])])
                continue
            arcs.append([r, list(c), a0, 360 if full else sw, rng.choice([gbr.CW, gbr.CCW]),
                         'single-quadrant' if single else 'multi-quadrant', rng.choice([0.0, 0.1, 1.0, rng.uniform(0.001, 3)])])
        return {'kind': 'direct', 'arcs': arcs}
    prog = {'units': rng.choice(['inch', 'metric']), 'fmt': rng.choice([[2, 5], [2, 4], [3, 6], [3, 4]]), 'zs': 'L',
            'ops': [['ad', 10, 'C', [gbr.dec(rng, 0.01, 0.4)]], ['sel', 10, False]]}
    cur = (0, 0)
    single = False
    for _ in range(rng.randint(4, 10)):
        if rng.random() < 0.35:
            single = not single
            prog['ops'].append(['q', 'G74' if single else 'G75'])
        if rng.random() < 0.5:
            cur = (gbr.rnd_coord(rng, prog), gbr.rnd_coord(rng, prog))
            prog['ops'].append(['op', None, cur[0], cur[1], None, None, 'D02'])
        op, cur = gbr.gen_arc(rng, prog, cur, single)
        if op:
            op[6] = 'D01'
            prog['ops'].append(op)
    return {'kind': 'file', 'prog': prog}


def fixed():
    out = []
    for a0 in range(0, 360, 15):
        arcs = []
        for sw in range(15, 361, 15):
            for d in (gbr.CW, gbr.CCW):
                arcs.append([2.0, [0.0, 0.0], a0, sw, d, 'multi-quadrant', 0.5])
        out.append({'kind': 'direct', 'arcs': arcs})
    return out


def judge(case, mon):
    import gerber
    if case['kind'] == 'direct':
        from gerber.primitives import Arc, Circle
        for r, c, a0, sw, d, q, dia in case['arcs']:
            if isinstance(a0, list):
                start = tuple(r * x for x in a0)
                end = tuple(x * sw for x in start)
                if math.atan2(start[1], start[0]) == math.atan2(end[1], end[0]):
                    mon.count('radial')
                    check(Arc(start, end, tuple(c), d, Circle((0, 0), dia), q), start, end, tuple(c), d, q, dia, r * 1e-9, mon)
                continue
            start = on(c, r, a0)
            end = start if sw == 360 else on(c, r, a0 + (sw if d == gbr.CCW else -sw))
            arc = Arc(start, end, tuple(c), d, Circle((0, 0), dia), q)
            mon.count('direct')
            check(arc, start, end, tuple(c), d, q, dia, r * 1e-9 + 1e-12, mon)
        return
    prog = case['prog']
    ref = gbr.Ref(prog)
    f = gerber.loads(gbr.text(prog))
    prims = list(f.primitives)
    require(len(prims) == len(ref.objects), 'count', lambda: '%d arcs read, %d commanded' % (len(prims), len(ref.objects)))
    for p, o in zip(prims, ref.objects):
        _, pol, s, e, c, d, ap, q = o
        require(p.center is not None, 'centre', 'no centre found for %r\n%s' % (o, gbr.text(prog)))
        check(p, s, e, c, d, q, ap[1], 1e-9, mon)


def on(c, r, deg):
    return (c[0] + r * math.cos(math.radians(deg)), c[1] + r * math.sin(math.radians(deg)))


def check(arc, s, e, c, d, q, dia, tol, mon):
    what = lambda: 'start %r end %r centre %r %s %s diameter %r' % (s, e, c, d, q, dia)
    mon.count('arc_multi' if q.startswith('multi') else 'arc_single')
    require(gbr.close((s, e, c), (gbr.pt2(arc.start), gbr.pt2(arc.end), gbr.pt2(arc.center)), tol), 'centre',
            lambda: 'expected %s, got start %r end %r centre %r' % (what(), arc.start, arc.end, arc.center))
    require(arc.direction == d, 'direction', lambda: '%s reported as %s' % (what(), arc.direction))
    r = math.hypot(s[0] - c[0], s[1] - c[1])
    require(abs(arc.radius - r) <= tol + 1e-12 * r, 'radius', lambda: 'radius %r, expected %r: %s' % (arc.radius, r, what()))
    for name, p in (('start_angle', s), ('end_angle', e)):
        a = getattr(arc, name)
        w = math.atan2(p[1] - c[1], p[0] - c[0])
        require(abs(math.remainder(a - w, 2 * math.pi)) < 1e-9, 'angle', lambda: '%s %r, expected %r: %s' % (name, a, w, what()))
    full = q.startswith('multi') and s == e
    sw = 2 * math.pi if full else gbr.sweep(s, e, c, d)
    if full:
        mon.count('full_circle')
    a0 = math.atan2(s[1] - c[1], s[0] - c[0]) % (2 * math.pi)
    if d == gbr.CCW and a0 + sw > 2 * math.pi and not full:
        mon.count('crosses_zero_ccw')
    require(abs(arc.sweep_angle - sw) < 1e-7, 'sweep', lambda: 'sweep %r, expected %r: %s' % (arc.sweep_angle, sw, what()))
    # boxes: extreme points of the swept centre line
    pts = [s, e]
    for k in range(4):
        a = k * math.pi / 2
        off = (a - a0) % (2 * math.pi) if d == gbr.CCW else (a0 - a) % (2 * math.pi)
        # within rounding of an end point either answer denotes the same point
        if full or (1e-9 < off < sw - 1e-9):
            if q.startswith('multi') or full:
                pts.append((c[0] + r * math.cos(a), c[1] + r * math.sin(a)))
            else:
                pts.append((c[0] + r * math.cos(a), c[1] + r * math.sin(a)))
    xs, ys = zip(*pts)
    # an end point off the circle by rounding of the file may or may not count
    slack = 2 * abs(r - math.hypot(e[0] - c[0], e[1] - c[1])) + max(tol, 1e-9 * r)
    for box, grow, name in ((arc.bounding_box, dia / 2.0, 'bounding_box'), (arc.bounding_box_no_aperture, 0, 'bounding_box_no_aperture')):
        want = ((min(xs) - grow, max(xs) + grow), (min(ys) - grow, max(ys) + grow))
        mon.count('box')
        require(gbr.close(want, box, slack), 'box', lambda: '%s %r, expected %r: %s' % (name, box, want, what()))
    mon.seen('quadrants', '%d%d%s%s' % (int(a0 // (math.pi / 2)), int(sw // (math.pi / 2)), d[:2], q[:1]))
