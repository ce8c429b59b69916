"""C09: offsetting a design translates it rigidly."""
import copy
import math
from mon import gbr, prims, exc
from mon.core import require
from mon.checks.c22 import dist_seg
from mon.checks.c07 import gen_file, written
from mon.checks import c12

PID = 'C09'
QUICK, THOROUGH = 14000, 150000
RULE = ('a case is a single graphic object of any of 18 kinds, a random Gerber program or a random drill program with 1-5 offsets '
        'interleaved with box queries, unit conversions and writes; objects, vertices, boxes, hits and the file written and read back are compared '
        'with the translated originals; non-trivial when there is an offset other than zero')
REQUIRED = {'object_offset': 5000, 'gerber_offset': 1500, 'drill_offset': 1000, 'object:arc': 300, 'object:region': 300, 'macro_flash': 300,
            'written_gerber': 600, 'written_drill': 300, 'slots': 1000, 'vertices': 500, 'testrecord': 100}
for _k in prims.KINDS:
    REQUIRED['kind:' + _k] = 80
ASSUMPTIONS = ['the first command of a Gerber file states both coordinates', 'what is written fits the format']


def vector(rng):
    return rng.choice([[0.5, 0], [0, -0.25], prims.point(rng), prims.point(rng), [round(rng.uniform(-.01, .01), 4), round(rng.uniform(-30, 30), 2)]])


def gen(rng, i):
    if i % 8 == 5:
        return {'kind': 'drill', 'prog': exc.gen_prog(rng), 'steps': gen_steps(rng)}
    if i % 8 in (6, 7):
        prog = gen_file(rng, n=rng.randint(2, 14))
        for j, o in enumerate(prog['ops']):
            if o[0] == 'op':
                prog['ops'].insert(j, ['op', None, 0, 0, None, None, 'D02'])
                break
        return {'kind': 'gerber', 'prog': prog, 'steps': gen_steps(rng)}
    if i % 64 == 1:
        return {'kind': 'testrecord', 'at': prims.point(rng), 'steps': [['offset'] + vector(rng) for _ in range(rng.randint(1, 3))]}
    m = prims.model(rng)
    steps = []
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        steps.append(['offset'] + vector(rng) if r < .7 else [rng.choice(['to_inch', 'to_metric'])] if r < .85 else ['query'])
    return {'kind': 'object', 'model': m, 'steps': steps + [['offset'] + vector(rng)]}


def gen_steps(rng):
    out = [['offset'] + vector(rng)]
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        out.append(['offset'] + vector(rng) if r < .5 else [rng.choice(['to_inch', 'to_metric'])] if r < .7 else ['query'] if r < .85 else ['write'])
    return out + [['write']]


def signature(case):
    return repr(case) if any(s[0] == 'offset' and (s[1] or s[2]) for s in case['steps']) else None


def judge(case, mon):
    return globals()['judge_' + case['kind']](case, mon)


def judge_testrecord(case, mon):
    from gerber.primitives import TestRecord
    t = TestRecord(tuple(case['at']), 'N', 'top')
    x, y = case['at']
    for s in case['steps']:
        prims.shift(t, s[1], s[2])
        x, y = x + s[1], y + s[2]
        mon.count('testrecord')
        require(gbr.close((x, y), t.position, 1e-9), 'testrecord', lambda: 'record at %r, expected %r' % (t.position, (x, y)))


def seg_obs(p):
    d = {'start': p.start, 'end': p.end}
    if hasattr(p, 'center'):
        d['center'] = p.center
        d['direction'] = p.direction
    return d


def state(obj, m):
    """What can be seen of an object."""
    k = m['kind']
    out = {}
    for n in prims.POINTS:
        if n in m:
            out[n] = tuple(getattr(obj, n))
    for n in prims.lengths(m):
        out[n] = getattr(obj, n)
    if k == 'arc':
        out['angles'] = (obj.radius, obj.sweep_angle) + tuple(f(a) for a in (obj.start_angle, obj.end_angle) for f in (math.cos, math.sin))
    if k in prims.ROTATABLE:
        out['rotation'] = obj.rotation
    if k in ('outline', 'region'):
        out['segments'] = [seg_obs(p) for p in obj.primitives]
    v = None
    if k not in ('circle', 'ellipse', 'obround', 'roundrect', 'drill', 'slot', 'donut', 'arc'):
        v = obj.vertices
    if v is not None:
        out['hull' if k == 'line' else 'vertices'] = [tuple(p) for p in v]
    out['box'] = obj.bounding_box
    return out


def moved(st, dx, dy):
    mv = lambda p: (p[0] + dx, p[1] + dy)
    out = dict(st)
    for n in prims.POINTS:
        if n in out:
            out[n] = mv(out[n])
    for n in ('vertices', 'hull'):
        if n in out:
            out[n] = [mv(p) for p in out[n]]
    if 'segments' in out:
        out['segments'] = [dict((k, v if k == 'direction' else mv(v)) for k, v in s.items()) for s in out['segments']]
    (a, b), (c, d) = out['box']
    out['box'] = ((a + dx, b + dx), (c + dy, d + dy))
    return out


def same(a, b, tol):
    for k in a:
        x, y = a[k], b[k]
        if k == 'segments':
            x, y = [sorted(s.items()) for s in x], [sorted(s.items()) for s in y]
        if k == 'hull':
            # (corners almost in line with others may come and go by rounding, and the list may start anywhere)
            far = lambda p, q: max([min(dist_seg(c, q[i], q[(i + 1) % len(q)]) for i in range(len(q))) for c in p] or [0])
            if max(far(x, y), far(y, x)) > tol if x and y else x != y:
                return '%s %r, expected %r' % (k, y, x)
            continue
        if not gbr.close(x, y, tol):
            return '%s %r, expected %r' % (k, y, x)
    return None


def judge_object(case, mon):
    m = copy.deepcopy(case['model'])
    obj = prims.build(m)
    mon.count('kind:' + m['kind'])
    for s in case['steps']:
        if s[0] == 'offset':
            before = state(obj, m)
            prims.shift(obj, s[1], s[2])
            prims.move_model(m, s[1], s[2])
            mon.count('object_offset')
            tol = 1e-9 * prims.scale_of(m)
            after = state(obj, m)
            if 'vertices' in after or 'hull' in after:
                mon.count('vertices')
            d = same(moved(before, s[1], s[2]), after, tol)
            require(d is None, 'object', lambda: 'after %r of %r: %s\n%r' % (s, case['steps'], d, m))
            if m['kind'] in ('circle', 'rectangle', 'obround', 'polygon', 'donut', 'drill', 'slot', 'line', 'arc'):
                for n in prims.POINTS:
                    if n in m:
                        require(gbr.close(tuple(m[n]), getattr(obj, n), tol), 'sum', lambda: '%s %r, expected %r after %r' % (n, getattr(obj, n), m[n], case['steps']))
        elif s[0] == 'query':
            obj.bounding_box, obj.vertices
        else:
            prims.apply(obj, m, s)
    require(obj.units == m['units'], 'units', lambda: 'units %r' % (obj.units,))


def judge_gerber(case, mon):
    import gerber
    from gerber.cam import FileSettings
    data = gbr.text(case['prog'])
    f = gerber.loads(data)
    norms = [gbr.obs(p) for p in f.primitives]
    units = case['prog']['units']
    what = lambda: '%r\n%s' % (case['steps'], data)
    for n in norms:
        mon.count('object:' + n[0])
        if n[0] == 'flash' and n[3][0] == 'M':
            mon.count('macro_flash')
    aps = [gbr.ap_obs(a) for a in f.apertures]
    boxes = [box(p) for p in f.primitives]
    for s in case['steps']:
        k = 25.4 if units == 'metric' else 1
        if s[0] == 'offset':
            bounds = f.bounds
            prims.shift(f, s[1], s[2])
            mon.count('gerber_offset')
            norms = [gbr.move_norm(n, s[1], s[2]) for n in norms]
            boxes = [b and ((b[0][0] + s[1], b[0][1] + s[1]), (b[1][0] + s[2], b[1][1] + s[2])) for b in boxes]
            if abs(bounds[0][0]) < 99999:
                w = ((bounds[0][0] + s[1], bounds[0][1] + s[1]), (bounds[1][0] + s[2], bounds[1][1] + s[2]))
                require(gbr.close(w, f.bounds, 1e-8 * k), 'bounds', lambda: 'bounds %r, expected %r\n%s' % (f.bounds, w, what()))
        elif s[0] in ('to_inch', 'to_metric'):
            new = s[0][3:]
            getattr(f, s[0])()
            if new != units:
                q = 25.4 if new == 'metric' else 1 / 25.4
                norms = [gbr.scale_norm(n, q) for n in norms]
                aps = [gbr.scale_ap(a, q) for a in aps]
                boxes = [b and tuple(tuple(v * q for v in ax) for ax in b) for b in boxes]
                units = new
                k = 25.4 if units == 'metric' else 1
        elif s[0] == 'query':
            if None not in boxes:
                f.bounding_box
        d = gbr.diff_lists(norms, [gbr.obs(p) for p in f.primitives], 1e-8 * k)
        require(d is None, 'image', lambda: 'after %r: %s\n%s' % (s, d, what()))
        gb = [box(p) for p in f.primitives]
        require(gbr.close(boxes, gb, 1e-8 * k), 'box', lambda: 'after %r: boxes %r, expected %r\n%s' % (s, gb, boxes, what()))
        ga = [gbr.ap_obs(a) for a in f.apertures]
        require(gbr.close(aps, ga, 1e-8 * k), 'apertures', lambda: 'apertures moved: %r, %r\n%s' % (aps, ga, what()))
        if s[0] == 'write':
            out = written(f, FileSettings(units=units, format=(6, 7), zero_suppression='leading'))
            mon.count('written_gerber')
            g = gerber.loads(out)
            d = gbr.diff_lists(norms, [gbr.obs(p) for p in g.primitives], 4e-7)
            require(d is None, 'written', lambda: '%s\n%s\nwritten\n%s' % (d, what(), out))


def box(p):
    try:
        return p.bounding_box
    except AttributeError:
        return None


def judge_drill(case, mon):
    prog = case['prog']
    ref = exc.Ref(prog)
    f = exc.loads(prog)
    data = exc.text(prog)
    what = lambda: '%r\n%s' % (case['steps'], data)
    hits, units = list(ref.hits), prog['units']
    mon.count('slots', sum(1 for h in hits if h[0] != 'hit'))
    diam = dict((n, t.diameter) for n, t in f.tools.items())
    for s in case['steps']:
        k = 25.4 if units == 'metric' else 1
        if s[0] == 'offset':
            prims.shift(f, s[1], s[2])
            mon.count('drill_offset')
            hits = [exc.move(h, s[1], s[2]) for h in hits]
        elif s[0] in ('to_inch', 'to_metric'):
            new = s[0][3:]
            getattr(f, s[0])()
            if new != units:
                q = 25.4 if new == 'metric' else 1 / 25.4
                hits = [exc.scale(h, q) for h in hits]
                diam = dict((n, d * q) for n, d in diam.items())
                units = new
                k = 25.4 if units == 'metric' else 1
        elif s[0] == 'query':
            f.bounding_box, f.path_length(), f.report()
        d = gbr.diff_lists(hits, [exc.obs(h) for h in f.hits], 1e-7 * k)
        require(d is None, 'hits', lambda: 'after %r: %s\n%s' % (s, d, what()))
        d = gbr.diff_lists([exc.plain(h) for h in hits], [exc.prim_obs(p) for p in f.primitives], 1e-7 * k)
        require(d is None, 'drill-objects', lambda: 'after %r: %s\n%s' % (s, d, what()))
        g = dict((n, t.diameter) for n, t in f.tools.items())
        require(set(g) == set(diam) and all(abs(g[n] - diam[n]) < 1e-8 * k for n in g), 'tools', lambda: 'tools %r, expected %r\n%s' % (g, diam, what()))
        if hits:
            w = prims.union([prims.grow(prims.pts_box(h[2:]), h[1] / 2., h[1] / 2.) for h in hits])
            require(gbr.close(w, f.bounding_box, 1e-7 * k), 'drill-box', lambda: 'box %r, expected %r\n%s' % (f.bounding_box, w, what()))
        if s[0] == 'write' and c12.fits(f):
            mon.count('written_drill')
            out = c12.write(f)
            h2 = c12.by_tool(c12.reload(prog, f, out))
            want = {}
            for h, n in zip(hits, ref.numbers):
                want.setdefault(n, []).append(h)
            res = .51 * 10 ** -f.format[1] + 1e-9
            require(set(want) == set(h2), 'written-hits', lambda: 'tools %r, read back %r\n%s\n%s' % (sorted(want), sorted(h2), out, what()))
            for n in want:
                d = gbr.diff_lists([h[:1] + h[2:] for h in want[n]], [h[:1] + h[2:] for h in h2[n]], res)
                require(d is None, 'written-hits', lambda: 'tool %d: %s\n%s\n%s' % (n, d, out, what()))
