"""C10: bounding boxes enclose the drawn area tightly and are never stale."""
import copy
import math
from mon import gbr, prims, macros, exc, area
from mon.core import require
from mon.checks.c07 import gen_file

PID = 'C10'
QUICK, THOROUGH = 14000, 200000
RULE = ('a case is either one graphic object of any of 18 kinds with a random history of 0-8 moves, conversions, size, position, '
        'rotation and aperture changes with a box query after each (or after the last) step, or a whole random Gerber or drill file with '
        'offsets, conversions and changes of single objects between queries; every reported box is compared with the extents '
        'computed from the model; non-trivial when at least one query follows a change')
REQUIRED = {'query': 10000, 'stale_chance': 5000, 'file_query': 1000, 'bounds': 1000, 'drill_query': 300, 'macro_flash': 200, 'polygon': 300}
for _k in prims.KINDS:
    REQUIRED['kind:' + _k] = 100
ASSUMPTIONS = ['sizes are not negative', 'the box of a regular polygon may be that of its circumscribed circle',
               'the box of a rotated rounded or chamfered shape may be that of the rotated rectangle around it']


def gen(rng, i):
    if i % 8 == 6:
        prog = gen_file(rng, n=rng.randint(2, 12))
        return {'kind': 'gerber', 'prog': prog, 'steps': [file_step(rng) for _ in range(rng.randint(0, 5))]}
    if i % 8 == 7:
        return {'kind': 'drill', 'prog': exc.gen_prog(rng), 'steps': [file_step(rng) for _ in range(rng.randint(0, 4))]}
    m = prims.model(rng)
    return {'kind': 'object', 'model': m, 'steps': [prims.gen_step(rng, m) for _ in range(rng.randint(0, 8))],
            'query': rng.random() < .7}


def file_step(rng):
    s = rng.choice(['offset', 'one', 'to_inch', 'to_metric', 'query'])
    by = rng.choice([prims.point(rng), prims.point(rng), [prims.point(rng)[0], 0], [0, prims.point(rng)[1]]])
    if s == 'offset':
        return [s] + by
    if s == 'one':
        return [s, rng.randint(0, 30)] + by
    return [s]


def signature(case):
    return repr(case) if case['steps'] else None


def inside(inner, outer, tol):
    return all(outer[a][0] <= inner[a][0] + tol and outer[a][1] >= inner[a][1] - tol for a in (0, 1))


def check_box(box, m, mon, what):
    want = prims.extents(m)
    tol = 1e-9 * prims.scale_of(m)
    mon.count('query')
    require(inside(want, box, tol), 'not-enclosing', lambda: '%s: box %r does not enclose %r of %r' % (what(), box, want, m))
    if prims.is_tight(m):
        require(gbr.close(want, box, tol), 'not-tight', lambda: '%s: box %r, extents %r of %r' % (what(), box, want, m))
    else:
        mon.count('polygon' if prims.loose(m) else 'rotated')
        lo = prims.loose(m)
        if lo:
            require(inside(box, lo, tol), 'not-tight', lambda: '%s: box %r larger than circle %r of %r' % (what(), box, lo, m))
    fresh = prims.build(m).bounding_box
    require(gbr.close(fresh, box, tol), 'stale', lambda: '%s: box %r, a fresh object has %r: %r' % (what(), box, fresh, m))


def judge(case, mon):
    if case['kind'] == 'object':
        return judge_object(case, mon)
    if case['kind'] == 'gerber':
        return judge_gerber(case, mon)
    return judge_drill(case, mon)


def judge_object(case, mon):
    m = copy.deepcopy(case['model'])
    mon.count('kind:' + m['kind'])
    obj = prims.build(m)
    what = lambda: 'after %r' % (case['steps'],)
    check_box(obj.bounding_box, m, mon, what)
    for n, s in enumerate(case['steps']):
        prims.apply(obj, m, s)
        if case['query'] or n == len(case['steps']) - 1:
            mon.count('stale_chance')
            mon.seen('step', m['kind'] + ':' + s[0] + (':' + s[1] if s[0] == 'length' else ''))
            check_box(obj.bounding_box, m, mon, what)
            if m['kind'] in ('line', 'arc'):
                b = obj.bounding_box_no_aperture
                w = prims.no_aperture(m)
                require(gbr.close(w, b, 1e-9 * prims.scale_of(m)), 'no-aperture', lambda: 'centre line box %r, expected %r of %r' % (b, w, m))
    require(obj.units == m['units'], 'units', lambda: 'units %r of %r' % (obj.units, m))


# ---------------------------------------------------------------- whole files
def norm_model(n):
    """Model(s) of an observed image object."""
    def ap(a):
        k = a[0]
        if k == 'C':
            return {'kind': 'circle', 'diameter': a[1]}
        if k == 'R':
            return {'kind': 'rectangle', 'width': a[1], 'height': a[2]}
        if k == 'O':
            return {'kind': 'obround', 'width': a[1], 'height': a[2]}
        if k == 'P':
            return {'kind': 'polygon', 'radius': a[1] / 2., 'sides': a[2], 'rotation': a[3]}
        return None
    k = n[0]
    if k == 'line':
        a = ap(n[4])
        return a and [{'kind': 'line', 'start': n[2], 'end': n[3], 'aperture': a}]
    if k == 'arc':
        a = ap(n[6])
        return a and [{'kind': 'arc', 'start': n[2], 'end': n[3], 'center': n[4], 'direction': n[5], 'aperture': a,
                       'full': n[7].startswith('multi') and n[2] == n[3]}]
    if k == 'region':
        segs = []
        for s in n[2]:
            if s[0] == 'line':
                segs.append({'kind': 'line', 'start': s[1], 'end': s[2]})
            else:
                segs.append({'kind': 'arc', 'start': s[1], 'end': s[2], 'center': s[3], 'direction': s[4],
                             'full': s[5].startswith('multi') and s[1] == s[2]})
        return [{'kind': 'region', 'segs': segs}]
    if n[3][0] != 'M':
        return [dict(ap(n[3]), position=n[2])]
    out = []
    for e in n[3][1]:
        if e[0] == 'circle':
            out.append({'kind': 'circle', 'position': e[2], 'diameter': e[3]})
        elif e[0] == 'poly':
            out.append({'kind': 'polygon', 'position': e[2], 'radius': e[3], 'sides': e[4], 'rotation': e[5]})
        elif e[0] == 'outline':
            out.append({'kind': 'outline', 'points': e[2]})
        else:
            out.append({'kind': 'rectangle', 'position': e[2], 'width': e[3], 'height': e[4], 'rotation': e[5]})
    return out


def misfit(n):
    """How far the arcs of an object are from having one radius: where they run between their ends is undefined by as much."""
    arcs = [(n[2], n[3], n[4])] if n[0] == 'arc' else [s[1:4] for s in n[2] if s[0] == 'arc'] if n[0] == 'region' else []
    return max([0] + [abs(math.hypot(s[0] - c[0], s[1] - c[1]) - math.hypot(e[0] - c[0], e[1] - c[1])) for s, e, c in arcs])


def bounds_of(norms):
    """(inner, outer) boxes of a list of objects, or None."""
    inner, outer = [], []
    for n in norms:
        ms = norm_model(n)
        if ms is None:
            return None
        if not ms:
            # a flash that draws nothing has a place but no size
            outer.append(((n[2][0], n[2][0]), (n[2][1], n[2][1])))
        for m in ms:
            inner.append(prims.extents(m))
            outer.append(prims.loose(m) or prims.extents(m))
    return (prims.union(inner), prims.union(outer)) if inner else None


def compare(box, b, tol, key, what):
    require(inside(b[0], box, tol), key + '-not-enclosing', lambda: 'box %r does not enclose %r\n%s' % (box, b[0], what()))
    require(inside(box, b[1], tol), key + '-not-tight', lambda: 'box %r larger than %r\n%s' % (box, b[1], what()))


def judge_gerber(case, mon):
    import gerber
    data = gbr.text(case['prog'])
    f = gerber.loads(data)
    norms = [gbr.obs(p) for p in f.primitives]
    units = case['prog']['units']
    what = lambda: 'after %r\n%s' % (case['steps'], data)
    unit = 10. ** -case['prog']['fmt'][1]
    named = [[o[k] * unit for o in case['prog']['ops'] if o[0] == 'op' and o[k] is not None] for k in (2, 3)]
    named = [(min(v), max(v)) if v else None for v in named]
    for s in [['query']] + case['steps']:
        if s[0] == 'offset':
            named = [v and (v[0] + d, v[1] + d) for v, d in zip(named, s[1:3])]
            prims.shift(f, s[1], s[2])
            norms = [gbr.move_norm(n, s[1], s[2]) for n in norms]
        elif s[0] == 'one' and norms:
            i = s[1] % len(norms)
            prims.shift(f.primitives[i], s[2], s[3])
            norms[i] = gbr.move_norm(norms[i], s[2], s[3])
        elif s[0] in ('to_inch', 'to_metric'):
            new = s[0][3:]
            getattr(f, s[0])()
            if new != units:
                named = [v and tuple(c * (25.4 if new == 'metric' else 1 / 25.4) for c in v) for v in named]
                norms = [gbr.scale_norm(n, 25.4 if new == 'metric' else 1 / 25.4) for n in norms]
                units = new
        for p, n in zip(f.primitives, norms):
            b = bounds_of([n])
            if n[0] == 'flash' and n[3] == ('M', ()):
                mon.count('empty_flash')
                require(p.bounding_box is None or inside(p.bounding_box, ((n[2][0], n[2][0]), (n[2][1], n[2][1])), 2e-7 * (25.4 if units == 'metric' else 1)),
                        'object-not-tight', lambda: 'a flash that draws nothing at %r has the box %r\n%s' % (n[2], p.bounding_box, what()))
            if b is None:
                continue
            if n[0] == 'flash' and n[3][0] == 'M':
                mon.count('macro_flash')
            compare(p.bounding_box, b, 2e-7 * (25.4 if units == 'metric' else 1) + misfit(n), 'object', lambda: '%r\n%s' % (n, what()))
        if None not in named:
            mon.count('bounds')
            tol = 1e-7 * (25.4 if units == 'metric' else 1)
            require(gbr.close(named, f.bounds, tol), 'bounds', lambda: 'bounds %r, the positions named run over %r\n%s' % (f.bounds, named, what()))
            w = [v[1] - v[0] for v in named]
            require(gbr.close(w, f.size, tol), 'size', lambda: 'size %r, expected %r\n%s' % (f.size, w, what()))
        b = bounds_of(norms)
        if b is None:
            continue
        mon.count('file_query')
        compare(f.bounding_box, b, 2e-7 * (25.4 if units == 'metric' else 1) + max(map(misfit, norms)), 'file', what)


def judge_drill(case, mon):
    data = exc.text(case['prog'])
    f = exc.loads(case['prog'])
    hits = [exc.obs(h) for h in f.hits]
    units = case['prog']['units']
    what = lambda: 'after %r\n%s' % (case['steps'], data)
    for s in [['query']] + case['steps']:
        if s[0] == 'offset':
            prims.shift(f, s[1], s[2])
            hits = [exc.move(h, s[1], s[2]) for h in hits]
        elif s[0] == 'one' and hits:
            i = s[1] % len(hits)
            prims.shift(f.hits[i], s[2], s[3])
            hits[i] = exc.move(hits[i], s[2], s[3])
        elif s[0] in ('to_inch', 'to_metric'):
            new = s[0][3:]
            getattr(f, s[0])()
            if new != units:
                hits = [exc.scale(h, 25.4 if new == 'metric' else 1 / 25.4) for h in hits]
                units = new
        boxes = [prims.grow(prims.pts_box(h[2:]), h[1] / 2., h[1] / 2.) for h in hits]
        tol = 1e-7 * (25.4 if units == 'metric' else 1)
        for h, b, p in zip(f.hits, boxes, f.primitives):
            require(gbr.close(b, h.bounding_box, tol), 'hit-box', lambda: 'box %r, expected %r\n%s' % (h.bounding_box, b, what()))
            require(gbr.close(b, p.bounding_box, tol), 'hit-object-box', lambda: 'box %r, expected %r\n%s' % (p.bounding_box, b, what()))
        if boxes:
            mon.count('drill_query')
            w = prims.union(boxes)
            require(gbr.close(w, f.bounding_box, tol), 'drill-box', lambda: 'box %r, expected %r\n%s' % (f.bounding_box, w, what()))
