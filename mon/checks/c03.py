"""C03: flashes reproduce exactly the aperture selected when they were made."""
from mon import gbr, macros
from mon.core import require

PID = 'C03'
QUICK, THOROUGH = 10000, 120000
RULE = ('a case interleaves definitions, redefinitions and selections of standard apertures (all modifier counts) with '
        'flashes and draws, then mutates random flashes; non-trivial with at least three flashes; every object is compared '
        'with the reference aperture table at the time of the operation, and untouched objects with their snapshot')
REQUIRED = {'flash:C': 500, 'flash:R': 500, 'flash:O': 500, 'flash:P': 500, 'hole:round': 500, 'hole:rect': 500,
            'redefined': 500, 'mutated': 1000, 'isolation_checks': 2000, 'macro_flash': 500, 'macro_flashed_again': 200}


def gen(rng, i):
    prog = {'units': rng.choice(['inch', 'metric']), 'fmt': rng.choice([[2, 4], [2, 5], [3, 5]]), 'zs': rng.choice('LT'),
            'ops': []}
    ops = prog['ops']
    codes = rng.sample([10, 11, 12, 25, 99, 100, 734], rng.randint(1, 4))
    scale = 1.0 if prog['units'] == 'inch' else 10.0
    ms = macros.gen_macros(rng, scale) if rng.random() < .25 else []
    for name, blocks, _ in ms:
        ops.append(['am', name, blocks])

    def aperture():
        if ms and rng.random() < .4:
            name, _, make = rng.choice(ms)
            return [name, make(rng) if make else []]
        return list(gbr.gen_aperture(rng, scale))
    for c in codes:
        ops.append(['ad', c] + aperture())
    ops.append(['sel', rng.choice(codes), False])
    for _ in range(rng.randint(4, 16)):
        r = rng.random()
        if r < 0.2:
            ops.append(['ad', rng.choice(codes)] + aperture())
        elif r < 0.4:
            ops.append(['sel', rng.choice(codes), rng.random() < 0.2])
        elif r < 0.5:
            ops.append(['lp', rng.choice('DC')])
        elif r < 0.65:
            ops.append(['op', 'G01', gbr.rnd_coord(rng, prog), gbr.rnd_coord(rng, prog), None, None, 'D01'])
        else:
            ops.append(['op', None, gbr.rnd_coord(rng, prog), gbr.rnd_coord(rng, prog), None, None, 'D03'])
    muts = [[rng.random(), rng.choice(['position', 'offset', 'convert', 'size', 'hole', 'polarity'])] for _ in range(3)]
    return {'prog': prog, 'muts': muts}


def signature(case):
    n = sum(1 for o in case['prog']['ops'] if o[0] == 'op' and o[6] == 'D03')
    return gbr.text(case['prog']) if n >= 3 else None


def judge(case, mon):
    import gerber
    prog = case['prog']
    data = gbr.text(prog)
    ref = gbr.Ref(prog)
    f = gerber.loads(data)
    prims = list(f.primitives)
    got = [gbr.obs(p) for p in prims]
    # (the shapes inside a macro are those of C04 and C05, but they are the same at each flash)
    d = gbr.diff_lists([gbr.strip_macro(o) for o in ref.objects], [gbr.strip_macro(o) for o in got], 1e-9)
    require(d is None, 'aperture', lambda: '%s\n%s' % (d, data))
    shapes = {}
    for p, o in zip(prims, ref.objects):
        if o[0] == 'flash' and o[3][0] == 'M' and p.primitives:
            b = p.bounding_box
            rel = tuple(tuple(v - c for v in lim) for lim, c in zip(b, p.position))
            first = shapes.setdefault(repr(o[3]), rel)
            mon.count('macro_flash')
            if first is not rel:
                mon.count('macro_flashed_again')
            require(gbr.close(first, rel, 1e-9), 'macro-flash', lambda: 'macro %r has the box %r at one flash, %r at another\n%s' % (o[3], first, rel, data))
    seen = set()
    for o in prog['ops']:
        if o[0] == 'ad':
            if o[1] in seen:
                mon.count('redefined')
            seen.add(o[1])
    for o in ref.objects:
        ap = o[3] if o[0] == 'flash' else o[4]
        if o[0] == 'flash':
            mon.count('flash:' + ap[0])
        if ap[0] != 'M':
            mon.count('hole:' + ap[-1][0])
        mon.seen('aperture', ap)
    for p in prims:
        if p.flashed:
            require(p.units == prog['units'], 'units', lambda: 'flash units %r' % p.units)
            if hasattr(p, 'primitives'):
                continue
            ap = gbr.ap_obs(p)
            require(ap[0] not in 'CP' or abs(p.diameter - ap[1]) < 1e-12 + 1e-12 * abs(ap[1]) and abs(p.radius - ap[1] / 2.) < 1e-12 + 1e-12 * abs(ap[1]), 'diameter', lambda: 'diameter %r and radius %r for %r' % (p.diameter, p.radius, ap))
            hr = hole_radius(gbr.ap_obs(p)[-1])
            require(hr is None or abs((p.hole_radius or 0) - hr) < 1e-12, 'hole', lambda: 'hole radius %r for %r' % (p.hole_radius, gbr.ap_obs(p)))
    # isolation: mutate one flash, nothing else moves
    flashes = [n for n, p in enumerate(prims) if p.flashed]
    if not flashes:
        return
    for u, kind in case['muts']:
        n = flashes[int(u * len(flashes))]
        before = [gbr.obs(p) for p in prims]
        mutate(prims[n], kind)
        mon.count('mutated')
        after = [gbr.obs(p) for p in prims]
        for k in range(len(prims)):
            if k != n:
                mon.count('isolation_checks')
                require(before[k] == after[k], 'isolation', lambda: '%s on flash %d changed object %d: %r -> %r\n%s' % (
                    kind, n, k, before[k], after[k], data))


def hole_radius(h):
    return h[1] / 2.0 if h[0] == 'round' else 0.0 if h[0] == 'none' else None


def mutate(p, kind):
    if kind == 'position':
        p.position = (p.position[0] + 1.5, p.position[1] - 2.25)
    elif kind == 'offset':
        p.offset(0.5, 0.25)
    elif kind == 'convert':
        if p.units == 'inch':
            p.to_metric()
        else:
            p.to_inch()
    elif kind == 'size':
        for a in ('diameter', 'width', 'height', 'radius'):
            try:
                setattr(p, a, getattr(p, a) * 2)
                break
            except AttributeError:
                pass
    elif kind == 'hole':
        p.hole_diameter = 0.001
    elif kind == 'polarity':
        p.level_polarity = 'clear' if p.level_polarity == 'dark' else 'dark'
