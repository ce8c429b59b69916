"""C08: unit conversion of a Gerber layer rescales everything once and only once."""
from mon import gbr
from mon.core import require
from mon.checks.c07 import gen_file, written

PID = 'C08'
QUICK, THOROUGH = 5000, 50000
RULE = ('a case is a random RS-274X program and a sequence of 1-6 operations (to_inch, to_metric, box, bounds and size queries, '
        'writing); after every operation objects, boxes, statement coordinates and the written file are compared with the '
        'original objects scaled by the current factor; non-trivial when it has at least two objects and one real conversion')
REQUIRED = {'convert:real': 1500, 'convert:noop': 300, 'box_query': 500, 'reread': 500, 'object:region': 300, 'object:arc': 300,
            'macro_flash': 300, 'single_element_macro': 30, 'polygon': 200}
ASSUMPTIONS = ['absolute notation', 'the written coordinate format is able to hold the converted coordinates']


def gen(rng, i):
    prog = gen_file(rng, n=rng.randint(3, 16))
    steps = [rng.choice(['to_inch', 'to_metric', 'to_inch', 'to_metric', 'box', 'bounds', 'write', 'objbox']) for _ in range(rng.randint(1, 6))]
    steps.insert(rng.randint(0, len(steps)), 'to_metric' if prog['units'] == 'inch' else 'to_inch')
    return {'prog': prog, 'steps': steps}


def signature(case):
    t = gbr.text(case['prog'])
    return t + repr(case['steps']) if len([o for o in case['prog']['ops'] if o[0] == 'op']) >= 2 else None


def boxes(f):
    out = []
    for p in f.primitives:
        try:
            out.append(p.bounding_box)
        except AttributeError:      # lines with apertures that have no extent in the model
            out.append(None)
    return out


def sbox(b, k):
    return None if b is None else tuple(tuple(v * k for v in ax) for ax in b)


def judge(case, mon):
    import gerber
    from gerber.cam import FileSettings
    from gerber.gerber_statements import CoordStmt
    data = gbr.text(case['prog'])
    f = gerber.loads(data)
    norms = [gbr.obs(p) for p in f.primitives]
    ref = gerber.loads(data)
    box0, fbounds0, coords0 = boxes(ref), ref.bounds, coords(ref)
    aps0 = [gbr.ap_obs(a) for a in ref.apertures]
    for p, o in zip(f.primitives, norms):
        mon.count('object:' + o[0])
        if o[0] == 'flash' and o[3][0] == 'M':
            mon.count('macro_flash')
            if len(p.primitives) == 1:
                mon.count('single_element_macro')
        if o[0] == 'flash' and o[3][0] == 'P':
            mon.count('polygon')
    units0 = units = case['prog']['units']
    has_xy = [c for c in coords0 if c[0] is not None]
    for step in case['steps']:
        if step == 'to_inch':
            mon.count('convert:noop' if units == 'inch' else 'convert:real')
            f.to_inch()
            units = 'inch'
        elif step == 'to_metric':
            mon.count('convert:noop' if units == 'metric' else 'convert:real')
            f.to_metric()
            units = 'metric'
        elif step == 'box':
            if None not in box0:
                f.bounding_box
        elif step == 'bounds':
            f.bounds, f.size
        elif step == 'objbox':
            boxes(f)
        k = 1.0 if units == units0 else 25.4 if units == 'metric' else 1 / 25.4
        tol = 1e-8 * max(1.0, k)
        require(f.units == units, 'units', lambda: 'file says %r after %r' % (f.units, case['steps']))
        got = [gbr.obs(p) for p in f.primitives]
        want = [gbr.scale_norm(n, k) for n in norms]
        d = gbr.diff_lists(want, got, tol)
        require(d is None, 'objects', lambda: 'after %s of %r: %s\n%s' % (step, case['steps'], d, data))
        for p in f.primitives:
            require(p.units == units, 'object-units', lambda: '%r says %r' % (p, p.units))
        gb = boxes(f)
        require(gbr.close([sbox(b, k) for b in box0], gb, tol), 'object-box', lambda: 'boxes %r, expected %r\n%s' % (gb, [sbox(b, k) for b in box0], data))
        mon.count('box_query')
        if has_xy:
            gotb = f.bounds
            if all(abs(v) < 999999 for ax in fbounds0 for v in ax):
                require(gbr.close(sbox(fbounds0, k), gotb, tol), 'bounds', lambda: 'bounds %r, expected %r\n%s' % (gotb, sbox(fbounds0, k), data))
        c = coords(f)
        wc = [tuple(None if v is None else v * k for v in q) for q in coords0]
        require(gbr.close(wc, c, tol), 'coordinates', lambda: 'statement coordinates %r expected %r\n%s' % (c, wc, data))
        ga = [gbr.ap_obs(a) for a in f.apertures]
        wa = [gbr.scale_ap(a, k) for a in aps0]
        require(gbr.close(wa, ga, tol), 'apertures', lambda: 'apertures %r expected %r\n%s' % (ga, wa, data))
        if step == 'write' or step is case['steps'][-1]:
            out = written(f, FileSettings(units=units, format=(6, 7), zero_suppression='leading'))
            g = gerber.loads(out)
            mon.count('reread')
            require(g.units == units, 'written-units', lambda: 'written file is %r, expected %r\n%s' % (g.units, units, out))
            d = gbr.diff_lists(want, [gbr.obs(p) for p in g.primitives], 4e-7)
            require(d is None, 'written', lambda: 'written file after %r: %s\n%s\n---\n%s' % (case['steps'], d, data, out))


def coords(f):
    from gerber.gerber_statements import CoordStmt
    return [(s.x, s.y, s.i, s.j) for s in f.statements if isinstance(s, CoordStmt)]
