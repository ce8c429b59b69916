"""C29: a layer shows its design as it is now."""
from mon import gbr, exc
from mon.core import require
from mon.checks.c07 import gen_file

PID = 'C29'
QUICK, THOROUGH = 8000, 90000
RULE = ('a case is a Gerber or drill file made a layer, on its own or as part of a board, and a history of conversions, moves and tool changes of the design mixed with queries and pictures of '
        'the layer; after each step the objects and bounds of the layer are compared with those of the first state scaled and moved, and pictures with those of a new layer of the same design; '
        'non-trivial when something changes')
REQUIRED = {'gerber': 800, 'drill': 800, 'change:inch': 600, 'change:metric': 600, 'change:offset': 1500, 'change:tool': 300, 'objects': 15000, 'picture': 300, 'board': 800, 'other_layer': 300,
            'through_layer': 800}
ASSUMPTIONS = ['the objects of a layer are not replaced by hand', 'conversion and moves are exact up to 1e-6 of the extent']


def gen(rng, i):
    kind = rng.choice(['gerber', 'drill'])
    case = {'kind': kind, 'board': rng.random() < .5, 'steps': []}
    if kind == 'gerber':
        case['prog'] = gen_file(rng, n=rng.randint(1, 8), units=rng.choice(['inch', 'metric']), draws_any=False)
    else:
        case['prog'] = exc.gen_prog(rng, n=rng.randint(1, 8))
    for _ in range(rng.randint(1, 7)):
        case['steps'].append(rng.choice([['inch'], ['metric'], ['offset', round(rng.uniform(-3, 3), 3), round(rng.uniform(-3, 3), 3)], ['offset', round(rng.uniform(-3, 3), 3), 0],
                                         ['tool', rng.randrange(100), round(rng.uniform(.01, .3), 3)], ['look'], ['picture'], ['other']]))
    case['via'] = rng.choice(['design', 'layer'])
    return case


def signature(case):
    if not any(s[0] in ('inch', 'metric', 'offset', 'tool') for s in case['steps']):
        return None
    return repr(case)


def observe(p):
    b = p.bounding_box
    return (type(p).__name__, p.level_polarity, getattr(p, 'units', None), tuple(tuple(a) for a in b))


def near(a, b, tol):
    return abs(a - b) <= tol


def judge(case, mon):
    import gerber
    from gerber.layers import PCBLayer
    from gerber.pcb import PCB
    kind = case['kind']
    name = 'x.gtl' if kind == 'gerber' else 'x.drl'
    if kind == 'gerber':
        text = gbr.text(case['prog'])
        f = gerber.loads(text, name)
    else:
        text = exc.text(case['prog'])
        f = exc.loads(case['prog'])
        f.filename = name
    if not len(f.primitives):
        return
    mon.count(kind)
    layer = PCBLayer.from_cam(f)
    layers = [layer]
    if case['board']:
        mon.count('board')
        other = PCBLayer.from_cam(gerber.loads('%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.05*%\nD10*\nX0Y0D02*\nX10000Y5000D01*\nM02*\n', 'x.gbl'))
        pcb = PCB([other, layer], 'x')
        layers = [l for l in pcb.layers if l.cam_source is f]
        require(len(layers) == 1, 'board', 'the board has %d layers of the design' % len(layers))
        layer = layers[0]
    first = [observe(p) for p in layer.primitives]
    bounds = f.bounds if f.bounds is not None else None
    unit, start = f.units, f.units
    require(layer.bounds == f.bounds, 'bounds', lambda: 'bounds of the layer %r, of the design %r' % (layer.bounds, f.bounds))
    shift = [0., 0.]
    size = dict((id(t), t.diameter) for t in getattr(f, 'tools', {}).values())
    resized = False

    def check(step):
        k = 1. if unit == start else 25.4 if unit == 'metric' else 1 / 25.4
        now = [observe(p) for p in layer.primitives]
        ext = max([1.] + [abs(c) for o in now for a in o[3] for c in a]) * 1e-6
        what = lambda: '%r of %r\n%s' % (step, case['steps'], text)
        require(len(now) == len(first), 'count', lambda: '%d objects instead of %d after %s' % (len(now), len(first), what()))
        for o, w in zip(now, first):
            mon.count('objects')
            require(o[0] == w[0] and o[1] == w[1], 'object', lambda: '%r instead of %r after %s' % (o, w, what()))
            for axis in (0, 1):
                c, cw = sum(o[3][axis]) / 2., sum(w[3][axis]) / 2. * k + shift[axis]
                require(near(c, cw, ext), 'place', lambda: '%s is at %r, not %r after %s' % (o[0], c, cw, what()))
                if not resized:
                    d, dw = o[3][axis][1] - o[3][axis][0], (w[3][axis][1] - w[3][axis][0]) * k
                    require(near(d, dw, ext), 'extent', lambda: '%s measures %r, not %r after %s' % (o[0], d, dw, what()))
        new = PCBLayer.from_cam(f)
        require([observe(p) for p in new.primitives] == now, 'new', lambda: 'a new layer differs after ' + what())
        require(layer.bounds == f.bounds == new.bounds, 'bounds', lambda: 'bounds of the layer %r, of the design %r after %s' % (layer.bounds, f.bounds, what()))
        if bounds is not None and not resized and all(a[0] <= a[1] for a in bounds):
            for axis in (0, 1):
                for g, w in zip(layer.bounds[axis], bounds[axis]):
                    require(near(g, w * k + shift[axis], ext), 'bounds_place', lambda: 'bounds %r, were %r after %s' % (layer.bounds, bounds, what()))

    check('start')
    for s in case['steps']:
        design = layer.cam_source if case['via'] == 'layer' else f
        require(layer.cam_source is f, 'source', 'the layer has another design')
        if s[0] in ('inch', 'metric'):
            mon.count('change:' + s[0])
            (design.to_inch if s[0] == 'inch' else design.to_metric)()
            if s[0] != unit:
                q = 25.4 if s[0] == 'metric' else 1 / 25.4
                shift = [v * q for v in shift]
                unit = s[0]
        elif s[0] == 'offset':
            mon.count('change:offset')
            design.offset(s[1], s[2])
            shift = [shift[0] + s[1], shift[1] + s[2]]
        elif s[0] == 'tool':
            if kind == 'gerber' or not f.tools:
                continue
            n = sorted(f.tools)[s[1] % len(f.tools)]
            mon.count('change:tool')
            design.update_tool(n, diameter=s[2])
            resized = True
            for p in layer.primitives:
                if p.hit.tool.number == n:
                    require(p.diameter == s[2], 'tool', lambda: 'tool %d has diameter %r, not %r\n%s' % (n, p.diameter, s[2], text))
        elif s[0] == 'picture':
            a = picture(layer)
            if a is None:
                continue
            mon.count('picture')
            require(a == picture(PCBLayer.from_cam(f)), 'picture', lambda: 'the pictures of the layer and of a new layer differ after %r\n%s' % (case['steps'], text))
        elif s[0] == 'other':
            if case['board']:
                mon.count('other_layer')
                before = [observe(p) for p in layer.primitives]
                l = [l for l in pcb.layers if l is not layer][0]
                l.cam_source.to_metric()
                l.cam_source.offset(5, 5)
                require([observe(p) for p in layer.primitives] == before, 'other', 'a change of one layer shows in another')
        mon.count('through_layer', case['via'] == 'layer')
        check(s)


def picture(layer):
    from gerber.render import GerberCairoContext
    b = layer.bounds
    w = max(b[0][1] - b[0][0], b[1][1] - b[1][0])
    h = min(b[0][1] - b[0][0], b[1][1] - b[1][0])
    if h <= 0 or w > 200 * h or b[0][0] > b[0][1] or b[1][0] > b[1][1]:
        return None
    ctx = GerberCairoContext(60. / w)
    if h * 60. / w < 2:
        return None
    ctx.render_layer(layer)
    return ctx.dump_str()
