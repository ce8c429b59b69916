"""C33: a rendering context is led through a design object by object, and looks are what they were set to."""
from mon import exc, gbr, prims, snap
from mon.core import require
from mon.checks import c15
from mon.checks.c07 import gen_file

PID = 'C33'
QUICK, THOROUGH = 8000, 200000
RULE = ('a case is a random Gerber, drill or netlist design or a few single objects, rendered with a context that records every call and sometimes fails at one of them; or a random sequence of possible and impossible '
        'colours, opacities and units given to a context of each kind; or a theme with some looks of its own asked for layers in random order; non-trivial when at least one object is rendered or one look is set')
KINDS = ['gerber', 'drill', 'looks', 'theme', 'gerber', 'objects', 'netlist', 'looks', 'theme', 'gerber']
REQUIRED = {'gerber': 750, 'drill': 300, 'netlist': 250, 'objects': 250, 'looks': 500, 'theme': 500, 'drawn': 7500, 'inverted': 250, 'failed': 200, 'again': 200, 'used': 200, 'filename': 150,
            'refused': 1250, 'accepted': 1250, 'own': 750, 'not_own': 1250, 'internal': 1000, 'wrapped': 150, 'restarted': 250, 'empty': 50}
CALLS = {'Line': 'line', 'Arc': 'arc', 'Region': 'region', 'Circle': 'circle', 'Rectangle': 'rectangle', 'Obround': 'obround', 'Polygon': 'polygon', 'Drill': 'drill', 'Slot': 'slot', 'AMGroup': 'amgroup',
         'Outline': 'region', 'TestRecord': 'test_record'}
REQUIRED.update(('call:' + k, 60) for k in set(CALLS.values()))
ASSUMPTIONS = ['objects of a kind no context can draw (ellipses, diamonds, donuts, butterflies, rounded and chamfered rectangles) are announced but not drawn',
               'a context may be told the extents before or after the background, but before the first layer']
CLASSES = ['background', 'topsilk', 'bottomsilk', 'topmask', 'bottommask', 'top', 'bottom', 'drill', 'ipc_netlist']


class Broken(Exception):
    pass


def gen(rng, i):
    k = KINDS[i % len(KINDS)]
    case = {'kind': k, 'invert': rng.random() < .3, 'color': [round(rng.random(), 3) for _ in range(3)], 'filename': rng.random() < .2,
            'again': rng.random() < .25, 'fail': rng.randint(0, 30) if rng.random() < .2 else None}
    if k == 'gerber':
        units = rng.choice(['inch', 'metric'])
        case['design'] = gen_file(rng, units=units, n=rng.choice([0, 1, 3, 6, 12]))
    elif k == 'drill':
        case['design'] = exc.gen_prog(rng, n=rng.choice([0, 1, 4, 10]))
    elif k == 'netlist':
        case['design'] = c15.gen(rng, 0)
        case['design']['style'].update(eol='\n', disk=False)
        case['side'] = rng.choice(['both', 'top', 'bottom', None])
    elif k == 'objects':
        case['models'] = [prims.model(rng) for _ in range(rng.randint(1, 8))]
        case['none'] = rng.random() < .3
    elif k == 'looks':
        case['context'] = rng.choice(['base', 'base', 'cairo', 'gerber', 'excellon'])
        case['steps'] = [look(rng) for _ in range(rng.randint(1, 10))]
    else:
        own = dict((c, [[round(rng.random(), 2) for _ in range(3)], rng.choice([1.0, .5, 0.0]), rng.random() < .5, rng.random() < .5]) for c in CLASSES if rng.random() < .4)
        case['own'] = own
        case['internal'] = [[round(rng.random(), 2) for _ in range(3)] for _ in range(rng.randint(1, 9))] if rng.random() < .6 else None
        case['name'] = rng.choice([None, 'Mine', 'Blue'])
        case['asks'] = [[rng.choice(['get', 'item', 'internal', 'internal', 'internal', 'internal', 'restart', 'unknown', 'twin']), rng.choice(CLASSES)] for _ in range(rng.randint(2, 24))]
    return case


def look(rng):
    name = rng.choice(['color', 'background_color', 'drill_color', 'alpha', 'units', 'invert'])
    bad = rng.random() < .5
    if name == 'invert':
        return [name, rng.random() < .5, None]
    if name == 'units':
        return [name, rng.choice(['mm', 'inches', 'INCH', '', None, 'imperial', 1]), 'ValueError'] if bad else [name, rng.choice(['inch', 'metric']), None]
    val = lambda: rng.choice([0, 1, 0.0, 1.0, round(rng.random(), 3), round(rng.random(), 3)])
    out = lambda: rng.choice([-.001, 1.001, -1, 2, 255, -0.5, 1e-9 + 1, -1e-9])
    if name == 'alpha':
        return [name, out(), 'ValueError'] if bad else [name, val(), None]
    c = [val() for _ in range(3)]
    if not bad:
        return [name, c, None]
    if rng.random() < .4:
        return [name, rng.choice([[], c[:1], c[:2], c + [val()], c + c]), 'TypeError']
    c[rng.randrange(3)] = out()
    return [name, c, 'ValueError']


def signature(case):
    return repr(case)


def recorder(fail=None):
    """A context that records what it is told and breaks at the call it is to fail at."""
    from gerber.render.render import GerberContext

    class Recorder(GerberContext):
        def __init__(self):
            super(Recorder, self).__init__()
            self.events = []

        def note(self, what, *args):
            if fail is not None and len(self.events) == fail:
                raise Broken(what)
            self.events.append((what,) + args)

        def set_bounds(self, bounds, *args, **kwargs):
            self.note('bounds', bounds)

        def paint_background(self, *args, **kwargs):
            self.note('background')

        def new_render_layer(self, *args, **kwargs):
            self.note('layer', self.invert)

        def flatten(self, *args, **kwargs):
            self.note('flatten')

        def pre_render_primitive(self, p):
            self.note('pre', p)

        def post_render_primitive(self, p):
            self.note('post', p)

        def dump(self, filename=None, *args, **kwargs):
            self.note('dump', filename)

    for k in set(CALLS.values()):
        setattr(Recorder, '_render_' + k, lambda self, p, color=None, k=k: self.note('draw', k, p, color))
    return Recorder()


def same(a, b):
    return a is b or snap.prim(a) == snap.prim(b)


def follow(events, objects, color, mon, show):
    """The calls for a list of objects."""
    k = 0
    for p in objects:
        name = CALLS.get(type(p).__name__)
        want = [('pre', p)] + ([('draw', name, p, color)] if name else []) + [('post', p)]
        for w in want:
            require(k < len(events), 'missing', lambda: '%r of %r is not drawn: %s' % (w[0], p, show()))
            e = events[k]
            ok = e[0] == w[0] and (e[0] != 'draw' or e[1] == w[1]) and same(e[2 if e[0] == 'draw' else 1], p)
            require(ok, 'call', lambda: 'call %r instead of %r: %s' % (e, w, show()))
            require(e[0] != 'draw' or tuple(e[3]) == tuple(color), 'color', lambda: 'drawn in %r instead of %r: %s' % (e[3], color, show()))
            if e[0] == 'draw':
                mon.count('drawn')
                mon.count('call:' + e[1])
            k += 1
    require(k == len(events), 'extra', lambda: 'further calls %r: %s' % (events[k:], show()))


def judge_design(case, mon):
    import gerber
    kind = case['kind']
    mon.count(kind)
    if kind == 'drill':
        f = exc.loads(case['design'])
        show = lambda: exc.text(case['design'])
    elif kind == 'gerber':
        show = lambda: gbr.text(case['design'])
        f = gerber.loads(show(), 'x.gtl')
    else:
        show = lambda: c15.text_of(case['design'])
        f = gerber.loads(show())
    color = tuple(case['color'])
    objects = list(f.primitives)
    mon.count('empty', not objects)
    if kind == 'netlist':
        sides = {'both': ('top', 'bottom', 'both'), 'top': ('top', 'both'), 'bottom': ('bottom', 'both')}[case['side'] or 'both']
        objects = [p for p in objects if p.layer in sides]
        args = {} if case['side'] is None else {'layer': case['side']}
    else:
        args = {'invert': case['invert']}
        mon.count('inverted', case['invert'])
    if case['filename']:
        args['filename'] = 'out.x'
        mon.count('filename')
    before = [snap.prim(p) for p in objects]
    for turn in range(2 if case['again'] or case['fail'] is not None else 1):
        mon.count('again', turn)
        broken = case['fail'] if not turn else None
        ctx = recorder(broken)
        ctx.color = color
        if kind != 'netlist' and len(objects) % 2:
            # (the context may have been used before)
            mon.count('used')
            ctx.invert = not case['invert']
        try:
            f.render(ctx, **args)
        except Broken:
            mon.count('failed')
            continue
        events = ctx.events
        # (a context that fails is not told anything further, and its failure is not hidden)
        require(broken is None or len(events) <= broken, 'hidden', lambda: 'the failure of call %d is hidden: %s' % (broken, show()))
        if case['filename']:
            require(events and events[-1] == ('dump', 'out.x'), 'dump', lambda: 'not saved at the end but %r: %s' % (events[-1:], show()))
            events = events[:-1]
        if kind != 'netlist':
            head = 3
            require(sorted(e[0] for e in events[:head]) == ['background', 'bounds', 'layer'] and events[2][0] == 'layer', 'begin', lambda: 'the rendering starts with %r: %s' % (events[:head], show()))
            b = [e for e in events[:head] if e[0] == 'bounds'][0][1]
            require(snap.pub(b) == snap.pub(f.bounding_box), 'bounds', lambda: 'the context is given %r, the box is %r: %s' % (b, f.bounding_box, show()))
            require(bool(events[2][1]) == case['invert'], 'invert', lambda: 'the layer starts with invert %r: %s' % (events[2][1], show()))
            require(events[-1] == ('flatten',), 'end', lambda: 'the rendering ends with %r: %s' % (events[-1], show()))
            events = events[head:-1]
        follow(events, objects, color, mon, show)
    require([snap.prim(p) for p in objects] == before, 'changed', lambda: 'rendering changed the objects: %s' % show())


def judge_objects(case, mon):
    mon.count('objects')
    objs = [prims.build(m) for m in case['models']]
    ctx = recorder()
    ctx.color = color = tuple(case['color'])
    for o in objs:
        ctx.render(o)
        if case['none']:
            ctx.render(None)
    follow(ctx.events, objs, color, mon, lambda: repr(case))


def judge_looks(case, mon):
    from gerber.cam import FileSettings
    mon.count('looks')
    if case['context'] == 'base':
        from gerber.render.render import GerberContext
        ctx = GerberContext()
    elif case['context'] == 'cairo':
        from gerber.render import GerberCairoContext
        ctx = GerberCairoContext()
    elif case['context'] == 'gerber':
        from gerber.render.rs274x_backend import Rs274xContext
        ctx = Rs274xContext(FileSettings())
    else:
        from gerber.render.excellon_backend import ExcellonContext
        ctx = ExcellonContext(FileSettings())
    names = ['color', 'background_color', 'drill_color', 'alpha', 'units', 'invert']
    model = dict((n, getattr(ctx, n)) for n in names)
    require(model['units'] in ('inch', 'metric') and 0 <= model['alpha'] <= 1 and all(len(model[n]) == 3 and all(0 <= v <= 1 for v in model[n]) for n in names[:3]), 'default', lambda: 'a new context has %r' % model)
    for name, value, error in case['steps']:
        value = tuple(value) if isinstance(value, list) else value
        try:
            setattr(ctx, name, value)
            got = None
        except (TypeError, ValueError) as e:
            got = type(e).__name__
        require(got == error, 'refused', lambda: '%s = %r gives %s instead of %s' % (name, value, got, error))
        mon.count('refused' if error else 'accepted')
        if not error:
            model[name] = value
        now = dict((n, getattr(ctx, n)) for n in names)
        require(now == model, 'looks', lambda: 'after %s = %r the context has %r, not %r' % (name, value, now, model))


def judge_theme(case, mon):
    from gerber.render import RenderSettings
    from gerber.render.theme import Theme
    mon.count('theme')
    values = lambda s: (tuple(s.color), s.alpha, s.invert, s.mirror)
    make = lambda v: RenderSettings(tuple(v[0]), v[1], v[2], v[3])
    kw = dict((c, make(v)) for c, v in case['own'].items())
    kw2 = dict((c, make(v)) for c, v in case['own'].items())
    if case['internal'] is not None:
        kw['internal'] = [RenderSettings(tuple(c)) for c in case['internal']]
    if case['name'] is not None:
        kw['name'] = case['name']
    theme, twin, plain = Theme(**kw), Theme(**kw2), Theme()
    # the looks of inner layers without any given are those of any new theme
    first = []
    for _ in range(60):
        first.append(values(plain.internal))
    if case['internal'] is not None:
        cycle = [(tuple(c), 1.0, False, False) for c in case['internal']]
    else:
        n = next((n for n in range(1, 30) if first == (first[:n] * 60)[:60]), None)
        require(n, 'internal', lambda: 'the inner layers of a new theme look like %r' % first)
        cycle = first[:n]
    at = 0
    for what, key in case['asks']:
        if what == 'restart':
            theme.restart()
            at = 0
            mon.count('restarted')
        elif what == 'twin':
            # (another theme has no influence)
            values(twin.internal)
            twin.restart()
        elif what == 'internal':
            got = values((theme.get('internal') if at % 2 else theme['internal']) if key != 'top' else theme.internal)
            want = cycle[at % len(cycle)]
            require(got == want, 'internal', lambda: 'inner layer %d looks like %r, not %r: %r' % (at, got, want, case))
            mon.count('internal')
            mon.count('wrapped', at >= len(cycle))
            at += 1
        elif what == 'unknown':
            for k in ('unknown', 'outline', 'nothing'):
                none = RenderSettings()
                require(theme.get(k, none) is none and theme.get(k) is None, 'unknown', lambda: 'the look of %s is %r' % (k, theme.get(k)))
        else:
            got = theme.get(key, None) if what == 'get' else theme[key]
            own = case['own'].get(key)
            want = values(make(own)) if own else values(plain[key])
            mon.count('own' if own else 'not_own')
            require(got is not None and values(got) == want, 'look', lambda: '%s looks like %r, not %r: %r' % (key, got and values(got), want, case))
    require(theme.name == (case['name'] or plain.name), 'name', lambda: 'the theme is named %r: %r' % (theme.name, case['name']))


def judge(case, mon):
    k = case['kind']
    if k == 'objects':
        judge_objects(case, mon)
    elif k == 'looks':
        judge_looks(case, mon)
    elif k == 'theme':
        judge_theme(case, mon)
    else:
        judge_design(case, mon)
