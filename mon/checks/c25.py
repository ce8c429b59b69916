"""C25: read-only use leaves a design usable and unchanged."""
import copy
import os
from mon import exc, gbr, snap
from mon.core import require
from mon.checks import c15
from mon.checks.c07 import gen_file

PID = 'C25'
QUICK, THOROUGH = 3600, 45000
RULE = ('a case is a random Gerber, drill or netlist design, sometimes converted or moved before and queried once before that, and a random sequence of read-only queries (boxes, sizes, objects, counts, reports, '
        'statement texts, writing, copies, Gerber, drill and raster output); every answer is compared with that of a freshly read twin asked for the first time, and at the end the snapshots of both and of both after one more change; '
        'non-trivial when there are at least two objects')
REQUIRED = {'kind:gerber': 700, 'kind:drill': 450, 'kind:netlist': 120, 'answers': 9000, 'repeated': 1500, 'q:written': 300, 'q:cairo': 200, 'q:layer': 150, 'q:gerber': 300, 'q:gerber_prims': 200,
            'q:excellon': 100, 'q:report': 200, 'q:texts': 300, 'q:other_texts': 300, 'q:objects': 300, 'q:box': 300, 'q:copy': 200, 'picture': 200, 'changed_after': 1000, 'pre': 300, 'dump': 400, 'dumped': 5000, 'dumped:field': 9000}
ASSUMPTIONS = ['a drawing that cannot be rendered the same way each time it is read is no violation as long as the error is the same',
               'after a conversion numbers may differ in the last digits, since pending conversions settle at different times']
COMMON = ['bounds', 'bounding_box', 'size', 'count', 'objects', 'one', 'settings', 'copy', 'strings', 'primitive_area']
KINDS = {'gerber': COMMON + ['texts', 'other_texts', 'written', 'written_other', 'gerber', 'gerber_prims', 'cairo', 'layer', 'comments', 'apertures', 'box'],
         'drill': COMMON + ['texts', 'other_texts', 'written', 'report', 'report_file', 'hit_count', 'path_length', 'hits', 'tools', 'cairo', 'layer', 'excellon', 'hit_boxes', 'box'],
         'netlist': ['records', 'nets', 'groups', 'settings', 'objects', 'count', 'strings', 'copy', 'cairo']}


def gen(rng, i):
    kind = ['gerber', 'drill', 'gerber', 'drill', 'gerber', 'gerber', 'netlist', 'drill', 'gerber', 'drill'][i % 10]
    if kind == 'gerber':
        units = rng.choice(['inch', 'metric'])
        span = 2.0 if units == 'inch' else 50.0
        design = gen_file(rng, units=units, n=rng.randint(2, 12), **({'span': span} if rng.random() < .7 else {}))
    elif kind == 'drill':
        design = exc.gen_prog(rng, n=rng.randint(2, 14))
    else:
        design = c15.gen(rng, 0)
        design['style'].update(eol='\n', disk=False)
    pre = []
    if kind != 'netlist':
        while rng.random() < .2:
            pre.append(change(rng))
    qs = [[rng.choice(KINDS[kind]), rng.randint(0, 30)] for _ in range(rng.randint(3, 9))]
    for _ in range(rng.randint(0, 3)):
        qs.insert(rng.randint(0, len(qs)), list(rng.choice(qs)))
    return {'kind': kind, 'design': design, 'pre': pre, 'queries': qs, 'after': change(rng) if rng.random() < .8 and kind != 'netlist' else None}


def change(rng):
    r = rng.random()
    if r < .3:
        return ['offset', round(rng.uniform(-2, 2), 2), round(rng.uniform(-1, 3), 3)]
    return [rng.choice(['to_inch', 'to_metric'])]


def signature(case):
    return repr(case) if case['kind'] == 'netlist' or len(case['design']['ops']) > 2 else None


def text_of(case):
    d = case['design']
    return {'gerber': gbr.text, 'drill': exc.text, 'netlist': c15.text_of}[case['kind']](d)


def load(case):
    import gerber
    if case['kind'] == 'drill':
        f = exc.loads(case['design'])
    else:
        f = gerber.loads(text_of(case), 'board.gtl' if case['kind'] == 'gerber' else None)
    for s in case['pre']:
        snap_of(case, f)
        getattr(f, s[0])(*s[1:])
    if case['pre']:
        snap_of(case, f)
    return f


def snap_of(case, f):
    if case['kind'] == 'netlist':
        return [('statements', snap.pub(f.statements)), ('objects', tuple(snap.pub(p) for p in f.primitives)), ('units', f.units), ('angle_units', f.angle_units), ('filename', f.filename)]
    return snap.snap(f)


def read_file(name):
    with open(name) as fp:
        s = fp.read()
    os.remove(name)
    return s


def picture(f, k, mon, layer=False):
    """A small picture; None when its size makes no sense."""
    from gerber.layers import PCBLayer
    from gerber.render import GerberCairoContext, RenderSettings
    if hasattr(f, 'test_records'):
        ctx = GerberCairoContext(10)
        ctx.set_bounds(((0, 4), (0, 4)))
        ctx.new_render_layer()
        f.render(ctx, layer=('top', 'bottom', 'both')[k % 3])
        ctx.flatten()
        return ctx.dump_str()
    box = f.bounds if layer and not hasattr(f, 'hits') else f.bounding_box
    w, h = box[0][1] - box[0][0], box[1][1] - box[1][0]
    if not (0 < w < 1e6 and 0 < h < 1e6) or max(w / h, h / w) > 60:
        return None
    mon.count('picture')
    ctx = GerberCairoContext(90. / max(w, h))
    if layer:
        lay = PCBLayer.from_cam(f)
        require(lay.primitives is not None and len(lay.primitives) == len(f.primitives), 'layer', lambda: 'the layer has %r objects' % (len(lay.primitives),))
        ctx.render_layer(lay, settings=RenderSettings((.2, .9, .4), (1., .5)[k % 2], k % 3 == 0, k % 5 == 0), bgsettings=RenderSettings((.1, .1, .3)))
    else:
        f.render(ctx, invert=k % 3 == 0)
    return ctx.dump_str()


def ask(f, q, k, mon):
    from gerber.cam import FileSettings
    if q in ('bounds', 'bounding_box', 'size', 'comments', 'apertures'):
        return snap.pub(getattr(f, q))
    if q == 'count':
        return len(f.primitives), len(f.statements)
    if q == 'objects':
        return tuple(snap.prim(p) for p in f.primitives) if not hasattr(f, 'test_records') else tuple(snap.pub(p) for p in f.primitives)
    if q == 'one':
        ps = f.primitives
        return snap.prim(ps[k % len(ps)]) if ps else None
    if q == 'strings':
        return [str(p) for p in f.primitives if '0x' not in str(p)] + [str(s) for s in f.statements if ' at 0x' not in str(s)]
    if q == 'settings':
        return snap.pub(dict((n, f.settings[n]) for n in ('notation', 'units', 'zero_suppression', 'format')))
    if q == 'copy':
        g = copy.deepcopy(f)
        return snap.pub(g.statements), len(g.primitives)
    if q == 'primitive_area':
        return [snap.query(p, n) for p in f.primitives for n in ('bounding_box', 'vertices', 'segments', 'bounding_box_no_aperture')]
    if q == 'box':
        b = f.bounding_box
        return [snap.query(p, 'bounding_box') for p in f.primitives], b
    if q in ('texts', 'other_texts'):
        s = f.settings if q == 'texts' else FileSettings(units=f.units, format=((6, 5), (5, 6), (6, 6))[k % 3], zeros=('leading', 'trailing')[k % 2], notation='absolute')
        return [x.to_gerber(s) if hasattr(x, 'to_gerber') else x.to_excellon(s) for x in f.statements]
    if q == 'written':
        f.write('out.x')
        return read_file('out.x')
    if q == 'written_other':
        f.write('out.x', FileSettings(units=f.units, format=(6, 5), zero_suppression=('leading', 'trailing')[k % 2]))
        return read_file('out.x')
    if q in ('gerber', 'gerber_prims'):
        from gerber.render.rs274x_backend import Rs274xContext
        ctx = Rs274xContext(f.settings)
        ctx.condensed_flash = k % 2 == 0
        if q == 'gerber':
            f.render(ctx)
        else:
            for p in f.primitives:
                ctx.render(p)
        return ctx.dump().getvalue()
    if q in ('cairo', 'layer'):
        return picture(f, k, mon, q == 'layer')
    if q == 'excellon':
        from gerber.render.excellon_backend import ExcellonContext
        s = FileSettings(units=f.units, format=f.settings.format, zeros=f.settings.zeros, notation='absolute')
        ctx = ExcellonContext(s)
        f.render(ctx)
        return [x.to_excellon(s) for x in ctx.statements]
    if q == 'report':
        return f.report()
    if q == 'report_file':
        r = f.report('out.txt')
        return r, read_file('out.txt')
    if q in ('hit_count', 'path_length'):
        m = getattr(f, q)
        n = sorted(f.tools)
        return snap.pub(m()), snap.pub(m(n[k % len(n)]))
    if q in ('hits', 'tools'):
        return snap.pub(getattr(f, q))
    if q == 'hit_boxes':
        return [snap.pub(h.bounding_box) for h in f.hits]
    if q == 'records':
        return snap.pub(f.statements)
    if q == 'nets':
        return sorted((str(n.name), sorted(map(str, n.adjacent_nets))) for n in f.nets)
    if q == 'groups':
        return [sorted(map(repr, map(snap.pub, getattr(f, n)))) for n in ('comments', 'parameters', 'test_records', 'components', 'vias', 'outlines', 'adjacency_records')]
    raise AssertionError(q)


FIELDS = ('type', 'param', 'd', 'x', 'y', 'i', 'j', 'op', 'function', 'mode', 'name', 'macro', 'shape', 'zero_suppression', 'notation', 'lp', 'ip', 'comment', 'deprecated')


def dumps(case, text, mon):
    """The dumps of a parser name every statement, in order, and change nothing."""
    import json
    from gerber.rs274x import GerberParser
    p, q = GerberParser(), GerberParser()
    f, twin = p.parse_raw(text, 'board.gtl'), q.parse_raw(text, 'board.gtl')
    mon.count('dump')
    want = [str(s) for s in twin.statements]
    for n in range(2):
        a = p.dump_str()
        got = a.split('\n')[:-1]
        same = [n for n, (x, y) in enumerate(zip(got, want)) if x != y and '0x' not in y]
        require(len(got) == len(want) and not same, 'dump_str', lambda: 'the dump has %d lines for %d statements, others at %r of\n%s' % (len(got), len(want), same[:3], text))
        d = json.loads(p.dump_json())['statements']
        require(len(d) == len(want), 'dump_json', lambda: 'the dump has %d entries for %d statements of\n%s' % (len(d), len(want), text))
        for e, s in zip(d, twin.statements):
            mon.count('dumped')
            for k in FIELDS:
                v = getattr(s, k, None)
                # (values may be kept under another name)
                name = k if k in e else '_' + k
                if name in e and (v is None or isinstance(v, (int, float, str))):
                    mon.count('dumped:field')
                    require(e[name] == v, 'dump_json', lambda: '%s of %r is dumped as %r of\n%s' % (k, str(s), e[name], text))
            if e.get('param') == 'AM' and 'primitives' in e:
                mon.count('dumped:macro')
                require([x['code'] for x in e['primitives']] == [x.code for x in s.primitives if hasattr(x, 'code')], 'dump_json', lambda: 'the elements of %r are dumped as %r of\n%s' % (str(s), e['primitives'], text))
    d = snap.diff(snap_of(case, twin), snap_of(case, f), 0.0)
    require(d is None, 'dump_changed', lambda: 'the dumps changed the design: %s of\n%s' % (d, text))


def answer(f, q, k, mon):
    from mon.core import Violation
    try:
        return 'is', ask(f, q, k, mon)
    except Violation:
        raise
    except (ArithmeticError, AttributeError, NotImplementedError, TypeError, ValueError, LookupError) as e:
        return 'raises', type(e).__name__


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def differ(a, b, tol):
    """Where two answers differ."""
    if not tol:
        return None if a == b else snap.where(tup(a), tup(b), 0.0, '') or 'the answers differ'
    return snap.where(loose(tup(a)), loose(tup(b)), tol, '')


def loose(x):
    """Numbers in texts and pictures may be rounded differently."""
    if isinstance(x, tuple):
        return tuple(loose(y) for y in x)
    if isinstance(x, bytes):
        return '<picture>'
    if isinstance(x, str) and any(c.isdigit() for c in x) and ('\n' in x or 'X' in x or '.' in x or '*' in x):
        return '<text>'
    return x


def judge(case, mon):
    kind = case['kind']
    mon.count('kind:' + kind)
    mon.count('pre', bool(case['pre']))
    tol = 1e-9 if case['pre'] else 0.0
    f = load(case)
    twin = load(case)
    text = text_of(case)
    first = {}
    for n, (q, k) in enumerate(case['queries']):
        what = lambda: '%r, query %d of %r after %r\n%s' % ((q, k), n, case['queries'], case['pre'], text)
        got = answer(f, q, k, mon)
        mon.count('q:' + q)
        mon.count('answers')
        if got[0] == 'raises':
            mon.count('raised')
            mon.seen('raised', (kind, q, got[1]))
        if (q, k) in first:
            mon.count('repeated')
            d = differ(first[(q, k)], got, 0.0)
            require(d is None, 'repeat', lambda: 'the answer was another the first time: %s: %s' % (d, what()))
            continue
        first[(q, k)] = got
        want = answer(load(case), q, k, mon)
        d = differ(want, got, tol)
        require(d is None, 'answer', lambda: 'a fresh design answers otherwise: %s: %s' % (d, what()))
    if kind == 'gerber' and len(case['queries']) % 2:
        dumps(case, text, mon)
    what = lambda: '%r after %r\n%s' % (case['queries'], case['pre'], text)

    def compare(key, say):
        a, b = snap_of(case, twin), snap_of(case, f)
        if tol:
            a, b = [tuple(loose(y) for y in x) for x in a], [tuple(loose(y) for y in x) for x in b]
        d = snap.diff(a, b, tol)
        require(d is None, key, lambda: '%s: %s: %s' % (say, d, what()))
    s = case['after']
    if s is None:
        compare('changed', 'the queries changed the design')
        return
    # (a change shows whether anything was remembered that should not have been)
    mon.count('changed_after')
    getattr(f, s[0])(*s[1:])
    getattr(twin, s[0])(*s[1:])
    compare('changed', 'after %r the design differs' % (s,))
    got = [answer(f, q, k, mon) for q, k in case['queries'][:2]]
    want = [answer(twin, q, k, mon) for q, k in case['queries'][:2]]
    d = differ(want, got, 1e-9 if tol else 0.0)
    require(d is None, 'after', lambda: 'after %r the answers differ: %s: %s' % (s, d, what()))
