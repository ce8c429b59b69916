"""C20: raster rendering paints exactly the objects of the design."""
import io
import math
import os
import random
from mon import gbr, area, snap
from mon.core import require
from mon.checks.c07 import gen_file
from mon.checks.c19 import extent

PID = 'C20'
QUICK, THOROUGH = 4800, 36000
RULE = ('a case is a few objects about as large as a pixel, or one to three layers (random Gerber objects of every kind, dark and clear, macros with exposure off, drilled holes and slots) rendered at a random scale as files, layer by '
        'layer or as a set, with random colours, opacity, inversion and mirroring; some hundred pixels are compared with exact point membership in the design, the image is rendered again '
        'and the designs are compared with their state before; non-trivial when at least one object exists')
REQUIRED = {'mode:file': 100, 'mode:layer': 300, 'mode:layers': 150, 'gerber': 800, 'drill': 150, 'object:line': 600, 'object:arc': 300, 'object:flash': 600, 'object:region': 250, 'macro': 200,
            'clear': 300, 'hole': 150, 'slot': 200, 'hit': 300, 'inverted': 100, 'mirrored': 100, 'translucent': 150, 'given_bounds': 50, 'several': 200, 'again': 400,
            'pixel:painted': 40000, 'pixel:bare': 60000, 'zero_length': 30, 'internal': 40, 'aimed': 100000, 'exposure_off': 50, 'full_circle': 30, 'mode:thin': 300, 'thin:painted': 800, 'thin:part': 2000, 'thin:bare': 2000, 'svg': 300, 'used_before': 200, 'unseen': 40, 'see_through': 100}
ASSUMPTIONS = ['pixels nearer to an outline than 1.6 pixels are not judged, except for objects of about a pixel, whose pixels must be painted by their coverage within 0.2 of a full pixel', 'layers rendered together use the same units', 'draws use circles and rectangles and arcs use circles',
               'a hole of an aperture leaves what was painted before']
WHITE, BLACK = (1.0, 1.0, 1.0), (0.0, 0.0, 0.0)
CLASSES = ['top', 'bottom', 'topsilk', 'bottomsilk', 'topmask', 'bottommask', 'internal', 'internal', 'drill']
NAMES = {'top': 'x.gtl', 'bottom': 'x.gbl', 'topsilk': 'x.gto', 'bottomsilk': 'x.gbo', 'topmask': 'x.gts', 'bottommask': 'x.gbs', 'internal': 'x.g%d', 'drill': 'x.drl'}
THEME_NAMES = ['default', 'OSH Park', 'Blue', 'Transparent Copper', 'Transparent Multilayer']


# ---------------------------------------------------------------- cases
def gen(rng, i):
    if rng.random() < .2:
        return gen_thin(rng)
    units = rng.choice(['inch', 'metric'])
    k = 1.0 if units == 'inch' else 10.0
    mode = rng.choice(['file', 'layer', 'layer', 'layer', 'layers', 'layers'])
    n = 1 if mode == 'file' else rng.choice([1, 1, 2, 3]) if mode == 'layer' else rng.choice([1, 2, 3, 4])
    layers = []
    for m in range(n):
        cls = rng.choice(CLASSES)
        lay = {'class': cls}
        if cls == 'drill':
            lay['drill'] = gen_drill(rng, units, k)
        else:
            b = 3 if units == 'inch' else 2
            lay['prog'] = gen_file(rng, n=rng.choice([1, 2, 4, 8, 14]), units=units, fmt=(2 if units == 'inch' else 3, b + rng.choice([0, 1])), draws_any=False,
                                   span=int(rng.choice([.3, 1, 1, 1.5]) * k * 10 ** b))
            lay['prog']['ops'] += extra(rng, lay['prog'])
        if mode != 'layers':
            lay['color'] = [round(rng.random(), 3) for _ in range(3)]
            lay['alpha'] = rng.choice([1.0, 1.0, 1.0, .85, .5, .5, 0, 0.0])
            lay['invert'] = rng.random() < .25
            lay['mirror'] = rng.random() < .25
        layers.append(lay)
    case = {'mode': mode, 'units': units, 'layers': layers, 'scale': rng.choice([20, 33, 40, 47.5, 60]) / k, 'again': rng.choice(['same', 'new', None, 'new']), 'seed': rng.randrange(10 ** 9),
            'load': rng.choice(['layer', 'file'])}
    if rng.random() < .3:
        # the context served for something else before
        k = 1.0 if units == 'inch' else 10.0
        case['other'] = {'drill': gen_drill(rng, units, k * rng.choice([.5, 1, 2])), 'scale': rng.choice([None, 25 / k]), 'settings': [[.2, .5, .9], .7, rng.random() < .5, rng.random() < .5]}
    if rng.random() < .4:
        case['svg'] = rng.choice(['text', 'svg', 'SVG'])
    if mode == 'file':
        layers[0]['mirror'] = False
    if mode == 'layer':
        case['bg'] = [round(rng.random(), 3) for _ in range(3)]
        case['bg_alpha'] = rng.choice([1.0, 1.0, 1.0, round(rng.random(), 3), 0.0])
        if rng.random() < .3:
            x, y = rng.uniform(-1.5, 0) * k, rng.uniform(-1.5, 0) * k
            case['bounds'] = [[round(x, 4), round(x + rng.uniform(1, 3) * k, 4)], [round(y, 4), round(y + rng.uniform(1, 3) * k, 4)]]
    if mode == 'layers':
        case['theme'] = rng.choice(THEME_NAMES)
        case['max'] = rng.choice([[80, 60], [60, 100], [120, 120], [100, 100]])
    return case


def extra(rng, prog):
    """Objects that random programs seldom hold."""
    b = prog['fmt'][1]
    unit = prog['span']
    s = lambda: rng.randint(-unit, unit)
    ops = []
    r = rng.random()
    d = '%.3f' % (rng.uniform(.1, .4) * unit / 10 ** b)
    if r < .1:
        ops = [['ad', 600, 'C', [d]], ['sel', 600, False], ['op', 'G01', s(), s(), None, None, 'D02']]
        ops.append(['op', None, ops[-1][2], ops[-1][3], None, None, 'D01'])
    elif r < .2:
        ops = [['ad', 600, 'C', [d]], ['sel', 600, False], ['q', 'G75'], ['op', 'G01', s(), s(), None, None, 'D02']]
        ops.append(['op', rng.choice(['G02', 'G03']), ops[-1][2], ops[-1][3], rng.choice([s(), unit // 2]), rng.choice([0, s()]), 'D01'])
        ops.append(['op', 'G01', s(), s(), None, None, 'D02'])
    elif r < .35:
        # a pad over the last pad
        ops = [['am', 'OVER', ['1,1,%s,0,0' % d, '1,0,%.3f,0,0' % (float(d) * .6), '21,1,%.3f,%.3f,0,0,30' % (float(d) * .1, float(d) * .5)]], ['ad', 600, 'OVER', []],
               ['ad', 601, 'R', ['%.3f' % (float(d) * 2), '%.3f' % (float(d) * .8)]], ['ad', 602, rng.choice('CRO'), ['%.3f' % (float(d) * 1.4)]]]
        if ops[-1][2] != 'C':
            ops[-1][3].append('%.3f' % (float(d) * 1.1))
        ops[-1][3] += rng.choice([['%.3f' % (float(d) * .8)], ['%.3f' % (float(d) * .8), '%.3f' % (float(d) * .6)]])
        x, y = s(), s()
        for _ in range(rng.randint(2, 4)):
            ops += [['lp', rng.choice('DDC')], ['sel', rng.choice([600, 600, 601, 602]), False], ['op', None, x + rng.randint(-unit // 10, unit // 10), y, None, None, 'D03']]
    elif r < .5:
        # large pads with holes
        for c in range(600, 600 + rng.randint(1, 3)):
            w, h = (rng.uniform(.3, .9) * unit / 10 ** b for _ in range(2))
            sh = rng.choice('CROOP')
            mods = {'C': [w], 'R': [w, h], 'O': [w, h], 'P': [w]}[sh]
            low = min(w, h) if len(mods) > 1 else w
            mods = ['%.3f' % v for v in mods] + (['%d' % rng.randint(3, 9), rng.choice(['0', '45', '20'])] if sh == 'P' else [])
            hi = .4 if sh == 'P' else .93
            mods += ['%.3f' % (rng.uniform(.25, hi) * low) for _ in range(rng.choice([1, 1, 2]))]
            ops += [['ad', c, sh, mods], ['lp', rng.choice('DDDC')], ['sel', c, False], ['op', None, s(), s(), None, None, 'D03']]
    return ops


def gen_thin(rng):
    """Objects about as large as a pixel, anywhere on the grid of pixels."""
    scale = rng.choice([20, 33, 40, 47.5])
    px = 1.0 / scale
    shift = [rng.choice([0, 0, -1, -2.37, -4.5, 3.21]) for _ in range(2)]
    pos = lambda: (round(d + rng.choice([rng.uniform(.2, 1.8), rng.randint(8, 30) * px + rng.choice([0, .1, .45, .55, .9]) * px]), 6) for d in shift)
    num = lambda v: '%d' % round(v * 10 ** 6)
    size = lambda: '%.6f' % (px * rng.choice([.4, .7, .9, .95, 1.0, 1.3, 2.2]))
    objs = []
    drill = rng.random() < .2
    for k in range(rng.choice([1, 1, 2, 3])):
        x, y = pos()
        x2, y2 = (v + rng.choice([0, rng.uniform(-.5, .5)]) for v in (x, y))
        r = rng.choice(['line', 'line', 'line', 'rect', 'arc', 'flash', 'flash', 'region'])
        if drill:
            objs.append([rng.choice(['hit', 'slot']), '%.6f' % x, '%.6f' % y, '%.6f' % x2, '%.6f' % y2, size()])
        elif r == 'flash':
            sh = rng.choice('CROP')
            objs.append([r, num(x), num(y), sh, [size()] if sh == 'C' else [size(), '%d' % rng.randint(3, 8), rng.choice(['0', '30'])] if sh == 'P' else [size(), '%.6f' % (px * rng.choice([.5, .9, 6]))][::rng.choice([1, -1])]])
        elif r == 'region':
            t = px * rng.choice([.4, .9, 1.5])
            a = [num(v) for v in (x, y, x2, y2)]
            objs.append([r] + a + [num(x2 + rng.choice([0, t])), num(y2 + t), num(x + t), num(y + t)])
        elif r == 'arc':
            rad, a, b = rng.uniform(.02, .3), rng.uniform(0, 7), rng.uniform(0, 7)
            x2, y2 = x + rad * (math.cos(b) - math.cos(a)), y + rad * (math.sin(b) - math.sin(a))
            objs.append([r, num(x), num(y), num(x2), num(y2), num(-rad * math.cos(a)), num(-rad * math.sin(a)), rng.choice(['G02', 'G03']), size()])
        elif r == 'rect':
            objs.append([r, num(x), num(y), num(x2), num(y2), size(), size()])
        else:
            objs.append([r, num(x), num(y), num(x2), num(y2), size()])
    box = [[0.0, 2.0], [0.0, 2.0]] if rng.random() < .4 else [[round(-rng.uniform(0, .3), 4), round(2 + rng.uniform(0, .3), 4)] for _ in range(2)]
    box = [[round(v + d, 4) for v in b] for b, d in zip(box, shift)]
    return {'mode': 'thin', 'objs': objs, 'bounds': box, 'scale': scale, 'drill': drill, 'seed': rng.randrange(10 ** 9)}


def thin_text(case):
    if case['drill']:
        tools = sorted(set(o[-1] for o in case['objs']))
        out = ['M48', 'INCH,TZ'] + ['T%dC%s' % (n + 1, c) for n, c in enumerate(tools)] + ['%', 'G90']
        for o in case['objs']:
            out += ['T%d' % (tools.index(o[-1]) + 1), 'X%sY%s' % (o[1], o[2]) + ('G85X%sY%s' % (o[3], o[4]) if o[0] == 'slot' else '')]
        return '\n'.join(out + ['M30', ''])
    out = ['%FSLAX26Y26*%', '%MOIN*%']
    for n, o in enumerate(case['objs']):
        d = 10 + n
        if o[0] == 'flash':
            out += ['%%ADD%d%s,%s*%%' % (d, o[3], 'X'.join(o[4])), 'D%d*' % d, 'X%sY%sD03*' % (o[1], o[2])]
        elif o[0] == 'region':
            q = list(zip(o[1::2], o[2::2]))
            out += ['G36*', 'G01X%sY%sD02*' % q[0]] + ['X%sY%sD01*' % v for v in q[1:] + q[:1]] + ['G37*']
        elif o[0] == 'arc':
            out += ['%%ADD%dC,%s*%%' % (d, o[8]), 'D%d*' % d, 'G75*', 'G01X%sY%sD02*' % (o[1], o[2]), '%sX%sY%sI%sJ%sD01*' % (o[7], o[3], o[4], o[5], o[6]), 'G01*']
        else:
            out += ['%%ADD%d%s,%s*%%' % (d, 'C' if o[0] == 'line' else 'R', 'X'.join(o[5:])), 'D%d*' % d, 'G01X%sY%sD02*' % (o[1], o[2]), 'X%sY%sD01*' % (o[3], o[4])]
    return '\n'.join(out + ['M02*', ''])


def judge_thin(case, mon):
    import random
    import gerber
    from gerber.layers import PCBLayer
    from gerber.render import GerberCairoContext, RenderSettings
    text = thin_text(case)
    if case['drill']:
        f, images, marks = gerber.loads(text, 'x.drl'), [], []
        for o in case['objs']:
            v = [float(c) for c in o[1:]]
            images.append(area.disc(v[:2], v[4] / 2.) if o[0] == 'hit' else area.capsule(v[:2], v[2:4], v[4] / 2.))
            marks.append(v[:2] if o[0] == 'hit' else v[:4])
    else:
        f = gerber.loads(text, 'x.gtl')
        norms = [gbr.obs(p) for p in f.primitives]
        images, marks = [], []
        for n in norms:
            if n[0] == 'region':
                pts = [c for c in area.contours(n[2])]
                images.append(area.plain_multi(pts))
                marks.append(list(pts[0][0]) + list(pts[0][1]))
            else:
                images.append(area.shape_of(n, 1e-7)[1])
                marks.append(list(n[2]) if n[0] == 'flash' else list(n[2]) + list(n[3]))
    require(len(images) == len(case['objs']), 'objects', lambda: '%d objects of\n%s' % (len(images), text))
    scale, box = case['scale'], case['bounds']
    ctx = GerberCairoContext(scale)
    ctx.render_layer(PCBLayer('x.gtl', 'top', f), settings=RenderSettings((1.0, 1.0, 1.0), 1.0), bgsettings=RenderSettings((0.0, 0.0, 0.0)), bounds=box)
    pw, ph, at = pixels(ctx.dump_str())
    mon.count('mode:thin')
    rng = random.Random(case['seed'])
    high = (box[1][1] - box[1][0]) * scale
    seen = set()
    for k in range(40):
        m = rng.choice(marks)
        t = rng.choice([0, 1, rng.random()])
        x, y = m[:2] if len(m) == 2 else (m[0] + t * (m[2] - m[0]), m[1] + t * (m[3] - m[1]))
        px, py = int(math.floor((x - box[0][0]) * scale)) + rng.choice([0, 0, -1, 1]), int(math.floor(high - (y - box[1][0]) * scale)) + rng.choice([0, 0, -1, 1])
        if (px, py) in seen or not (0 <= px < pw - 1 and 0 <= py < ph - 1):
            continue
        seen.add((px, py))
        cover = [0] * len(images)
        for i in range(64):
            p = (box[0][0] + (px + (i % 8 + .5) / 8) / scale, box[1][0] + (high - py - (i // 8 + .5) / 8) / scale)
            for n, s in enumerate(images):
                v = s(p)
                cover[n] += v is not None and v > 0
        cover = [c / 64. for c in cover]
        # (an obround is drawn in three parts, which may share an edge)
        low, top = max(cover), min(1, sum(1 - (1 - c) ** 3 if o[0] == 'flash' and o[3] == 'O' else c for c, o in zip(cover, case['objs'])))
        got = at(px, py)[1] / 255.
        mon.count('thin:painted', low > .5)
        mon.count('thin:part', .1 < low < .9)
        mon.count('thin:bare', top == 0)
        # (the edges of an object and of what is drawn of the layer may share a pixel)
        require(low ** 2 - .2 <= got <= top + .2, 'coverage', lambda: 'pixel (%d, %d) shows %.2f where objects cover %s at scale %r with bounds %r of\n%s' % (px, py, got, ['%.2f' % c for c in cover], scale, box, text))


def gen_drill(rng, units, k):
    tools = ['%.3f' % (rng.uniform(.03, .3) * k) for _ in range(rng.randint(1, 3))]
    num = lambda: '%.3f' % (rng.uniform(-1, 1) * k)
    ops = []
    for _ in range(rng.randint(1, 10)):
        t = rng.randint(1, len(tools))
        if rng.random() < .6:
            ops.append([t, num(), num()])
        else:
            ops.append([t, num(), num(), num(), num()])
    return {'units': units, 'tools': tools, 'ops': ops}


def drill_text(d):
    out = ['M48', 'INCH,TZ' if d['units'] == 'inch' else 'METRIC,TZ'] + ['T%dC%s' % (n + 1, c) for n, c in enumerate(d['tools'])] + ['%', 'G90']
    t = None
    for op in d['ops']:
        if op[0] != t:
            t = op[0]
            out.append('T%d' % t)
        out.append('X%sY%s' % (op[1], op[2]) + ('' if len(op) < 4 else 'G85X%sY%s' % (op[3], op[4])))
    return '\n'.join(out + ['M30', ''])


def signature(case):
    if case['mode'] == 'thin':
        return repr(case)
    return repr([drill_text(l['drill']) if 'drill' in l else gbr.text(l['prog']) for l in case['layers']] + [case['mode'], case['scale']])


# ---------------------------------------------------------------- design
def text_of(lay):
    return drill_text(lay['drill']) if 'drill' in lay else gbr.text(lay['prog'])


def shapes(lay, margin, mon, marks=None):
    """[(polarity, shape)] of the layer; places worth a look go to marks, with a length."""
    import gerber
    marks = [] if marks is None else marks
    if 'drill' in lay:
        out = []
        for op in lay['drill']['ops']:
            r = float(lay['drill']['tools'][op[0] - 1]) / 2.
            a = (float(op[1]), float(op[2]))
            marks.append((a, 2.4 * r))
            if len(op) < 4:
                mon.count('hit')
                out.append(('dark', area.disc(a, r)))
            else:
                mon.count('slot')
                out.append(('dark', area.capsule(a, (float(op[3]), float(op[4])), r)))
        return out
    norms = [gbr.obs(p) for p in gerber.loads(text_of(lay)).primitives]
    for n in norms:
        pts, size = extent(n)
        marks += [(q, size) for q in pts[:6]]
        mon.count('object:' + n[0])
        mon.count('clear', n[1] == 'clear')
        mon.count('zero_length', n[0] == 'line' and n[2] == n[3])
        mon.count('full_circle', n[0] == 'arc' and n[2] == n[3])
        if n[0] == 'flash':
            mon.count('macro', n[3][0] == 'M')
            mon.count('hole', n[3][0] != 'M' and n[3][-1][0] != 'none')
            mon.count('exposure_off', n[3][0] == 'M' and any(e[1] == 'clear' for e in n[3][1]))
    return [(n[1], area.plain_multi(area.contours(n[2]))) if n[0] == 'region' else area.shape_of(n, margin) for n in norms]


# ---------------------------------------------------------------- pictures
def pixels(png):
    try:
        import cairo
    except ImportError:
        import cairocffi as cairo
    s = cairo.ImageSurface.create_from_png(io.BytesIO(png))
    w, h, stride, data = s.get_width(), s.get_height(), s.get_stride(), bytes(s.get_data())

    def at(x, y):
        o = y * stride + 4 * x
        return (data[o + 2], data[o + 1], data[o])
    return w, h, at


def svg_pixels(data, mon):
    """(width, height, colour of a pixel) of a vector picture; None for the colour where its structure is not understood."""
    import base64
    import re
    import xml.etree.ElementTree as et
    try:
        root = et.fromstring(data)
    except et.ParseError as e:
        require(False, 'svg', 'no well-formed SVG: %s: %r' % (e, data[:200]))
    tag = lambda e: e.tag.split('}')[-1]
    require(tag(root) == 'svg', 'svg', lambda: 'the root element is %s' % root.tag)
    w, h = [float(re.match(r'[\d.]+', root.get(n)).group()) for n in ('width', 'height')]
    href = '{http://www.w3.org/1999/xlink}href'
    try:
        import cairo
    except ImportError:
        import cairocffi as cairo
    ids = dict((e.get('id'), e) for e in root.iter() if e.get('id'))
    steps = []

    def fill(r):
        if tag(r) != 'rect' or r.get('transform') or not (float(r.get('x')) <= 0 and float(r.get('y')) <= 0 and float(r.get('width')) >= w and float(r.get('height')) >= h):
            return None
        m = re.match(r'rgb\(([\d.]+)%, *([\d.]+)%, *([\d.]+)%\)$', r.get('fill') or '')
        return m and tuple(float(v) * 2.55 for v in m.groups()) + (float(r.get('fill-opacity', '1')),)

    def image(m):
        if len(m) != 1 or tag(m[0]) != 'g' or m[0].get('transform') or len(m[0]) != 1 or tag(m[0][0]) != 'use' or m[0][0].get('transform'):
            return None
        i = ids.get(m[0][0].get(href, '#')[1:])
        if i is None or tag(i) != 'image' or i.get('transform') or float(i.get('x')) or float(i.get('y')):
            return None
        s = cairo.ImageSurface.create_from_png(io.BytesIO(base64.b64decode(i.get(href).split(',', 1)[1])))
        if s.get_width() != float(i.get('width')) or s.get_height() != float(i.get('height')) or s.get_format() != cairo.FORMAT_ARGB32:
            return None
        stride, data = s.get_stride(), bytes(s.get_data())
        return lambda x, y: data[y * stride + 4 * x + 3] / 255. if 0 <= x < s.get_width() and 0 <= y < s.get_height() else 0
    for e in root:
        if tag(e) == 'defs':
            continue
        mask = None
        f = fill(e)
        if tag(e) == 'g' and len(e) == 1 and e.get('mask') and not e.get('transform'):
            f = fill(e[0])
            mask = image(ids[e.get('mask')[5:-1]])
            if mask is None:
                f = None
        if f is None:
            return w, h, None
        steps.append((f, mask))

    def at(x, y):
        c = (0, 0, 0)
        for f, mask in steps:
            a = f[3] * (1 if mask is None else mask(x, y))
            c = tuple(u * a + v * (1 - a) for u, v in zip(f[:3], c))
        return c
    return w, h, at


def judge_svg(case, png, svg, mon):
    """The vector picture shows what the raster picture shows."""
    pw, ph, at = pixels(png)
    w, h, at2 = svg_pixels(svg, mon)
    mon.count('svg')
    require(abs(w - pw) <= 1.01 and abs(h - ph) <= 1.01, 'svg-size', lambda: 'the vector picture is %r by %r, the raster picture %r by %r' % (w, h, pw, ph))
    if at2 is None:
        mon.count('svg:unknown')
        return
    mon.count('svg:compared')
    rng = random.Random(case['seed'])
    for _ in range(200):
        x, y = rng.randrange(max(1, pw - 1)), rng.randrange(max(1, ph - 1))
        a, b = at(x, y), at2(x, y)
        require(all(abs(u - v) <= 4 for u, v in zip(a, b)), 'svg-pixel', lambda: 'pixel (%d, %d) is %r in the vector picture, %r in the raster picture of %r' % (x, y, b, a, case))


def judge(case, mon):
    import gerber
    from gerber.layers import PCBLayer
    from gerber.render import GerberCairoContext, RenderSettings
    from gerber.render import theme as themes
    mode = case['mode']
    if mode == 'thin':
        return judge_thin(case, mon)
    files, layers = [], []
    for n, lay in enumerate(case['layers']):
        name = NAMES[lay['class']]
        if '%d' in name:
            name = name % (n + 1)
        f = gerber.loads(text_of(lay), name)
        if not len(f.primitives):
            return
        files.append(f)
        layers.append(PCBLayer.from_cam(f))
        require(layers[-1].layer_class == lay['class'], 'class', lambda: '%s is taken for %s' % (name, layers[-1].layer_class))
        mon.count('drill' if 'drill' in lay else 'gerber')
        mon.count('internal', lay['class'] == 'internal' and mode == 'layers')
    before = [snap.snap(f) for f in files]
    mon.count('mode:' + mode)
    mon.count('several', len(files) > 1)
    # what the picture shows
    if mode == 'file':
        box = files[0].bounding_box
    elif case.get('bounds'):
        box = case['bounds']
        mon.count('given_bounds')
    else:
        # coordinates of the layers (the first layer decides when they are rendered one by one)
        boxes = [f.bounding_box if 'drill' in lay else f.bounds for f, lay in zip(files, case['layers'])]
        if mode == 'layer':
            boxes = boxes[:1]
        box = [[min(b[a][0] for b in boxes), max(b[a][1] for b in boxes)] for a in (0, 1)]
    w, h = box[0][1] - box[0][0], box[1][1] - box[1][0]
    scale = case['scale']
    if mode == 'layers':
        if not w or not h:
            return
        scale = math.floor(min(case['max'][0] / w, case['max'][1] / h))
        if scale < 1:
            return
    if min(w, h) * scale < 2 or max(w, h) * scale > 1000:
        return
    pics = render(case, files, layers, scale, mon)
    require(all(p == pics[0] for p in pics), 'again', lambda: 'the picture differs when it is made again (%s): %r' % (case['again'], case))
    # the designs are as before
    for f, b, lay in zip(files, before, case['layers']):
        d = snap.diff(b, snap.snap(f))
        require(d is None, 'changed', lambda: 'rendering changed %s of\n%s' % (d, text_of(lay)))
    # pixels
    pw, ph, at = pixels(pics[0])
    show = lambda: '%s at %r (%d by %d) of\n%s' % (mode, scale, pw, ph, '\n'.join(text_of(l) for l in case['layers']))
    require(abs(pw - w * scale) < 1.01 and abs(ph - h * scale) < 1.01, 'size', lambda: 'the picture covers %r, which is %r by %r pixels: %s' % (box, w * scale, h * scale, show()))
    margin = 1.6 / scale
    looks = []
    if mode == 'layers':
        theme = themes.THEMES[case['theme']]
        for l in case['layers']:
            s = theme.get(l['class']) if l['class'] != 'internal' else RenderSettings()
            looks.append([None if l['class'] == 'internal' else s.color, s.alpha, s.invert, s.mirror])
        bg, bga = theme.background.color, theme.background.alpha
    elif mode == 'layer':
        looks = [[l['color'], l['alpha'], l['invert'], l['mirror']] for l in case['layers']]
        bg, bga = case['bg'], case.get('bg_alpha', 1.0)
        mon.count('see_through', bga < 1)
    else:
        looks = [[WHITE, 1.0, case['layers'][0]['invert'], False]]
        bg, bga = BLACK, 1.0
    marks = [[] for _ in case['layers']]
    images = [shapes(l, margin, mon, k) for l, k in zip(case['layers'], marks)]
    for k in looks:
        mon.count('inverted', bool(k[2]))
        mon.count('mirrored', bool(k[3]))
        mon.count('translucent', 0 < k[1] < 1)
        mon.count('unseen', k[1] == 0)
    import random
    rng = random.Random(case['seed'])
    for k in range(300):
        px, py = rng.randrange(int(w * scale)), rng.randrange(int(h * scale))
        if k % 2 and any(marks):
            # near an object
            m = rng.choice([n for n, q in enumerate(marks) if q])
            (x, y), size = rng.choice(marks[m])
            x, y = x + rng.uniform(-.6, .6) * size, y + rng.uniform(-.6, .6) * size
            px, py = int((x - box[0][0]) * scale), int(h * scale - (y - box[1][0]) * scale)
            if looks[m][3]:
                px = int(w * scale - (x - box[0][0]) * scale)
            if not (0 <= px < int(w * scale) and 0 <= py < int(h * scale)):
                continue
            mon.count('aimed')
        x, y = box[0][0] + (px + .5) / scale, box[1][0] + (h * scale - py - .5) / scale
        mx = box[0][0] + (w * scale - px - .5) / scale
        # (colours weighted by their opacity, as the picture has them)
        color, sure, top = tuple(v * bga for v in bg), True, False
        for (c, a, inv, mir), image in zip(looks, images):
            s = area.paint(image, (mx if mir else x, y), margin)
            if s == 'unsure':
                sure = False
                break
            top = (s == 'dark') != bool(inv)
            if top and c is None:
                color = None
            elif top and color is not None:
                color = tuple(u * a + v * (1 - a) for u, v in zip(c, color))
            elif top and a == 1:
                color = c
        if not sure or color is None:
            continue
        got = at(px, py)
        mon.count('pixel:painted' if top else 'pixel:bare')
        require(all(abs(g - 255 * v) <= 5 for g, v in zip(got, color)), 'pixel', lambda: 'pixel (%d, %d) at (%g, %g) is %r, not %r: %s' % (
            px, py, x, y, got, tuple(int(round(255 * v)) for v in color), show()))


def render(case, files, layers, scale, mon):
    """Pictures of the same design."""
    from gerber.render import GerberCairoContext, RenderSettings
    from gerber.render import theme as themes
    ctx = GerberCairoContext(scale)
    pics = []
    other = case.get('other')
    if other:
        # (what a context showed before it was cleared is gone)
        import gerber
        from gerber.layers import PCBLayer
        mon.count('used_before')
        if other['scale']:
            ctx.scale = (other['scale'], other['scale'])
        c, a, inv, mir = other['settings']
        ctx.render_layer(PCBLayer.from_cam(gerber.loads(drill_text(other['drill']), 'y.drl')), settings=RenderSettings(tuple(c), a, inv, mir), bgsettings=RenderSettings((.1, .1, .1)))
        ctx.scale = (scale, scale)
        ctx.clear()
    for k in range(2 if case['again'] else 1):
        if k:
            mon.count('again')
            if case['again'] == 'new':
                ctx = GerberCairoContext(scale)
            else:
                ctx.clear()
        if case['mode'] == 'file':
            ctx.color = WHITE
            ctx.background_color = BLACK
            files[0].render(ctx, invert=case['layers'][0]['invert'])
        elif case['mode'] == 'layer':
            for lay, l in zip(layers, case['layers']):
                ctx.render_layer(lay, settings=RenderSettings(tuple(l['color']), l['alpha'], l['invert'], l['mirror']), bgsettings=RenderSettings(tuple(case['bg']), case.get('bg_alpha', 1.0)), bounds=case.get('bounds'))
        else:
            name = 'out%d.png' % k
            ctx.render_layers(layers, name, theme=themes.THEMES[case['theme']], max_width=case['max'][0], max_height=case['max'][1])
            with open(name, 'rb') as fp:
                disk = fp.read()
            os.remove(name)
            require(disk == ctx.dump_str(), 'file', 'the file differs from the picture')
        pics.append(ctx.dump_str())
        if case.get('svg'):
            # the same picture as a vector graphic, as text or as a file
            if case['svg'] == 'text':
                svg = ctx.dump_svg_str()
            else:
                ctx.dump('out.%s' % case['svg'])
                with open('out.%s' % case['svg'], 'rb') as fp:
                    svg = fp.read()
                os.remove('out.%s' % case['svg'])
            judge_svg(case, pics[-1], svg, mon)
    return pics
