"""C28: the command line makes pictures of a board as its files describe it."""
import math
import os
import random
import shutil
import sys
import tempfile

from mon import gbr, area
from mon.core import require, Violation
from mon.checks import c20
from mon.checks.c07 import gen_file

PID = 'C28'
QUICK, THOROUGH = 3000, 22000
RULE = ('a case is a directory with the layers of one board (any subset, some of them empty, of copper, mask, silk, internal, outline and drill layers in inch or metric or mixed, with files of other kinds among '
        'them) or a list of layer files and netlists; the command line runs on it with random theme, size and output name; the pictures made, their sizes and some hundred pixels of each are '
        'compared with exact point membership in the layers of that view; non-trivial when a picture is made')
REQUIRED = {'mode:dir': 400, 'mode:files': 200, 'view:top': 250, 'view:bottom': 250, 'view:copper': 250, 'view:missing': 150, 'mixed': 80, 'outline': 150, 'drill': 250,
            'netlist': 60, 'record': 50, 'below:drill': 100, 'small_scale': 30, 'empty': 150, 'view:empty': 40, 'junk': 150, 'sizes:none': 2, 'sizes:width': 2, 'sizes:height': 2, 'pixel:painted': 15000, 'pixel:bare': 20000}
ASSUMPTIONS = c20.ASSUMPTIONS[:1] + c20.ASSUMPTIONS[2:] + [
    'one file per layer class apart from internal layers', 'netlists use the units of the first file',
    'what the copper view shows of drills without an outline layer, and which of mask and drill is on top without copper, is left open']
NAMES = dict(c20.NAMES, outline='x.gko')
COPPER = ('top', 'bottom', 'internal')


def gen(rng, i):
    mode = rng.choice(['dir', 'dir', 'files'])
    units = rng.choice(['inch', 'metric'])
    mixed = rng.random() < .2
    want = ['top', 'bottom', 'topsilk', 'bottomsilk', 'topmask', 'bottommask', 'outline', 'drill', 'internal', 'internal']
    keep = rng.choice([.25, .5, .8])
    classes = [c for c in want if rng.random() < keep]
    side = rng.random()
    if side < .12:
        classes = [c for c in classes if 'bottom' not in c and c != 'drill']
    elif side < .24:
        classes = [c for c in classes if 'top' not in c and c != 'drill']
    if not classes:
        classes = [rng.choice(want)]
    if mode == 'files':
        rng.shuffle(classes)
        classes = classes[:rng.choice([1, 2, 3])]
    layers = []
    for m, cls in enumerate(classes):
        u = units if not mixed else rng.choice(['inch', 'metric'])
        k = (1.0 if mode == 'dir' or u == 'inch' else 25.4) if u == 'metric' and mixed else 1.0
        k = 1.0 if u == 'inch' else (25.4 if mixed else 10.0 if mode == 'dir' else 1.0)
        lay = {'class': cls, 'units': u}
        if mode == 'files':
            k *= .5
        if cls == 'drill':
            lay['drill'] = c20.gen_drill(rng, u, k)
        else:
            b = 3 if u == 'inch' else 2
            lay['prog'] = gen_file(rng, n=rng.choice([1, 2, 4, 8]), units=u, fmt=(2 if u == 'inch' else 3, b + rng.choice([0, 1])), draws_any=False,
                                   span=max(20, int(rng.choice([.3, 1, 1]) * k * 10 ** b)))
            lay['prog']['ops'] += c20.extra(rng, lay['prog'])
            if rng.random() < .08:
                # a layer without any objects
                lay['prog']['ops'] = []
                lay['empty'] = True
        layers.append(lay)
    case = {'mode': mode, 'layers': layers, 'theme': rng.choice(c20.THEME_NAMES + [None]), 'max': rng.choice([[80, 60], [60, 100], [120, 120], [100, 100], [30, 40]]),
            'out': rng.choice(['out', 'board', 'sub/pic', 'a.b', None]), 'seed': rng.randrange(10 ** 9), 'junk': rng.random() < .4 and mode == 'dir', 'again': rng.random() < .15,
            'verbose': rng.random() < .1}
    if mode == 'dir' and i % 25 == 7:
        # sizes left open: the default ones decide
        case['given'] = rng.choice(['none', 'width', 'height'])
        case['max'] = {'none': [1920, 1080], 'width': [9999, 1080], 'height': [1920, 9999]}[case['given']]
        case['again'] = False
    elif mode == 'dir' and not mixed and units == 'metric' and rng.random() < .25:
        # boards with more millimetres than pixels
        case['max'] = rng.choice([[9, 12], [14, 11], [10, 10]])
    if mode == 'files' and rng.random() < .6:
        u = layers[0]['units']
        n = 4 if u == 'inch' else 3
        q = .4 if u == 'inch' else .5
        case['net'] = {'units': u, 'points': [[int(rng.uniform(-q, q) * 10 ** n), int(rng.uniform(-q, q) * 10 ** n), rng.choice(['A', 'GND', 'N1', 'SIGNAL', '+5V'])] for _ in range(rng.randint(1, 5))],
                       'at': rng.randint(1, len(layers))}
        for lay in layers:
            lay['units'] == u
    return case


def signature(case):
    return repr([c20.text_of(l) for l in case['layers']] + [case['mode'], case['theme'], case['max']])


def net_text(net):
    out = ['C  made by a generator', 'P  JOB x', 'P  UNITS CUST %d' % (0 if net['units'] == 'inch' else 1)]
    for n, (x, y, name) in enumerate(net['points']):
        out.append('317%-14s   %-6s%5s%s%s%s%s%s%s' % (name, 'VIA', '', ' ', 'D0200PA00', 'X%+07d' % x, 'Y%+07d' % y, 'X0500Y0000R000', ' S0'))
    return '\n'.join(out + ['999', ''])


def bounds(lay, f):
    return f.bounding_box if 'drill' in lay else f.bounds


def factor(u, v):
    return 1.0 if u == v else 25.4 if v == 'metric' else 1 / 25.4


def judge(case, mon):
    import gerber
    from gerber.__main__ import main
    from gerber.render import theme as themes
    home = os.getcwd()
    work = tempfile.mkdtemp(dir=home)
    try:
        os.chdir(work)
        os.mkdir('board')
        os.mkdir('sub')
        files, names = [], []
        for n, lay in enumerate(case['layers']):
            name = NAMES[lay['class']]
            if '%d' in name:
                name = name % (1 + sum(1 for l in case['layers'][:n] if l['class'] == 'internal'))
            f = gerber.loads(c20.text_of(lay), name)
            if lay.get('empty'):
                mon.count('empty')
            if bool(len(f.primitives)) == bool(lay.get('empty')):
                return
            require(f.units == lay['units'], 'units', 'a layer in %s is read as %s' % (lay['units'], f.units))
            with open('board/' + name, 'w') as fp:
                fp.write(c20.text_of(lay))
            files.append(f)
            names.append('board/' + name)
        if case['junk']:
            mon.count('junk')
            for name, data in (('readme.txt', 'made by hand\n'), ('x.png', 'PNG\x00\x01'), ('.hidden.gtl', '%FSLAX24Y24*%\n'), ('notes', '')):
                with open('board/' + name, 'w') as fp:
                    fp.write(data)
            os.mkdir('board/more.gtl')
        run(case, files, names, mon, main, themes)
    finally:
        os.chdir(home)
        shutil.rmtree(work)


def call(main, args):
    """Runs the command line in this process."""
    old, out = sys.argv, sys.stdout
    sys.argv = ['gerber-render'] + args
    try:
        with open(os.devnull, 'w') as null:
            sys.stdout = null
            main()
    except SystemExit as e:
        raise Violation('exit', 'the command line ends with %r for %r' % (e.code, args))
    finally:
        sys.argv, sys.stdout = old, out


def look(theme, cls):
    from gerber.render import RenderSettings
    if cls == 'internal':
        return [None, 1, False, False]
    s = theme.get(cls)
    if s is None:
        s = RenderSettings()
    return [s.color, s.alpha, s.invert, s.mirror]


def run(case, files, names, mon, main, themes):
    layers = case['layers']
    opts = []
    if case['out']:
        opts += [rnd(case).choice(['-o', '--outfile']), case['out']]
    if case['theme']:
        opts += ['-t', case['theme']]
    if case['verbose']:
        opts.append('-v')
    given = case.get('given')
    for k, n in enumerate(('width', 'height')):
        if given in (None, n):
            opts += ['--' + n, str(case['max'][k])]
    theme = themes.THEMES[case['theme'] or 'default']
    stem = case['out'] or 'out'
    mon.count('mode:' + case['mode'])
    mon.seen('theme', case['theme'])
    units = set(l['units'] for l in layers)
    by = {}
    for n, l in enumerate(layers):
        by.setdefault(l['class'], []).append(n)
    one = lambda c: by.get(c, [])[:1]
    views = {}
    if case['mode'] == 'dir':
        drill, outline = one('drill'), one('outline')
        for side in ('top', 'bottom'):
            board = one(side) + one(side + 'mask') + one(side + 'silk')
            order = board[:1] + drill + board[1:]
            if outline or order:
                views[side] = {'order': outline + order, 'mirror': side == 'bottom', 'theme': theme, 'open': drill if not one(side) and board else []}
        copper = one('bottom') + by.get('internal', []) + one('top')
        # (without copper the view may be left out)
        if copper or outline:
            views['copper'] = {'order': outline + copper + (drill if outline else []), 'mirror': False, 'theme': themes.THEMES['Transparent Multilayer'], 'open': drill if not outline else []}
    else:
        views[None] = {'order': list(range(len(layers))), 'mirror': None, 'theme': theme, 'open': []}
    # views of which nothing is known but layers without objects are left out
    for side in list(views):
        if all(layers[n].get('empty') for n in views[side]['order']):
            mon.count('view:empty')
            del views[side]
    # what each view covers, in either unit
    for v in views.values():
        boxes = []
        extent = [n for n in v['order'] if not layers[n].get('empty')]
        for n in extent if case['mode'] == 'dir' else extent[:1]:
            k = factor(layers[n]['units'], 'inch')
            boxes.append([[c * k for c in axis] for axis in bounds(layers[n], files[n])])
        v['box'] = [[min(b[a][0] for b in boxes), max(b[a][1] for b in boxes)] for a in (0, 1)]
        v['w'], v['h'] = [a[1] - a[0] for a in v['box']]
        if min(v['w'], v['h']) < 1e-6:
            return
        v['scales'] = {}
        for u in ('inch', 'metric'):
            k = factor('inch', u)
            s = 300. if case['mode'] == 'files' else min(case['max'][0] / (v['w'] * k), case['max'][1] / (v['h'] * k))
            if case['mode'] == 'dir' and s > 1:
                s = math.floor(s)
            v['scales'][u] = s * k
        if case['mode'] == 'files':
            u = layers[extent[0]]['units']
            v['scales'] = {u: v['scales'][u]}
        elif len(units) == 1:
            u = next(iter(units))
            mon.count('small_scale', v['scales'][u] / factor('inch', u) <= 1)
            v['scales'] = {u: v['scales'][u]}
        if any(min(v['w'], v['h']) * s < 2 or max(v['w'], v['h']) * s > (4000 if given else 700) for s in v['scales'].values()):
            return
    net = case.get('net')
    args = ['board'] if case['mode'] == 'dir' else list(names)
    if net:
        with open('board/x.ipc', 'w') as fp:
            fp.write(net_text(net))
        args.insert(net['at'], 'board/x.ipc')
        mon.count('netlist')
    before = snapshot()
    call(main, args + opts)
    mon.count('sizes:' + (given or 'both'))
    made = snapshot()
    expect = set('%s%s.png' % (stem, '.' + v if v else '') for v in views)
    got = set(made) - set(before)
    require(got == expect, 'pictures', lambda: 'made %r instead of %r from %r' % (sorted(got), sorted(expect), sorted(l['class'] for l in layers)))
    require(all(made[f] == before[f] for f in before), 'inputs', 'an input file was changed')
    mon.count('view:missing', 3 - len(views) if case['mode'] == 'dir' else 0)
    mon.count('mixed', len(units) > 1)
    for name, v in views.items():
        png = made['%s%s.png' % (stem, '.' + name if name else '')]
        if name:
            mon.count('view:' + name)
        # (in which unit a mixed view is scaled to a whole number is open)
        scales = sorted(v['scales'].items(), key=lambda us: us[0] != layers[v['order'][0]]['units'])
        wrong = None
        for u, s in scales:
            try:
                judge_view(case, name, dict(v, scales={u: s}), files, png, mon)
                break
            except Violation as e:
                wrong = wrong or e
        else:
            raise wrong
    # (internal layers of later calls in one process get other colours)
    if case['again'] and (case['mode'] == 'dir' or 'internal' not in by):
        call(main, args + opts)
        now = snapshot()
        require(all(now[f] == made[f] for f in expect), 'again', 'the pictures differ when they are made again')


def rnd(case):
    return random.Random(case['seed'])


def snapshot():
    out = {}
    for d, _, fs in os.walk('.'):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fp:
                out[os.path.relpath(p, '.')] = fp.read()
    return out


def judge_view(case, name, v, files, png, mon):
    layers = case['layers']
    pw, ph, at = c20.pixels(png)
    w, h = v['w'], v['h']
    fits = [s for s in v['scales'].values() if abs(pw - w * s) < 1.01 and abs(ph - h * s) < 1.01]
    show = lambda: 'view %s (%d by %d) of\n%s' % (name, pw, ph, '\n'.join('[%s]\n%s' % (l['class'], c20.text_of(l)) for l in layers))
    require(fits, 'size', lambda: 'the picture covers %r inch by %r inch at %r pixels per inch: %s' % (w, h, v['scales'], show()))
    scale = fits[0]
    margin = 1.6 / scale
    box = v['box']
    items = []
    for n in v['order']:
        l = layers[n]
        mon.count('outline', l['class'] == 'outline')
        mon.count('drill', l['class'] == 'drill')
        mon.count('below:drill', l['class'] == 'drill' and v['mirror'] is True)
        k = factor('inch', l['units'])
        c, a, inv, mir = look(v['theme'], l['class'])
        if v['mirror'] is not None:
            mir = v['mirror']
        items.append((c, a, inv, mir, c20.shapes(l, margin * k, mon), k, n in v['open']))
    hidden = [(c20.shapes(layers[n], margin * factor('inch', layers[n]['units']), mon), factor('inch', layers[n]['units'])) for n in v['open'] if n not in v['order']]
    net = case.get('net')
    red = None
    if net:
        nk = factor('inch', net['units'])
        q = 10. ** (4 if net['units'] == 'inch' else 3)
        red = [(x / q / nk, y / q / nk, len(t)) for x, y, t in net['points']]
        r = .0075 / nk

        def record(p):
            best = 'clear'
            for x, y, n in red:
                d = math.hypot(p[0] - x, p[1] - y)
                if d < r - 1.3 / scale:
                    return 'dark'
                tx, ty = x + .015 / nk, y + .015 / nk
                if d < r + margin or (tx - 3 / scale < p[0] < tx + (9 * n + 6) / scale and ty - 6 / scale < p[1] < ty + 16 / scale):
                    best = 'unsure'
            return best
        s = v['theme'].get('ipc_netlist')
        items.insert(net['at'], (s.color, s.alpha, s.invert, s.mirror, record, 1.0, False))
    bgs = [v['theme'].background.color]
    if case['mode'] == 'files':
        from gerber.render import theme as themes
        bgs.append(themes.THEMES['default'].background.color)
    rng = rnd(case)
    spots = [(rng.randrange(int(w * scale)), rng.randrange(int(h * scale))) for _ in range(160)]
    if red:
        for x, y, n in red:
            px, py = int((x - box[0][0]) * scale), int(h * scale - (y - box[1][0]) * scale)
            if 0 <= px < int(w * scale) and 0 <= py < int(h * scale):
                spots.append((px, py))
    for px, py in spots:
        x, y = box[0][0] + (px + .5) / scale, box[1][0] + (h * scale - py - .5) / scale
        mx = box[0][0] + (w * scale - px - .5) / scale
        colors, sure, top, rec = list(bgs), True, False, False
        for c, a, inv, mir, image, k, undecided in items:
            p = ((mx if mir else x) * k, y * k)
            s = image(p) if callable(image) else area.paint(image, p, margin * k)
            if s == 'unsure' or (undecided and s == 'dark'):
                sure = False
                break
            top = (s == 'dark') != bool(inv)
            rec = rec or (callable(image) and top)
            if top and c is None:
                colors = None
            elif top and colors is not None:
                colors = [tuple(u * a + b * (1 - a) for u, b in zip(c, col)) for col in colors]
            elif top and a == 1:
                colors = [c]
        sure = sure and all(area.paint(image, (x * k, y * k), margin * k) == 'clear' for image, k in hidden)
        if not sure or colors is None:
            continue
        got = at(px, py)
        mon.count('pixel:painted' if top else 'pixel:bare')
        mon.count('record', rec)
        require(any(all(abs(g - 255 * b) <= 5 for g, b in zip(got, col)) for col in colors), 'pixel', lambda: 'pixel (%d, %d) at (%g, %g) inch is %r, not %r: %s' % (
            px, py, x, y, got, [tuple(int(round(255 * b)) for b in col) for col in colors], show()))
