"""C16: layer classification and board assembly do not depend on file order or location."""
import os
import shutil
from mon import gbr, exc
from mon.core import require

PID = 'C16'
QUICK, THOROUGH = 18000, 200000
RULE = ('a case is a batch of file names (known extensions and layer names of CAD systems in any case, place and suffix; unknown names), a list of layers in a random order, '
        'or a directory of files with known contents (Gerber, drill, netlist, unreadable); classes, order and views are compared with a table of naming '
        'conventions and with the stacking order; non-trivial when a known name, two layers or two files are involved')
REQUIRED = {'name:ext': 6000, 'name:word': 6000, 'name:unknown': 3000, 'sort': 2000, 'sort:internal': 300, 'dir': 1500, 'dir:layers': 5000, 'dir:junk': 1500, 'dir:binary': 100,
            'dir:moved': 1000, 'dir:internal': 400, 'view:top': 1000, 'view:bottom': 1000, 'view:none': 300, 'assembled': 1000, 'sided': 150, 'name:files': 300, 'name:directory': 500, 'single:file': 5000, 'single:text': 5000, 'single:nameless text': 5000}
ASSUMPTIONS = ['the conventions are those listed in gerber/layers.py at the pinned commit', 'names follow one convention only',
               'layers without a place of their own in the stack (drills, drawings, netlists, unknown ones) come after the stack',
               'internal layers are numbered by the number in their layer name']
TABLE = {
    'top': 'gtl cmp top|art01 top GTL layer1 soldcom comp F.Cu',
    'bottom': 'gbl sld bot sol bottom|art02 bottom bot GBL layer2 soldsold B.Cu',
    'internal': 'in gt1 gt2 gt3 gt4 gt5 gt6 g1 g2 g3 g4 g5 g6|art internal pgp pwr gnd ground gp1 gp2 gp3 gp4 gt5 gp6 In1.Cu In2.Cu In3.Cu In4.Cu '
                'group3 group4 group5 group6 group7 group8',
    'topsilk': 'gto sst plc ts skt topsilk|sst01 topsilk silk slk sst F.SilkS',
    'bottomsilk': 'gbo ssb pls bs skb bottomsilk|bsilk ssb botsilk bottomsilk B.SilkS',
    'topmask': 'gts stc tmk smt tr topmask|sm01 cmask tmask mask1 maskcom topmask mst F.Mask',
    'bottommask': 'gbs sts bmk smb br bottommask|sm bmask mask2 masksold botmask bottommask msb B.Mask',
    'toppaste': 'gtp tm toppaste|sp01 toppaste pst F.Paste',
    'bottompaste': 'gbp bm bottompaste|sp02 botpaste bottompaste psb B.Paste',
    'outline': 'gko outline|BDR border out outline Edge.Cuts',
    'ipc_netlist': 'ipc|',
    'drawing': 'fab|assembly=drawing assembly fabrication fab=drawing fab',
}
EXT, WORD = [], []
for _c in sorted(TABLE):
    _e, _w = TABLE[_c].split('|')
    EXT += [(x, _c) for x in _e.split()]
    WORD += [(x.replace('=', ' '), _c) for x in _w.split()]
STACK = ['outline', 'toppaste', 'topsilk', 'topmask', 'top', 'internal', 'bottom', 'bottommask', 'bottomsilk', 'bottompaste']
STEMS = ['board', 'my_project', 'REV2', 'x', 'widget7', 'main_v2', 'Board3']
WSTEMS = STEMS + ['a.b', 'v1-2', 'Foo.Bar-7']
XSTEMS = WSTEMS + ['my board', 'board (copy)', 'caf\xe9', 'a+b', '2024-01-02 job']
PLAIN = ['pho', 'gbr', 'ger', 'art1x', 'txt', 'gerber', 'gdo']
DIRS = ['', '/data/gerbers', 'top', '/a/top/b.gbl', 'rev12/g3', '/In2.Cu', '../x y', '/1/2/3']


def casing(rng, s):
    r = rng.random()
    return s if r < .4 else s.upper() if r < .6 else s.lower() if r < .8 else ''.join(rng.choice([c.upper(), c.lower()]) for c in s)


def known_name(rng, cls=None):
    """(name, class, kind)"""
    if rng.random() < .5:
        x, c = rng.choice([e for e in EXT if cls is None or e[1] == cls])
        return casing(rng, rng.choice(XSTEMS) + '.' + x), c, 'ext'
    ws = [e for e in WORD if cls is None or e[1] == cls]
    if not ws:
        return known_name(rng, cls)
    x, c = rng.choice(ws)
    n = rng.choice(['', '', rng.choice(WSTEMS) + rng.choice('.-'), rng.choice(WSTEMS) + rng.choice('.-')]) + x
    if rng.random() < .25:
        n += rng.choice('.-') + rng.choice(['a1', 'rev_b', 'x', ''])
    return casing(rng, n + '.' + rng.choice(PLAIN)), c, 'word'


def unknown_name(rng):
    r = rng.random()
    if r < .3:
        # one letter away from a known name in place of a dot, or glued to something
        x = rng.choice([w for w, _ in WORD if '.' in w])
        return casing(rng, rng.choice(['', 'board-']) + x.replace('.', rng.choice('xq_0')) + '.pho')
    if r < .6:
        x = rng.choice([w for w, _ in WORD if ' ' not in w])
        return casing(rng, rng.choice(['qq%s', '%sqq', 'zz_%s', '%s_zz9', 'z%sz']) % x + '.pho')
    n = ''.join(rng.choice('qxzjvw0123456789_') for _ in range(rng.randint(1, 9)))
    return n + rng.choice(['', '.' + ''.join(rng.choice('qxzjvw') for _ in range(3)), '.pho', '.gbr', '.'])


def internal_name(rng, k):
    """A name of internal layer k (1-4)."""
    return casing(rng, rng.choice(['%s.g%d', '%s.gt%d', '%s-In%d.Cu.gbr', '%s.In%d.Cu.pho', '%s-gp%d.art1x']) % (rng.choice(STEMS), k))


def gen(rng, i):
    r = i % 3
    if r == 0:
        out = []
        for _ in range(12):
            d = rng.choice(DIRS)
            if rng.random() < .75:
                n, c, kind = known_name(rng)
            else:
                n, c, kind = unknown_name(rng), 'unknown', 'unknown'
            out.append([os.path.join(d, n), c, kind])
        return {'kind': 'names', 'names': out}
    if r == 1:
        classes = [rng.choice(STACK + ['internal', 'internal', 'drill', 'drill', 'drill', 'drawing', 'ipc_netlist', 'unknown']) for _ in range(rng.choice([0, 1, 2, 4, 8, 14]))]
        k = list(range(1, 13))
        rng.shuffle(k)
        return {'kind': 'sort', 'layers': [[c, k.pop() if c == 'internal' and k else 50 + n] for n, c in enumerate(classes)], 'from_top': rng.random() < .6,
                'sides': rng.choice([None, [rng.choice([None, ['top'], ['bottom'], ['top', 'bottom'], []]) for _ in range(14)]]), 'name': rng.choice([None, 'b7'])}
    files = []
    used = set()
    numbers = [1, 2, 3, 4]
    rng.shuffle(numbers)
    for _ in range(rng.choice([0, 1, 2, 4, 8, 12])):
        q = rng.random()
        if q < .55:
            c = rng.choice([c for c in STACK if c != 'internal'] + ['drawing'])
            n = known_name(rng, c)[0].replace('\xe9', 'e').replace('\xc9', 'E')
            f = [n, c, 'gerber', 0]
        elif q < .7:
            if not numbers:
                continue
            k = numbers.pop()
            f = [internal_name(rng, k), 'internal', 'gerber', k]
        elif q < .78:
            f = [rng.choice(['holes.txt', 'board.drl', 'board.xln', 'Drill-top.gtl', 'npth.gbl', 'internal.drl']), 'drill', 'excellon', 0]
        elif q < .82:
            f = [rng.choice(['board.ipc', 'nets.txt', 'pwr.ipc', 'netlist']), 'ipc_netlist', 'netlist', 0]
        elif q < .86:
            f = [unknown_name(rng), 'unknown', 'gerber', 0]
        else:
            f = [rng.choice(['readme.txt', 'board.gtp', 'a.png', 'notes', 'empty.gbl', 'sub.gtl', '.hidden.gtl', '.DS_Store', 'Thumbs.db', 'zip.zip']), None,
                 rng.choice(['text', 'binary', 'empty', 'directory']), 0]
            if f[0] in ('.hidden.gtl', '.DS_Store', 'Thumbs.db'):
                f[2] = 'gerber'
        if f[0].lower() not in used:
            used.add(f[0].lower())
            files.append(f)
    if rng.random() < .3:
        # a board whose files share its name
        stem = casing(rng, rng.choice(STEMS))
        files = [[stem + '.' + casing(rng, x), c, 'gerber', 0] for x, c in rng.sample([e for e in EXT if e[1] not in ('internal', 'ipc_netlist')], rng.randint(1, 6))]
        files += [[stem + '.drl', 'drill', 'excellon', 0]] * rng.randint(0, 1) + [['notes.txt', None, 'text', 0]] * rng.randint(0, 1)
        files = [f for n, f in enumerate(files) if f[0].lower() not in [g[0].lower() for g in files[:n]]]
    return {'kind': 'dir', 'files': files, 'dir': rng.choice(['gerbers', 'rev9', 'top', 'In4.Cu', '7up/brd 2']), 'other': rng.choice(['x', 'v0', '88', 'g5.g6']), 'seed': rng.randint(0, 99999)}


def signature(case):
    if case['kind'] == 'names':
        return repr(case['names'])
    return repr(case) if len(case.get('layers', case.get('files'))) > 1 else None


def rank(layer):
    c = layer.layer_class
    return STACK.index(c) if c in STACK else None


def content(kind, n):
    if kind == 'gerber':
        return '%%FSLAX23Y23*%%\n%%MOIN*%%\n%%ADD10C,0.01*%%\nD10*\nX%dY0D02*\nX%dY%dD01*\nM02*\n' % (-n, n, 10 * n)
    if kind == 'excellon':
        return 'M48\nINCH,TZ\nT1C0.0%d\n%%\nT1\nX0%d000Y001000\nM30\n' % (n + 1, n)
    if kind == 'netlist':
        return 'P  JOB X\nP  UNITS CUST 0\n317%s   VIA         D  24PA00X  14900Y   1450\n999\n' % ('N%d' % n).ljust(14)
    if kind == 'text':
        return 'Some notes\nabout the board\n'
    return ''


def judge(case, mon):
    from gerber import layers
    if case['kind'] == 'names':
        for n, c, kind in case['names']:
            mon.count('name:' + kind)
            mon.seen('class', c)
            g = layers.guess_layer_class(n)
            require(g == c, 'class', lambda: '%r is %r, expected %r' % (n, g, c))
        return
    if case['kind'] == 'sort':
        ls = []
        for c, k in case['layers']:
            if c == 'internal':
                ls.append(layers.InternalLayer(filename='x', order=k))
            elif c == 'drill':
                sides = case.get('sides') and case['sides'][len(ls) % 14]
                ls.append(layers.DrillLayer(filename='x%d' % k) if sides is None else layers.DrillLayer(filename='x%d' % k, layers=list(sides)))
                got = list(ls[-1].layers)
                require(got == (['top', 'bottom'] if sides is None else sides), 'sides', lambda: 'a drill layer through %r goes through %r' % (sides, got))
            else:
                ls.append(layers.PCBLayer(filename='x%d' % k, layer_class=c))
        arg = list(ls)
        out = layers.sort_layers(arg, from_top=case['from_top'])
        mon.count('sort')
        mon.count('sort:internal', sum(1 for c, _ in case['layers'] if c == 'internal') > 1)
        require([id(x) for x in arg] == [id(x) for x in ls], 'argument-changed', 'the list given was changed')
        check_order(ls, out, case['from_top'], lambda: repr(case['layers']))
        if case['from_top']:
            from gerber.pcb import PCB
            pcb = PCB(arg, case['name'])
            mon.count('assembled')
            mon.count('sided', sum(1 for l in ls if l.layer_class == 'drill' and list(l.layers) != ['top', 'bottom']))
            require(pcb.name == case['name'] and len(pcb) == len(ls), 'count', lambda: '%r with %d layers, made of %r' % (pcb.name, len(pcb), case['layers']))
            check_order(ls, list(pcb.layers), True, lambda: repr(case['layers']))
            require([id(l) for l in pcb.layers] == [id(l) for l in out], 'order', lambda: 'a board sorts %r in another way' % (case['layers'],))
            views(pcb, None, mon, lambda: repr(case['layers']))
        return
    judge_dir(case, mon)


def check_order(given, out, from_top, what):
    names = lambda q: [(l.layer_class, getattr(l, 'order', None)) for l in q]
    require(sorted(map(id, out)) == sorted(map(id, given)), 'lost', lambda: 'layers %r, given %r' % (names(out), names(given)))
    stacked = [l for l in out if rank(l) is not None]
    require([id(l) for l in out[:len(stacked)]] == [id(l) for l in stacked], 'order', lambda: 'stack is not together: %r' % (names(out),))
    key = [(rank(l), l.order if l.layer_class == 'internal' else 0) for l in stacked]
    if not from_top:
        key = key[::-1]
    require(key == sorted(key), 'order', lambda: 'order %r from %s of %s' % (names(out), 'top' if from_top else 'bottom', what()))


def make(path, files):
    os.makedirs(path)
    for n, (name, c, kind, k) in enumerate(files):
        p = os.path.join(path, name)
        if kind == 'directory':
            os.mkdir(p)
        else:
            with open(p, 'wb') as f:
                f.write(b'\x89PNG\r\n\x1a\n\x00\xff\xfe\xfa%FS\xd8\n' * 3 if kind == 'binary' else content(kind, n + 1).encode())


def judge_dir(case, mon):
    import random
    from gerber.pcb import PCB
    files = case['files']
    want = dict((f[0], f) for f in files if f[1] is not None)
    shutil.rmtree('board', ignore_errors=True)
    shutil.rmtree('elsewhere', ignore_errors=True)
    results = []
    shuffled = list(enumerate(files))
    random.Random(case['seed']).shuffle(shuffled)
    try:
        for top, order in (('board', list(enumerate(files))), ('elsewhere', shuffled)):
            path = os.path.join(top, case['dir'] if top == 'board' else case['other'])
            os.makedirs(path)
            for n, f in order:
                sub = os.path.join(path, '.tmp')
                make(sub, [f])
                os.rename(os.path.join(sub, f[0]), os.path.join(path, f[0]))
                os.rmdir(sub)
            results.append(PCB.from_directory(os.path.abspath(path) if case['seed'] % 2 else path))
            single(results[-1], want, mon)
            stems = set(n.split('.')[0] for n in want)
            plain = all(n.count('.') == 1 for n in want)
            if len(stems) != 1 or plain:
                w = stems.pop() if len(stems) == 1 else os.path.basename(path)
                mon.count('name:files' if not stems and want else 'name:directory')
                require(results[-1].name == w, 'name', lambda: 'the board in %r is named %r, expected %r with files %r' % (path, results[-1].name, w, sorted(want)))
            if case['seed'] % 5 == 0:
                n = PCB.from_directory(path, board_name='given').name
                require(n == 'given', 'name', lambda: 'a board named given is %r' % n)
    finally:
        shutil.rmtree('board', ignore_errors=True)
        shutil.rmtree('elsewhere', ignore_errors=True)
    mon.count('dir')
    mon.count('dir:junk', sum(1 for f in files if f[1] is None))
    mon.count('dir:binary', sum(1 for f in files if f[2] == 'binary'))
    what = lambda: repr(files)
    for pcb in results:
        got = sorted((os.path.basename(l.filename), l.layer_class) for l in pcb.layers)
        require(got == sorted((n, f[1]) for n, f in want.items()), 'layers', lambda: 'layers %r of %s' % (got, what()))
        require(len(pcb) == len(want), 'count', lambda: '%d of %s' % (len(pcb), what()))
        mon.count('dir:layers', len(want))
        check_order(list(pcb.layers), list(pcb.layers), True, what)
        ins = [want[os.path.basename(l.filename)][3] for l in pcb.layers if l.layer_class == 'internal']
        mon.count('dir:internal', len(ins) > 1)
        require(ins == sorted(ins), 'internal-order', lambda: 'internal layers in order %r of %s' % (ins, what()))
        views(pcb, want, mon, what)
    a, b = [[(os.path.basename(l.filename), l.layer_class) for l in pcb.layers if want[os.path.basename(l.filename)][1] in STACK] for pcb in results]
    one = len(set(c for _, c in a if c != 'internal')) == sum(1 for _, c in a if c != 'internal')
    if one:
        mon.count('dir:moved')
        require(a == b, 'location', lambda: 'order %r here, %r in another directory of %s' % (a, b, what()))


def single(pcb, want, mon):
    """The layers of a directory, loaded one by one from the file or its text."""
    from gerber import load_layer, load_layer_data
    for l in pcb.layers:
        name, c, kind, k = want[os.path.basename(l.filename)]
        with open(l.filename) as f:
            text = f.read()
        for how, one in (('file', load_layer(l.filename)), ('text', load_layer_data(text, l.filename)), ('nameless text', load_layer_data(text))):
            mon.count('single:' + how)
            named = how != 'nameless text'
            w = c if named or kind != 'gerber' else 'unknown'
            require(one.layer_class == w, 'single-class', lambda: '%r loaded from its %s is %r, expected %r' % (name, how, one.layer_class, w))
            if named:
                require(one.filename == l.filename, 'single-name', lambda: '%r loaded from its %s has the name %r' % (l.filename, how, one.filename))
                if c == 'internal':
                    require(one.order == l.order == k, 'single-order', lambda: '%r loaded from its %s is internal layer %r, %r on the board, expected %d' % (name, how, one.order, l.order, k))
            if kind != 'netlist':
                a, b = one.bounds, l.bounds
                require(a == b and len(one.primitives) == len(l.primitives) == 1, 'single-content', lambda: '%r loaded from its %s has bounds %r, %r on the board, and %d objects' % (name, how, a, b, len(one.primitives)))


def views(pcb, want, mon, what):
    cls = lambda ls: [l.layer_class for l in ls]
    base = cls(pcb.layers)
    n = lambda *c: sum(1 for x in base if x in c)
    for side, view in (('top', pcb.top_layers), ('bottom', pcb.bottom_layers)):
        mine = (side, side + 'mask', side + 'silk')
        mon.count('view:' + side, n(*mine) > 0)
        mon.count('view:none', n(*mine) == 0)
        require(sorted(map(id, view)) == sorted(id(l) for l in pcb.layers if l.layer_class in mine or l.layer_class == 'drill' and side in l.layers), 'view', lambda: '%s view %r of %r' % (side, cls(view), base))
        v = [c for c in cls(view) if c != 'drill']
        require(v == sorted(v, key=mine.index), 'view-order', lambda: '%s view %r' % (side, cls(view)))
        drills = cls(view).count('drill')
        if n(side) == 1 and drills:
            require(cls(view)[1:1 + drills] == ['drill'] * drills and cls(view)[0] == side, 'view-order', lambda: 'drills are not on the copper: %s view %r' % (side, cls(view)))
    require([id(l) for l in pcb.drill_layers] == [id(l) for l in pcb.layers if l.layer_class == 'drill'], 'view', lambda: 'drill view')
    cop = pcb.copper_layers
    require([id(l) for l in cop][::-1] == [id(l) for l in pcb.layers if l.layer_class in ('top', 'internal', 'bottom')], 'view', lambda: 'copper view %r of %r' % (cls(cop), base))
    require(pcb.layer_count == n('top', 'internal', 'bottom'), 'count', lambda: 'copper count %r of %r' % (pcb.layer_count, base))
    o = pcb.outline_layer
    require((o is None) == (n('outline') == 0) and (o is None or o.layer_class == 'outline'), 'view', lambda: 'outline %r of %r' % (o, base))
    if pcb.layers and pcb.layers[0].cam_source is None:
        return
    if n('outline') == 1 or (n('outline') == 0 and n('top') == 1):
        src = o or [l for l in pcb.layers if l.layer_class == 'top'][0]
        w = src.cam_source.bounds
        require(pcb.board_bounds == w and w is not None, 'bounds', lambda: '%r, expected %r' % (pcb.board_bounds, w))
