"""C34: objects and statements keep possible values and refuse impossible ones."""
import os
import tempfile
from mon.core import require

PID = 'C34'
QUICK, THOROUGH = 60000, 600000
RULE = ('a case makes one object or statement from named arguments or from the line of a file, either all possible or with exactly one made impossible; possible ones have to be kept as given and written '
        'as given, impossible ones have to be refused with a type or value error; non-trivial when at least one argument is given')
ASSUMPTIONS = ['positions are pairs of plain numbers; exposures and modes may be given in capital or small letters', 'only the kinds of impossible values the documentation of an argument rules out are tried']

BAD_POS = [[1], [1, 2, 3], [], ['1', 2], [1, '2'], [1, None], [None, 2.5], 'xy', [[1, 2], 3], [1, [2, 3]], ['', ''], [1.5, 'y']]
CODES = [0, 1, 2, 4, 5, 6, 7, 20, 21, 22]
BAD_CODES = [3, 8, 9, 10, 19, 23, -1, 100, 11, 40]
SHAPES = ['round', 'square', 'hexagon', 'octagon']


def num(rng):
    return rng.choice([rng.randint(-20, 20), round(rng.uniform(-10, 10), 4), 0, 0.5])


def size(rng):
    return rng.choice([rng.randint(1, 20), round(rng.uniform(.01, 5), 4)])


def pos(rng):
    return [num(rng), num(rng)]


def cased(rng, w):
    return rng.choice([w, w, w.upper(), w.capitalize()])


def exposure(rng):
    return cased(rng, rng.choice(['on', 'off']))


# kind -> [(argument, sort)]
PRIMS = {
    'Circle': [('position', 'pos'), ('diameter', 'size')],
    'Ellipse': [('position', 'pos'), ('width', 'size'), ('height', 'size')],
    'Rectangle': [('position', 'pos'), ('width', 'size'), ('height', 'size')],
    'Diamond': [('position', 'pos'), ('width', 'size'), ('height', 'size')],
    'Obround': [('position', 'pos'), ('width', 'size'), ('height', 'size')],
    'ChamferRectangle': [('position', 'pos'), ('width', 'size'), ('height', 'size'), ('chamfer', 'size')],
    'RoundRectangle': [('position', 'pos'), ('width', 'size'), ('height', 'size'), ('radius', 'size'), ('corners', 'corners')],
    'Polygon': [('position', 'pos'), ('sides', 'sides'), ('radius', 'size')],
    'RoundButterfly': [('position', 'pos'), ('diameter', 'size')],
    'SquareButterfly': [('position', 'pos'), ('side', 'size')],
    'Donut': [('position', 'pos'), ('shape', 'shape'), ('inner_diameter', 'inner'), ('outer_diameter', 'size')],
    'SquareRoundDonut': [('position', 'pos'), ('inner_diameter', 'inner'), ('outer_diameter', 'size')],
    'Drill': [('position', 'pos'), ('diameter', 'size')],
    'Slot': [('start', 'pos'), ('end', 'pos'), ('diameter', 'size')],
    'TestRecord': [('position', 'pos'), ('net_name', 'text'), ('layer', 'text')],
}
MACROS = {
    'AMCommentPrimitive': ([0], [('comment', 'text')]),
    'AMCirclePrimitive': ([1], [('exposure', 'exposure'), ('diameter', 'size'), ('position', 'pos')]),
    'AMVectorLinePrimitive': ([2, 20], [('exposure', 'exposure'), ('width', 'size'), ('start', 'pos'), ('end', 'pos'), ('rotation', 'num')]),
    'AMOutlinePrimitive': ([4], [('exposure', 'exposure'), ('start_point', 'first'), ('points', 'points'), ('rotation', 'num')]),
    'AMPolygonPrimitive': ([5], [('exposure', 'exposure'), ('vertices', 'vertices'), ('position', 'pos'), ('diameter', 'size'), ('rotation', 'num')]),
    'AMMoirePrimitive': ([6], [('position', 'pos'), ('diameter', 'size'), ('ring_thickness', 'size'), ('gap', 'size'), ('max_rings', 'sides'), ('crosshair_thickness', 'size'), ('crosshair_length', 'size'), ('rotation', 'num')]),
    'AMThermalPrimitive': ([7], [('position', 'pos'), ('outer_diameter', 'size'), ('inner_diameter', 'inner'), ('gap', 'size'), ('rotation', 'num')]),
    'AMCenterLinePrimitive': ([21], [('exposure', 'exposure'), ('width', 'size'), ('height', 'size'), ('center', 'pos'), ('rotation', 'num')]),
    'AMLowerLeftLinePrimitive': ([22], [('exposure', 'exposure'), ('width', 'size'), ('height', 'size'), ('lower_left', 'pos'), ('rotation', 'num')]),
}
# kind -> (module, argument, {value: written}, impossible values, letter case is free)
MODES = {
    'IncrementalModeStmt': ('excellon_statements', 'mode', {'on': 'ICI,ON', 'off': 'ICI,OFF'}, ['', 'onn', 'o', 'of', 'off-ish', 'yes', 'ici'], True),
    'VersionStmt': ('excellon_statements', 'version', {1: 'VER,1', 2: 'VER,2', '1': 'VER,1', '2': 'VER,2'}, [0, 3, -1, 12, '3', 'x', '', 21, '0'], False),
    'FormatStmt': ('excellon_statements', 'format', {1: 'FMAT,1', 2: 'FMAT,2', '1': 'FMAT,1', '2': 'FMAT,2'}, [0, 3, -1, 12, '3', 'x', '', 21, '0'], False),
    'MeasuringModeStmt': ('excellon_statements', 'units', {'inch': 'M72', 'metric': 'M71'}, ['', 'mm', 'in', 'inches', 'metr', 'M71'], True),
    'QuadrantModeStmt': ('gerber_statements', 'mode', {'single-quadrant': 'G74*', 'multi-quadrant': 'G75*'}, ['', 'single', 'multi', 'quadrant', 'single quadrant', 'G74'], True),
    'RegionModeStmt': ('gerber_statements', 'mode', {'on': 'G36*', 'off': 'G37*'}, ['', 'onn', 'o', 'of', 'G36', 'region'], True),
}
# (module, class, needs settings, lines of that kind, lines of another kind)
LINES = [
    ('ipc356', 'IPC356_Comment', False, ['C  a comment', 'C', 'C  P'], ['P  UNITS CUST 0', '  C comment', '327NET', '999', 'c  comment']),
    ('ipc356', 'IPC356_Parameter', False, ['P  UNITS CUST 0', 'P  JOB X', 'P  C'], ['C  comment', 'Q  UNITS CUST 0', '  P UNITS', '999', 'p  UNITS CUST 0']),
    ('ipc356', 'IPC356_TestRecord', True, ['327NET              U1    -1          A01X+001000Y+010000X0600Y0000R000 S0'], ['C  comment', 'P  JOB X', '999', '227NET              U1    -1          A01X+001000Y+010000X0600Y0000R000 S0']),
    ('ipc356', 'IPC356_Conductor', True, ['378NET            L01 X0100 X1000Y2000 X1500'], ['379NET            NET2', '389NET            L01 X0100 X1000Y2000', '377NET            L01 X0100 X1000Y2000', '327NET', 'C 378', '999']),
    ('ipc356', 'IPC356_Adjacency', False, ['379NET NET2 NET3', '379A B'], ['378NET            L01 X0100 X1000Y2000', '389NET NET2', '369NET NET2', '999', 'C 379']),
    ('excellon_statements', 'MeasuringModeStmt', False, ['M71', 'M72'], ['M70', 'M7', 'INCH', 'M95', '', 'M17', 'M30']),
    ('gerber_statements', 'QuadrantModeStmt', False, ['G74*', 'G75*', 'G74', 'G75'], ['G7', 'G36*', 'G70*', 'G76*', '', 'D75*', 'M02*']),
    ('gerber_statements', 'RegionModeStmt', False, ['G36*', 'G37*', 'G36', 'G37'], ['G3', 'G74*', 'G38*', 'G35*', '', 'D36*', 'M02*']),
]
REQUIRED = {'kept': 8000, 'refused': 8000, 'bad:pos': 2500, 'bad:code': 1500, 'bad:exposure': 600, 'bad:open': 300, 'bad:vertices': 150, 'bad:shape': 100, 'bad:inner': 150, 'bad:mode': 1500,
            'bad:line': 1500, 'line': 1500, 'element_line': 1500, 'bad:element': 700, 'linked': 600, 'outline:open': 300, 'outline:closed': 300}


def draw(rng, sort, args):
    if sort == 'pos':
        return pos(rng)
    if sort == 'num':
        return rng.choice([0, 90, 45, -30, 12.5, 360])
    if sort in ('size', 'inner'):
        return size(rng)
    if sort in ('sides',):
        return rng.randint(3, 12)
    if sort == 'vertices':
        return rng.choice([3, 12, rng.randint(3, 12)])
    if sort == 'shape':
        return rng.choice(SHAPES)
    if sort == 'text':
        return rng.choice(['net', 'N1', 'top', 'a word'])
    if sort == 'corners':
        return [rng.random() < .5 for _ in range(4)]
    if sort == 'exposure':
        return exposure(rng)
    if sort == 'first':
        return pos(rng)
    if sort == 'points':
        return [pos(rng) for _ in range(rng.randint(2, 6))] + [list(args['start_point'])]
    raise KeyError(sort)


def fill(rng, fields):
    args = {}
    for name, sort in fields:
        args[name] = draw(rng, sort, args)
    sorts = dict((s, n) for n, s in fields)
    if 'inner' in sorts:
        # (half of these are as close as can be)
        o = args['outer_diameter']
        args[sorts['inner']] = o - .0001 if rng.random() < .5 and o > .01 else o / 2.
    return args


def spoil(rng, fields, args, more=()):
    """Makes one of the arguments impossible and names what is wrong with it."""
    choices = [(n, s) for n, s in fields if s in ('pos', 'exposure', 'vertices', 'shape', 'first', 'points') or s == 'inner' and 'outer_diameter' in args and 'gap' not in args] + list(more)
    if not choices:
        return None
    n, s = rng.choice(choices)
    if s == 'pos':
        args[n] = rng.choice(BAD_POS)
        return 'pos'
    if s == 'exposure':
        args[n] = rng.choice(['', 'onn', 'o', 'of', 'offf', 'dark', 'on ', 'yes', '1'])
        return s
    if s == 'vertices':
        args[n] = rng.choice([2, 13, 1, 0, -3, 100, 14])
        return s
    if s == 'shape':
        args[n] = rng.choice(['', 'circle', 'ROUND', 'squar', 'triangle', 'diamond', 'hex'])
        return s
    if s == 'inner':
        args[n] = args['outer_diameter'] + rng.choice([0, .0001, 1])
        return s
    if s == 'first':
        if rng.random() < .5:
            args[n] = rng.choice(BAD_POS)
            args['points'][-1] = args[n]
            return 'pos'
        args[n][rng.randrange(2)] += rng.choice([.001, -1, 5])
        return 'open'
    if s == 'points':
        if rng.random() < .5:
            k = rng.randrange(len(args[n]) - 1)
            args[n][k] = rng.choice(BAD_POS)
            return 'pos'
        args[n][-1][rng.randrange(2)] += rng.choice([.001, -1, 5])
        return 'open'
    if s == 'code':
        args['code'] = rng.choice([c for c in CODES if c not in more_codes(fields)] + BAD_CODES)
        return s
    raise KeyError(s)


def more_codes(fields):
    return [c for codes, f in MACROS.values() if f is fields for c in codes]


def gen(rng, i):
    k = i % 8
    bad = rng.random() < .5
    if k in (0, 1):
        kind = rng.choice(sorted(PRIMS))
        args = fill(rng, PRIMS[kind])
        what = spoil(rng, PRIMS[kind], args) if bad else None
        return {'kind': 'prim', 'cls': kind, 'args': args, 'bad': what}
    if k in (2, 3):
        kind = rng.choice(sorted(MACROS))
        codes, fields = MACROS[kind]
        args = fill(rng, fields)
        args['code'] = rng.choice(codes)
        what = spoil(rng, fields, args, [('code', 'code')]) if bad else None
        return {'kind': 'macro', 'cls': kind, 'args': args, 'bad': what}
    if k == 4:
        kind = rng.choice(sorted(MODES))
        mod, arg, good, wrong, free = MODES[kind]
        v = rng.choice(wrong) if bad else rng.choice(sorted(good, key=str))
        return {'kind': 'mode', 'cls': kind, 'value': v, 'given': cased(rng, v) if free else v, 'bad': 'mode' if bad else None, 'default': rng.random() < .1}
    if k == 5:
        j = rng.randrange(len(LINES))
        return {'kind': 'line', 'n': j, 'line': rng.choice(LINES[j][4 if bad else 3]), 'bad': 'line' if bad else None, 'settings': rng.choice(['inch', 'metric'])}
    if k == 6:
        kind = rng.choice(sorted(c for c in MACROS if c != 'AMCommentPrimitive'))
        codes, fields = MACROS[kind]
        args = fill(rng, fields)
        args['code'] = rng.choice(codes)
        what = None
        if bad:
            more = [('code', 'code')] * 2
            if kind == 'AMPolygonPrimitive':
                more.append(('vertices', 'vertices'))
            if kind == 'AMOutlinePrimitive':
                more.append(('points', 'open'))
            n, s = rng.choice(more)
            if s == 'open':
                args['points'][-1][rng.randrange(2)] += rng.choice([.001, -1, 5])
                what = 'open'
            else:
                what = spoil(rng, [(n, s)] if s == 'vertices' else fields, args, []) if s == 'vertices' else s
                if s == 'code':
                    args['code'] = rng.choice([c for c in CODES if c not in codes] + BAD_CODES)
        return {'kind': 'element', 'cls': kind, 'args': args, 'bad': what}
    r = rng.random()
    if r < .35:
        return {'kind': 'linked', 'tools': [rng.randint(1, 99) for _ in range(rng.randint(1, 5))], 'text': bad}
    if r < .8:
        pts = [pos(rng) for _ in range(rng.randint(3, 6))]
        return {'kind': 'outline', 'pts': pts, 'shift': [0, 0] if not bad else rng.choice([[.001, 0], [0, -.001], [2, 0], [0, 3], [1, 1]]), 'arc': rng.random() < .4}
    return {'kind': 'place', 'what': rng.choice(['file', 'missing', 'nothing', 'unit_line', 'units'])}


def signature(case):
    return repr(case)


def refused(f, what, mon, bad, kinds=(TypeError, ValueError)):
    try:
        got = f()
    except kinds:
        mon.count('refused')
        mon.count('bad:' + bad)
        return
    except Exception as e:
        require(False, 'refused_how', '%s failed with %r instead of being refused' % (what, e))
    require(False, 'accepted:' + bad, '%s was accepted as %r' % (what, got))


def tup(v):
    return tuple(tup(x) for x in v) if isinstance(v, (list, tuple)) else v


def judge(case, mon):
    globals()['judge_' + case['kind']](case, mon)


def shown(case):
    return '%s(%s)' % (case['cls'], ', '.join('%s=%r' % (k, tup(v)) for k, v in sorted(case['args'].items())))


def judge_prim(case, mon):
    from gerber import primitives
    cls = getattr(primitives, case['cls'])
    args = dict((k, tup(v)) for k, v in case['args'].items())
    mon.seen('kinds', case['cls'])
    if case['bad']:
        return refused(lambda: cls(**args), shown(case), mon, case['bad'])
    try:
        p = cls(**args)
    except Exception as e:
        require(False, 'not_kept', '%s was refused: %r' % (shown(case), e))
    kept(p, args, shown(case), mon)


def kept(p, args, what, mon):
    mon.count('kept')
    for k, v in sorted(args.items()):
        got = getattr(p, k)
        want = v
        if k == 'exposure':
            want = v.lower()
        if k in ('points', 'corners') or isinstance(v, tuple):
            got = tup(got)
        require(got == want, 'kept_' + k, lambda: '%s of %s is %r' % (k, what, got))


def judge_macro(case, mon):
    from gerber import am_statements
    cls = getattr(am_statements, case['cls'])
    args = dict((k, tup(v) if k != 'points' else [tup(q) for q in v]) for k, v in case['args'].items())
    mon.seen('kinds', case['cls'])
    if case['bad']:
        return refused(lambda: cls(**args), shown(case), mon, case['bad'])
    try:
        p = cls(**args)
    except Exception as e:
        require(False, 'not_kept', '%s was refused: %r' % (shown(case), e))
    if 'points' in args:
        args['points'] = tup(args['points'])
    kept(p, args, shown(case), mon)


def judge_mode(case, mon):
    import importlib
    mod, arg, good, wrong, free = MODES[case['cls']]
    cls = getattr(importlib.import_module('gerber.' + mod), case['cls'])
    given = case['given']
    what = '%s(%r)' % (case['cls'], given)
    if case['bad']:
        return refused(lambda: cls(given), what, mon, 'mode')
    try:
        s = cls(given) if not case['default'] else cls(**{arg: given})
    except Exception as e:
        require(False, 'not_kept', '%s was refused: %r' % (what, e))
    mon.count('kept')
    want = good[case['value']]
    require(written(s) == want, 'written', lambda: '%s is written %r, not %r' % (what, written(s), want))
    got = getattr(s, arg)
    if free:
        require(got == case['value'], 'mode', lambda: '%s has %s %r' % (what, arg, got))
    else:
        require(got == int(case['value']), 'mode', lambda: '%s has %s %r' % (what, arg, got))
    if case['cls'] == 'FormatStmt':
        require(tuple(s.format_tuple) == {1: (1, 5), 2: (2, 4)}[got], 'format_tuple', lambda: '%s stands for the format %r' % (what, s.format_tuple))
    # and read back
    back = (cls.from_excellon if hasattr(cls, 'from_excellon') else cls.from_gerber)(want)
    require(getattr(back, arg) == got and written(back) == want, 'back', lambda: '%s is read from %r as %r' % (what, want, getattr(back, arg)))


def written(s):
    from gerber.cam import FileSettings
    return s.to_excellon(FileSettings()) if hasattr(s, 'to_excellon') else s.to_gerber(FileSettings())


def judge_line(case, mon):
    import importlib
    from gerber.cam import FileSettings
    mod, name, settings, good, wrong = LINES[case['n']]
    cls = getattr(importlib.import_module('gerber.' + mod), name)
    read = getattr(cls, {'ipc356': 'from_line', 'excellon_statements': 'from_excellon', 'gerber_statements': 'from_gerber'}[mod])
    args = [case['line']] + ([FileSettings(units=case['settings'])] if settings else [])
    what = '%s of the line %r' % (name, case['line'])
    if case['bad']:
        return refused(lambda: read(*args), what, mon, 'line')
    mon.count('line')
    try:
        s = read(*args)
    except Exception as e:
        require(False, 'line_refused', '%s was refused: %r' % (what, e))
    require(isinstance(s, cls), 'line_kind', lambda: '%s is %r' % (what, s))
    if mod != 'ipc356':
        require(written(s).rstrip('*') == case['line'].rstrip('*'), 'line_written', lambda: '%s is written as %r' % (what, written(s)))


def judge_element(case, mon):
    """The text of a macro element."""
    from gerber import am_statements
    cls = getattr(am_statements, case['cls'])
    fields = MACROS[case['cls']][1]
    a = case['args']
    words = [a['code']]
    for name, sort in fields:
        v = a[name]
        if sort == 'exposure':
            words.append(1 if v.lower() == 'on' else 0)
        elif sort in ('pos', 'first'):
            words += v
        elif sort == 'points':
            words += [x for q in v for x in q]
            words.insert(2, len(v))
        else:
            words.append(v)
    line = ','.join(str(w) for w in words) + '*'
    what = '%s of the element %r' % (case['cls'], line)
    mon.count('element_line')
    if case['bad']:
        refused(lambda: cls.from_gerber(line), what, mon, case['bad'])
        mon.count('bad:element')
        return
    try:
        p = cls.from_gerber(line)
    except Exception as e:
        require(False, 'element_refused', '%s was refused: %r' % (what, e))
    args = dict((k, tup(v)) for k, v in a.items())
    kept(p, args, what, mon)


def judge_linked(case, mon):
    from gerber.excellon_statements import LinkToolStmt
    line = '/'.join(str(t) for t in case['tools'])
    s = LinkToolStmt([str(t) for t in case['tools']] if case['text'] else case['tools'])
    mon.count('linked')
    for q in (s, LinkToolStmt.from_excellon(line), LinkToolStmt.from_excellon('/'.join('%02d' % t for t in case['tools']))):
        require(list(q.linked_tools) == case['tools'] and q.to_excellon() == line, 'linked', lambda: 'linked tools %s became %r, written %r' % (line, q.linked_tools, q.to_excellon()))
    s.linked_tools.append(100)
    require(len(case['tools']) + 1 == len(s.linked_tools), 'linked', 'linked tools not the own ones of the statement')


def judge_outline(case, mon):
    from gerber.primitives import Outline, Line, Arc, Circle
    pts = [tuple(p) for p in case['pts']]
    ap = Circle((0, 0), .01)
    end = (pts[0][0] + case['shift'][0], pts[0][1] + case['shift'][1])
    ring = [Line(a, b, ap) for a, b in zip(pts, pts[1:])]
    a = pts[-1]
    if case['arc']:
        c = ((a[0] + end[0]) / 2., (a[1] + end[1]) / 2.)
        ring.append(Arc(a, end, c, 'clockwise', ap, 'multi-quadrant'))
    else:
        ring.append(Line(a, end, ap))
    what = 'an outline through %r back to %r' % (pts, end)
    if end != pts[0]:
        refused(lambda: Outline(ring), what, mon, 'open')
        mon.count('outline:open')
        return
    mon.count('outline:closed')
    try:
        o = Outline(ring)
    except Exception as e:
        require(False, 'outline_refused', '%s was refused: %r' % (what, e))
    require(list(o.primitives) == ring, 'outline_kept', lambda: '%s has %r' % (what, o.primitives))


def judge_place(case, mon):
    from gerber import pcb, excellon
    from gerber.gerber_statements import MOParamStmt
    what = case['what']
    if what in ('file', 'missing'):
        d = tempfile.mkdtemp()
        path = os.path.join(d, 'x.gbr')
        try:
            if what == 'file':
                open(path, 'w').close()
            refused(lambda: pcb.PCB.from_directory(path), 'a board from a %s' % what, mon, 'place')
        finally:
            if os.path.exists(path):
                os.remove(path)
            os.rmdir(d)
    elif what == 'nothing':
        refused(lambda: excellon.detect_excellon_format(), 'the drill format of nothing', mon, 'place')
    elif what == 'unit_line':
        for w in ('', 'inch', 'metric', 'MI', 'CM', 'I', 'M'):
            refused(lambda: MOParamStmt.from_dict({'param': 'MO', 'mo': w}), 'units %r' % w, mon, 'place')
    else:
        for w, u in (('in', 'inch'), ('IN', 'inch'), ('mm', 'metric'), ('MM', 'metric'), ('In', 'inch')):
            s = MOParamStmt.from_dict({'param': 'MO', 'mo': w})
            require(s.mode == u and s.to_gerber() == '%MO' + {'inch': 'IN', 'metric': 'MM'}[u] + '*%', 'units', lambda: 'units %r read as %r, written %r' % (w, s.mode, s.to_gerber()))
