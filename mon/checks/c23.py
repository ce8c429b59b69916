"""C23: statements survive being written and read back one by one."""
from mon import gbr, macros, snap
from mon.core import require

PID = 'C23'
QUICK, THOROUGH = 50000, 800000
RULE = ('a case is one statement text of a random kind with random fields, read under one coordinate format and zero mode, checked against the fields it was made from, written under another '
        'sufficient format and zero mode, read back and compared field by field, and written again; non-trivial always (each text is distinct)')
KINDS = {'gerber': ['FS', 'MO', 'LP', 'AD:C', 'AD:R', 'AD:O', 'AD:P', 'AD:macro', 'AM', 'AS', 'IN', 'IP', 'IR', 'MI', 'OF', 'SF', 'LN', 'G70', 'G90', 'coord', 'coord', 'coord', 'aperture', 'comment',
                    'region', 'quadrant', 'eof', 'unknown', 'attribute'],
         'drill': ['tool', 'tool', 'select', 'feed', 'coord', 'coord', 'rout', 'repeat', 'slot', 'comment', 'M48', 'M95', '%', 'M15', 'M16', 'M17', 'G40', 'G41', 'G42', 'G90', 'G05', 'M30', 'unit', 'ICI',
                   'VER', 'FMAT', 'M71', 'unknown']}
REQUIRED = dict(('%s %s' % (l, k), 150) for l in KINDS for k in KINDS[l])
REQUIRED.update({'zeros:leading': 3000, 'zeros:trailing': 3000, 'zeros:none': 1500, 'other_format': 5000})
ASSUMPTIONS = ['image offsets and scale factors have up to five decimals', 'a rout coordinate and the mode it selects form one statement']
FMTS = [(2, 3), (2, 4), (2, 5), (3, 3), (3, 4), (4, 4), (2, 6), (3, 6), (4, 6), (6, 6), (1, 6), (2, 2), (4, 2), (6, 7), (5, 5)]


def gen(rng, i):
    lang = 'gerber' if i % 2 else 'drill'
    kind = rng.choice(KINDS[lang])
    fmt = rng.choice(FMTS)
    to = (min(6, fmt[0] + rng.choice([0, 0, 1, 2])), min(7, fmt[1] + rng.choice([0, 0, 1, 2])))
    zs = ['L', 'T', 'D'] if lang == 'gerber' else ['L', 'T']
    case = {'lang': lang, 'kind': kind, 'units': rng.choice(['inch', 'metric']), 'fmt': list(fmt), 'zs': rng.choice(zs), 'to': list(to), 'tozs': rng.choice(zs)}
    text, want = (gerber if lang == 'gerber' else drill)(rng, kind, fmt, case['zs'])
    case['text'], case['want'] = text, want
    return case


def num(rng, fmt):
    n = rng.choice([1, 2, sum(fmt), rng.randint(1, sum(fmt))])
    v = rng.randint(0, 10 ** n - 1)
    return rng.choice([v, v, -v, 0 if rng.random() < .1 else v])


def dec(rng, lo=0, places=6):
    p = rng.randint(0, places)
    s = '%d' % rng.choice([0, rng.randint(0, 9), rng.randint(0, 999)])
    if p:
        if s == '0' and rng.random() < .3:
            s = ''
        s += '.' + ''.join(rng.choice('0123456789') for _ in range(p))
    return s


WORD = 'abcXYZ019 _-./,()+#@!:;<>='


def words(rng, chars=WORD):
    return ''.join(rng.choice(chars) for _ in range(rng.randint(1, 14))).strip() or 'x'


def gerber(rng, k, fmt, zs):
    """(text, expected [(class, {field: value})])"""
    if k == 'FS':
        z = rng.choice('LTD')
        n = rng.choice('AI')
        f = rng.choice([f for f in FMTS])
        return '%%FS%s%sX%d%dY%d%d*%%' % (z, n, f[0], f[1], f[0], f[1]), ['FSParamStmt', {'format': list(f), 'zero_suppression': {'L': 'leading', 'T': 'trailing', 'D': 'none'}[z],
                                                                                         'notation': 'absolute' if n == 'A' else 'incremental'}]
    if k == 'MO':
        u = rng.choice(['IN', 'MM'])
        return '%%MO%s*%%' % u, ['MOParamStmt', {'mode': 'inch' if u == 'IN' else 'metric'}]
    if k == 'LP':
        p = rng.choice('CD')
        return '%%LP%s*%%' % p, ['LPParamStmt', {'lp': 'clear' if p == 'C' else 'dark'}]
    if k.startswith('AD'):
        s = k[3:]
        d = rng.randint(10, 9999)
        n = {'C': [1, 2, 3], 'R': [2, 3, 4], 'O': [2, 3, 4], 'P': [2, 3, 4, 5]}.get(s, [0, 1, 2, 5])
        mods = [dec(rng) for _ in range(rng.choice(n))]
        if s == 'P':
            mods[1] = str(rng.randint(3, 12))
            if len(mods) > 2 and rng.random() < .4:
                mods[2] = '-' + mods[2]
        if s == 'macro':
            s = rng.choice(macros.NAMES)
            if rng.random() < .3 and mods:
                mods[0] = '-' + mods[0]
        else:
            for j in range(len(mods)):
                if s != 'P' and float(mods[j]) == 0:
                    mods[j] = '0.125'
            if float(mods[0]) == 0:
                mods[0] = '0.75'
        return '%%ADD%d%s%s*%%' % (d, s, ',' + 'X'.join(mods) if mods else ''), ['ADParamStmt', {'d': d, 'shape': s, 'modifiers': [[float(m) for m in mods]]}]
    if k == 'AM':
        name, blocks, _ = macros.gen_macro(rng, rng.choice(macros.NAMES))
        return '%%AM%s*%s*%%' % (name, '*'.join(blocks)), ['AMParamStmt', {'name': name}]
    if k == 'AS':
        m = rng.choice(['AXBY', 'AYBX'])
        return '%%AS%s*%%' % m, ['ASParamStmt', {'mode': m}]
    if k in ('IN', 'LN'):
        n = words(rng)
        return '%%%s%s*%%' % (k, n), [k + 'ParamStmt', {'name': n}]
    if k == 'IP':
        m = rng.choice(['POS', 'NEG'])
        return '%%IP%s*%%' % m, ['IPParamStmt', {'ip': 'positive' if m == 'POS' else 'negative'}]
    if k == 'IR':
        a = rng.choice([0, 90, 180, 270])
        return '%%IR%d*%%' % a, ['IRParamStmt', {'angle': a}]
    if k == 'MI':
        a, b = rng.choice([(0, 0), (0, 1), (1, 0), (1, 1), (None, 1), (1, None), (None, 0)])
        return '%%MI%s%s*%%' % ('' if a is None else 'A%d' % a, '' if b is None else 'B%d' % b), ['MIParamStmt', {'a': a or 0, 'b': b or 0}]
    if k in ('OF', 'SF'):
        a = rng.choice(['', '', '-', '+'] if k == 'OF' else ['']) + dec(rng, places=5)
        b = rng.choice(['', '', '-', '+'] if k == 'OF' else ['']) + dec(rng, places=5)
        if rng.random() < .2:
            # (the smallest figures that can be written)
            a = '0.0000%d' % rng.randint(1, 9)
            b = rng.choice([b, '-' * (k == 'OF') + '.000%d%s' % (rng.randint(0, 9), rng.choice('123456789'))])
        if k == 'SF':
            a, b = [x if float(x) else '1.5' for x in (a, b)]
        which = rng.choice(['AB', 'AB', 'A', 'B'])
        none = 0.0 if k == 'OF' else 1.0
        return '%%%s%s%s*%%' % (k, 'A' + a if 'A' in which else '', 'B' + b if 'B' in which else ''), \
            [k + 'ParamStmt', {'a': float(a) if 'A' in which else none, 'b': float(b) if 'B' in which else none}]
    if k == 'G70':
        g = rng.choice(['G70', 'G71'])
        return g + '*', ['MOParamStmt', {'mode': 'inch' if g == 'G70' else 'metric'}]
    if k == 'G90':
        g = rng.choice(['G90', 'G91'])
        return g + '*', ['DeprecatedStmt', {'line': g + '*'}]
    if k == 'coord':
        vals = dict((n, num(rng, fmt)) for n in 'xyij' if rng.random() < (.8 if n in 'xy' else .3))
        f = rng.choice([None, None, 'G01', 'G02', 'G03', 'G1', 'G2', 'G3'])
        op = rng.choice(['D01', 'D02', 'D03', 'D1', 'D2', 'D3', None])
        if not vals and f is None and op is None:
            op = 'D02'
        text = (f or '') + ''.join(n.upper() + gbr.enc(vals[n], fmt, zs, rng.random() < .2) for n in 'xyij' if n in vals) + (op or '') + '*'
        want = dict((n, gbr.val(vals[n], fmt) if n in vals else None) for n in 'xyij')
        want['function'] = f
        if op:     # (else the operation before stays in force)
            want['op'] = op
        return text, ['CoordStmt', want]
    if k == 'aperture':
        d = rng.randint(10, 999)
        g = rng.random() < .4
        return '%sD%d*' % ('G54' if g else '', d), ['ApertureStmt', {'d': d, 'deprecated': g}]
    if k == 'comment':
        w = words(rng)
        sp = rng.choice(['', ' ', '  '])
        return 'G04%s%s*' % (sp, w), ['CommentStmt', {'comment': sp + w}]
    if k == 'region':
        m = rng.choice(['G36', 'G37'])
        return m + '*', ['RegionModeStmt', {'mode': 'on' if m == 'G36' else 'off'}]
    if k == 'quadrant':
        m = rng.choice(['G74', 'G75'])
        return m + '*', ['QuadrantModeStmt', {'mode': 'single-quadrant' if m == 'G74' else 'multi-quadrant'}]
    if k == 'eof':
        return rng.choice(['M02*', 'M2*', 'M00*']), ['EofStmt', {}]
    if k == 'attribute':
        t = rng.choice(['%%TF.%s*%%', '%%TA.%s*%%', '%%TO.%s*%%', '%%TD%s*%%', '%%SRX2Y3I%sJ1*%%', '%%KO%s*%%', '%%AB%s*%%', '%%WIbs%s*%%']) % words(rng)
        return t, ['UnknownStmt', {'line': t}]
    t = rng.choice(['G99%s*', 'K%s*', 'G55 %s*', 'Q12%s*', 'ZZ%s*', 'M88%s*']) % words(rng, 'abcxyz_-#@!')
    return t, ['UnknownStmt', {'line': t}]


def denc(v, fmt, zs, style):
    if style == 1:
        s = str(abs(v)).zfill(fmt[1] + 1)
        return ('-' if v < 0 else '') + s[:-fmt[1]] + '.' + s[-fmt[1]:]
    return gbr.enc(v, fmt, zs, style == 2)


def drill(rng, k, fmt, zs):
    st = rng.choice([0, 0, 0, 1, 2])

    def xy(must=True):
        vals = dict((n, num(rng, fmt)) for n in 'xy' if rng.random() < .75)
        if must and not vals:
            vals['y'] = num(rng, fmt)
        return ''.join(n.upper() + denc(vals[n], fmt, zs, st) for n in 'xy' if n in vals), dict((n, gbr.val(vals[n], fmt) if n in vals else None) for n in 'xy')
    if k == 'tool':
        n = rng.randint(1, 99)
        text = rng.choice(['T%d', 'T%02d']) % n
        want = {'number': n}
        for c, f in [('C', 'diameter'), ('B', 'retract_rate'), ('F', 'feed_rate'), ('H', 'max_hit_count'), ('S', 'rpm'), ('Z', 'depth_offset')]:
            v = None
            if c == 'C' or rng.random() < .4:
                if rng.random() < .6 or c == 'C':
                    v = dec(rng, places=6)
                    if '.' not in v:
                        v += '.0'
                    x = float(v)
                else:
                    d = abs(num(rng, fmt))
                    v, x = gbr.enc(d, fmt, zs), gbr.val(d, fmt)
                if c == 'Z' and rng.random() < .5:
                    v, x = '-' + v, -x
                text += c + v
                want[f] = x * (1000 if c == 'S' else 1)
            else:
                want[f] = None
        return text, ['ExcellonTool', want]
    if k == 'select':
        t = rng.randint(1, 99)
        c = rng.choice([None, None, rng.randint(0, 99)])
        return 'T%02d%s' % (t, '' if c is None else '%02d' % c), ['ToolSelectionStmt', {'tool': t, 'compensation_index': c}]
    if k == 'feed':
        r = rng.randint(0, 999)
        return 'F%02d' % r, ['ZAxisInfeedRateStmt', {'rate': r}]
    if k == 'coord':
        t, w = xy()
        return t, ['CoordinateStmt', w]
    if k == 'rout':
        t, w = xy()
        g = rng.choice(['G00', 'G01'])
        w['mode'] = 'ROUT' if g == 'G00' else 'LINEAR'
        return g + t, ['CoordinateStmt', w]
    if k == 'repeat':
        t, w = xy()
        n = rng.randint(1, 20)
        return 'R%d%s' % (n, t), ['RepeatHoleStmt', {'count': n, 'xdelta': w['x'], 'ydelta': w['y']}]
    if k == 'slot':
        (a, w), (b, v) = xy(), xy()
        x1 = v['x'] if v['x'] is not None else w['x']
        y1 = v['y'] if v['y'] is not None else w['y']
        return a + 'G85' + b, ['SlotStmt', {'x_start': w['x'], 'y_start': w['y'], 'x_end': x1, 'y_end': y1}]
    if k == 'comment':
        c = rng.choice(['', ' ']) + words(rng, 'abcXYZ019 _-.,()+#@!:')
        return ';' + c, ['CommentStmt', {'comment': c}]
    if k == 'M30':
        t, w = xy(False) if rng.random() < .5 else ('', {'x': None, 'y': None})
        return 'M30' + t, ['EndOfProgramStmt', w]
    if k == 'unit':
        u = rng.choice(['INCH', 'METRIC'])
        z = rng.choice(['LZ', 'TZ'])
        f = rng.choice([None, (4, 2), (3, 3), (2, 4)])
        return '%s,%s%s' % (u, z, '' if f is None else ',%s.%s' % ('0' * f[0], '0' * f[1])), \
            ['UnitStmt', {'units': 'inch' if u == 'INCH' else 'metric', 'zeros': 'leading' if z == 'LZ' else 'trailing', 'format': None if f is None else list(f)}]
    if k == 'ICI':
        m = rng.choice(['ON', 'OFF'])
        return 'ICI,' + m, ['IncrementalModeStmt', {'mode': m.lower()}]
    if k == 'VER':
        v = rng.choice([1, 2])
        return 'VER,%d' % v, ['VersionStmt', {'version': v}]
    if k == 'FMAT':
        v = rng.choice([1, 2])
        return 'FMAT,%d' % v, ['FormatStmt', {'format': v}]
    if k == 'M71':
        m = rng.choice(['M71', 'M72'])
        return m, ['MeasuringModeStmt', {'units': 'inch' if m == 'M72' else 'metric'}]
    if k == 'unknown':
        t = rng.choice(['M97,%s', 'DETECT,ON', 'ATC,ON', 'G93X0Y0', 'M47,%s', 'S%s', 'CCW,%s', 'M02X%s', 'BLKD', 'PCKPARAM', 'G82', 'M08', 'OM48'])
        return t % words(rng, 'abcxyz_-#@!') if '%' in t else t, ['UnknownStmt', {}]
    return k, [{'M48': 'HeaderBeginStmt', 'M95': 'HeaderEndStmt', '%': 'RewindStopStmt', 'M15': 'ZAxisRoutPositionStmt', 'M16': 'RetractWithClampingStmt', 'M17': 'RetractWithoutClampingStmt',
                'G40': 'CutterCompensationOffStmt', 'G41': 'CutterCompensationLeftStmt', 'G42': 'CutterCompensationRightStmt', 'G90': 'AbsoluteModeStmt', 'G05': 'DrillModeStmt'}[k], {}]


def signature(case):
    return repr((case['text'], case['fmt'], case['zs'], case['to'], case['tozs']))


# ---------------------------------------------------------------- read one
def read_one(case, text, fmt, zs):
    """The statements a text gives inside a file of its own."""
    import gerber
    from gerber import rs274x, excellon
    from gerber.cam import FileSettings
    if case['lang'] == 'gerber':
        head = ['%%FS%sAX%d%dY%d%d*%%' % ((zs,) + tuple(fmt) * 2), '%%MO%s*%%' % ('IN' if case['units'] == 'inch' else 'MM')]
        # apertures and macros a statement may refer to
        need = []
        if case['kind'] == 'AD:macro':
            need = ['%%AM%s*1,1,$1,0,0*%%' % n for n in [case['want'][1]['shape']]]
        if case['kind'] == 'aperture':
            need = ['%%ADD%dC,0.1*%%' % case['want'][1]['d']]
        if case['kind'] in ('coord',):
            need = ['%ADD10C,0.1*%', 'D10*']
        f = rs274x.loads('\n'.join(head + need + [text]) + '\n')
        return f.statements[len(head) + len(need):]
    head = ['M48'] + ['T%dC0.5' % t for t in range(1, 100) if t in (1, case['want'][1].get('tool'))] + ['%', 'T1', 'X0Y0'] if case['kind'] not in ('tool', 'unit', 'VER', 'FMAT', 'M71', 'ICI', '%', 'M48', 'M95') else ['M48']
    f = excellon.loads('\n'.join(head + [text]) + '\n', settings=FileSettings(units=case['units'], format=tuple(fmt), zeros='leading' if zs == 'T' else 'trailing'))
    return f.statements[len(head):]


def fields(s):
    out = {}
    for k, v in s.__dict__.items():
        if k.startswith('_') or k in ('id', 'units', 'settings', 'primitives', 'instructions', 'parametrized', 'converted', 'macro', 'type'):
            continue
        out[k] = v
    if type(s).__name__ in ('UnitStmt', 'MeasuringModeStmt'):
        out['units'] = s.units
    if type(s).__name__ == 'AMParamStmt':
        # (what the macro draws is another property; the text may be rewritten in evaluated form)
        out['shapes'] = [(type(p).__name__, snap.pub(p)) for p in s.primitives]
    return out


def same(a, b, tol=1e-9):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * max(1, abs(a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


def one(case, text, fmt, zs, show):
    """The statement a text stands for (a rout coordinate follows its mode)."""
    got = read_one(case, text, fmt, zs)
    if case['kind'] == 'rout':
        require(len(got) == 2 and type(got[0]).__name__ in ('RouteModeStmt', 'LinearModeStmt'), 'kind', lambda: '%r for %r of %s' % ([type(s).__name__ for s in got], text, show()))
        return got[1]
    require(len(got) == 1, 'kind', lambda: '%r for %r of %s' % ([type(s).__name__ for s in got], text, show()))
    return got[0]


def judge(case, mon):
    from gerber.cam import FileSettings
    show = lambda: '%s statement %r under %r %s' % (case['lang'], case['text'], case['fmt'], case['zs'])
    zname = {'L': 'leading', 'T': 'trailing', 'D': 'none'}
    mon.count('%s %s' % (case['lang'], case['kind']))
    mon.count('zeros:' + zname[case['tozs']])
    mon.count('other_format', case['to'] != case['fmt'])
    s = one(case, case['text'], case['fmt'], case['zs'], show)
    kind, want = case['want']
    require(type(s).__name__ == kind, 'read', lambda: 'a %s from %s' % (type(s).__name__, show()))
    have = fields(s)
    for n in want:
        require(n in have and same(want[n], have[n]), 'read', lambda: '%s is %r, not %r, for %s' % (n, have.get(n), want[n], show()))
    if kind == 'UnknownStmt':
        require(case['text'] in list(have.values()), 'read', lambda: '%r from %s' % (have, show()))
    own = case['kind'] == 'FS'
    if case['lang'] == 'gerber':
        settings = FileSettings(units=case['units'], format=tuple(case['to']), zero_suppression=zname[case['tozs']])
        settings.zero_suppression = zname[case['tozs']]
        if own:
            settings = None
        out = s.to_gerber(settings)
    else:
        settings = FileSettings(units=case['units'], format=tuple(case['to']), zero_suppression=zname[case['tozs']])
        out = s.to_excellon(settings)
    if kind == 'UnknownStmt':
        require(out == case['text'], 'verbatim', lambda: '%r from %s' % (out, show()))
    t = one(case, out, case['to'], case['tozs'], show)
    require(type(t).__name__ == kind, 'kind', lambda: 'a %s from %r, written from %s' % (type(t).__name__, out, show()))
    again = fields(t)
    for n in sorted(set(have) | set(again)):
        a, b = have.get(n), again.get(n)
        if n in ('function', 'op') and a and b:
            a, b = [x[0] + x[1:].lstrip('0') for x in (a, b)]
        if n in ('xdelta', 'ydelta'):
            a, b = a or 0.0, b or 0.0
        require(same(a, b), 'field', lambda: '%s: %r, then %r, through %r (%r %s) from %s' % (n, a, b, out, case['to'], case['tozs'], show()))
    out2 = t.to_gerber(settings) if case['lang'] == 'gerber' else t.to_excellon(settings)
    require(out2 == out, 'stable', lambda: '%r, then %r, from %s' % (out, out2, show()))
