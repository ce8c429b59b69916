"""Abstract RS-274X programs: generator, text emitter, reference interpreter.

A program is a JSON-able dict
  {'units': 'inch'|'metric', 'fmt': [a, b], 'zs': 'L'|'T'|'D', 'ops': [...]}
Coordinates are integers in units of the last digit of the format, modifiers are
decimal strings.  Ops:
  ['ad', code, shape, [modifier strings]]      aperture definition
  ['am', name, [blocks]]                       macro definition
  ['sel', code, deprecated?]                   aperture selection
  ['lp', 'D'|'C']  ['q', 'G74'|'G75']  ['g', code]  ['g36']  ['g37']
  ['op', func or None, x, y, i, j, opcode or None]
  ['c', comment] ['raw', text, opens_header?]
"""
import math

CW, CCW = 'clockwise', 'counterclockwise'


# ---------------------------------------------------------------- numbers
def enc(v, fmt, zs, plus=False):
    a, b = fmt
    s = str(abs(v)).zfill(a + b)
    if zs == 'L':
        s = s.lstrip('0') or '0'
    elif zs == 'T':
        s = s.rstrip('0') or '0'
    return ('-' if v < 0 else '+' if plus else '') + s


def val(v, fmt):
    """The number a scaled integer stands for (correctly rounded)."""
    return float('%se-%d' % (v, fmt[1]))


# ---------------------------------------------------------------- emit
def header(prog):
    a, b = prog['fmt']
    out = []
    fs = ['%%FS%sAX%d%dY%d%d*%%' % (prog['zs'], a, b, a, b),
          '%%MO%s*%%' % ('IN' if prog['units'] == 'inch' else 'MM')]
    if prog.get('mofirst'):
        fs.reverse()
    return out + fs


def commands(prog):
    """List of command strings, one per command."""
    fmt, zs = prog['fmt'], prog['zs']
    out = list(prog.get('pre', [])) + header(prog)
    for op in prog['ops']:
        k = op[0]
        if k == 'ad':
            mods = 'X'.join(op[3])
            out.append('%%ADD%d%s%s*%%' % (op[1], op[2], (',' + mods) if mods else ''))
        elif k == 'am':
            out.append('%%AM%s*%s*%%' % (op[1], '*'.join(op[2])))
        elif k == 'sel':
            out.append('%sD%d*' % ('G54' if op[2] else '', op[1]))
        elif k == 'lp':
            out.append('%%LP%s*%%' % op[1])
        elif k in ('q', 'g'):
            out.append(op[1] + '*')
        elif k == 'g36':
            out.append('G36*')
        elif k == 'g37':
            out.append('G37*')
        elif k == 'c':
            out.append('G04 %s*' % op[1])
        elif k == 'raw':
            out.append(op[1])
        elif k == 'op':
            _, func, x, y, i, j, d = op[:7]
            s = func or ''
            for letter, v in (('X', x), ('Y', y), ('I', i), ('J', j)):
                if v is not None:
                    s += letter + enc(v, fmt, zs)
            out.append(s + (d or '') + '*')
        else:
            raise AssertionError(op)
    if not prog.get('noeof'):
        out.append('M02*')
    return out


def text(prog):
    return '\n'.join(commands(prog)) + '\n'


# ---------------------------------------------------------------- reference
def ap_ref(shape, mods):
    """Normal form of a standard aperture."""
    m = [float(x) for x in mods]

    def hole(rest):
        if len(rest) == 1:
            return ('round', rest[0])
        if len(rest) >= 2:
            return ('rect', rest[0], rest[1])
        return ('none',)
    if shape == 'C':
        return ('C', m[0], hole(m[1:]))
    if shape in 'RO':
        return (shape, m[0], m[1], hole(m[2:]))
    if shape == 'P':
        return ('P', m[0], int(m[1]), m[2] if len(m) > 2 else 0.0, hole(m[3:]))
    return ('M', shape, tuple(m))


class Ref(object):
    """Independent interpreter of the abstract program.

    Produces normal forms
      ('line', pol, start, end, aperture)
      ('arc', pol, start, end, centre, direction, aperture, quadrant)
      ('flash', pol, pos, aperture)
      ('region', pol, [('line', s, e) | ('arc', s, e, c, dir, quadrant)])
    """

    def __init__(self, prog):
        self.prog = prog
        self.objects = []
        self.contour = None
        self.region = False
        self.x = self.y = 0            # scaled integers
        self.op = None
        self.func = 'G01'
        self.quad = 'multi-quadrant'
        self.pol = 'dark'
        self.ap = None
        self.table = {}
        self.macros = {}
        self.events = {}
        self.origin = []               # op index per object
        for n, op in enumerate(prog['ops']):
            before = len(self.objects)
            self.step(op)
            self.origin.extend([n] * (len(self.objects) - before))
        # a region left open at end of file has no closing command: not generated

    def ev(self, name):
        self.events[name] = self.events.get(name, 0) + 1

    def pt(self, x, y):
        return (val(x, self.prog['fmt']), val(y, self.prog['fmt']))

    def close(self):
        if self.contour:
            self.objects.append(('region', self.pol, list(self.contour)))
            self.ev('region')
        self.contour = None

    def step(self, op):
        k = op[0]
        if k == 'ad':
            self.table[op[1]] = ap_ref(op[2], op[3])
        elif k == 'am':
            self.macros[op[1]] = op[2]
        elif k == 'sel':
            self.ap = op[1]
        elif k == 'lp':
            self.pol = 'dark' if op[1] == 'D' else 'clear'
        elif k == 'q':
            self.quad = 'single-quadrant' if op[1] == 'G74' else 'multi-quadrant'
        elif k == 'g':
            self.func = 'G0' + op[1][-1]
        elif k == 'g36':
            self.region = True
            self.contour = None
        elif k == 'g37':
            self.close()
            self.region = False
        elif k == 'op':
            self.draw(op)

    def draw(self, op):
        _, func, x, y, i, j, d = op[:7]
        if func:
            self.func = 'G0' + func[-1]
        nx = self.x if x is None else x
        ny = self.y if y is None else y
        if d:
            self.op = d[-1]
        start, end = self.pt(self.x, self.y), self.pt(nx, ny)
        if self.op == '1':
            if self.func == 'G01':
                seg = ('line', start, end)
            else:
                direction = CW if self.func == 'G02' else CCW
                c = self.centre(nx, ny, i or 0, j or 0, direction)
                seg = ('arc', start, end, self.pt(*c), direction, self.quad)
            if self.region:
                if self.contour is None:
                    self.contour = []
                self.contour.append(seg)
                self.ev('segment')
            elif seg[0] == 'line':
                self.objects.append(('line', self.pol, start, end, self.table[self.ap]))
                self.ev('line')
            else:
                self.objects.append(('arc', self.pol) + seg[1:5] + (self.table[self.ap], self.quad))
                self.ev('arc')
        elif self.op == '2':
            if self.region:
                self.close()
            self.ev('move')
        else:
            self.objects.append(('flash', self.pol, end, self.table[self.ap]))
            self.ev('flash')
        self.x, self.y = nx, ny

    def centre(self, nx, ny, i, j, direction):
        if self.quad == 'multi-quadrant':
            return (self.x + i, self.y + j)
        best = centre_candidates((self.x, self.y), (nx, ny), i, j, direction)
        return best[0][1]


def sweep(start, end, c, direction, full_ok=False):
    a0 = math.atan2(start[1] - c[1], start[0] - c[0])
    a1 = math.atan2(end[1] - c[1], end[0] - c[0])
    d = (a1 - a0) if direction == CCW else (a0 - a1)
    d %= 2 * math.pi
    if full_ok and tuple(start) == tuple(end):
        return 2 * math.pi
    return d


def centre_candidates(s, e, i, j, direction):
    out = {}
    for fx in (1, -1):
        for fy in (1, -1):
            c = (s[0] + fx * i, s[1] + fy * j)
            sw = sweep(s, e, c, direction)
            if sw > 2 * math.pi - 1e-9:
                sw = 0.0
            err = abs(math.hypot(s[0] - c[0], s[1] - c[1]) - math.hypot(e[0] - c[0], e[1] - c[1]))
            if sw <= math.pi / 2 + 0.02:
                out[c] = err
    return sorted((err, c) for c, err in out.items())


# ---------------------------------------------------------------- observe
def pt2(p):
    return (float(p[0]), float(p[1]))


def hole_of(p):
    hd = getattr(p, 'hole_diameter', 0) or 0
    hw = getattr(p, 'hole_width', 0) or 0
    hh = getattr(p, 'hole_height', 0) or 0
    if hd > 0:
        return ('round', hd)
    if hw > 0 and hh > 0:
        return ('rect', hw, hh)
    return ('none',)


def ap_obs(p):
    """Normal form of an aperture object of the code under test."""
    from gerber import primitives as pr
    if isinstance(p, pr.Circle):
        return ('C', p.diameter, hole_of(p))
    if isinstance(p, pr.Rectangle):
        return ('R', p.width, p.height, hole_of(p))
    if isinstance(p, pr.Obround):
        return ('O', p.width, p.height, hole_of(p))
    if isinstance(p, pr.Polygon):
        return ('P', p.radius * 2, p.sides, float(p.rotation), hole_of(p))
    if isinstance(p, pr.AMGroup):
        return ('M', tuple(amelem(q) for q in p.primitives))
    return ('?', type(p).__name__)


def outline_points(o):
    """Corner points of a macro outline, in order, from its segments."""
    return tuple(pt2(s.end) for s in o.primitives)


def amelem(q):
    from gerber import primitives as pr
    pol = q.level_polarity
    if isinstance(q, pr.Circle):
        hole = q.hole_diameter or 0
        return ('circle', pol, pt2(q.position), q.diameter) + ((hole,) if hole > 0 else ())
    if isinstance(q, pr.Polygon):
        return ('poly', pol, pt2(q.position), q.radius, q.sides, float(q.rotation))
    if isinstance(q, pr.Outline):
        return ('outline', pol, outline_points(q))
    if isinstance(q, pr.Rectangle):
        return ('rect', pol, pt2(q.position), q.width, q.height, float(q.rotation))
    return ('?', type(q).__name__)


def obs(p):
    """Normal form of an image object of the code under test."""
    from gerber import primitives as pr
    if isinstance(p, pr.Line):
        return ('line', p.level_polarity, pt2(p.start), pt2(p.end), ap_obs(p.aperture))
    if isinstance(p, pr.Arc):
        return ('arc', p.level_polarity, pt2(p.start), pt2(p.end), pt2(p.center), p.direction,
                ap_obs(p.aperture), p.quadrant_mode)
    if isinstance(p, pr.Region):
        segs = []
        for s in p.primitives:
            if isinstance(s, pr.Line):
                segs.append(('line', pt2(s.start), pt2(s.end)))
            else:
                segs.append(('arc', pt2(s.start), pt2(s.end), pt2(s.center), s.direction, s.quadrant_mode))
        return ('region', p.level_polarity, segs)
    return ('flash', p.level_polarity, pt2(p.position), ap_obs(p))


def close(a, b, tol):
    """Structural comparison of normal forms with a numeric tolerance."""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return abs(a - b) <= tol + 1e-12 * abs(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return a == b


def diff_lists(want, got, tol):
    """None or a message about the first difference."""
    for n, (w, g) in enumerate(zip(want, got)):
        if not close(w, g, tol):
            return 'object %d: expected %r, got %r' % (n, w, g)
    if len(want) != len(got):
        longer = want if len(want) > len(got) else got
        return '%d objects expected, %d found; first %s: %r' % (
            len(want), len(got), 'missing' if len(want) > len(got) else 'extra', longer[min(len(want), len(got))])
    return None


def strip_macro(n):
    """Drops macro internals (used where another property owns them)."""
    if n[0] == 'flash' and n[3][0] == 'M':
        return n[:3] + (('M',),)
    if n[0] in ('line', 'arc') and n[-1][0] == 'M':
        return n[:-1] + (('M',),)
    return n


# ---------------------------------------------------------------- generate
def dec(rng, lo, hi, places=4):
    """A positive decimal string."""
    v = rng.randint(int(lo * 10 ** places), int(hi * 10 ** places))
    s = '%.*f' % (places, v / float(10 ** places))
    r = rng.random()
    if r < 0.5:
        s = s.rstrip('0')
        if s.endswith('.'):
            s = s[:-1] or '0'
    elif r < 0.6 and s.startswith('0.'):
        s = s[1:]
    return s


def gen_aperture(rng, scale=1.0, holes=True, shapes='CROP'):
    shape = rng.choice(shapes)
    lo, hi = 0.02 * scale, 0.5 * scale
    d = dec(rng, lo, hi)
    fd = float(d)
    hole = []
    if holes and rng.random() < 0.45:
        hole = [dec(rng, 0.1 * fd, 0.45 * fd)]
        if rng.random() < 0.5:
            hole.append(dec(rng, 0.1 * fd, 0.45 * fd) if rng.random() < .8 else hole[0])
        elif shape in 'CRO' and rng.random() < .3:
            # a thin rim
            hole = [dec(rng, 0.45 * fd, 0.68 * fd)]
    if shape == 'C':
        return shape, [d] + hole
    if shape in 'RO':
        h = dec(rng, fd * 0.7, fd * 1.6) if rng.random() < 0.85 else d
        return shape, [d, h] + hole
    mods = [d, str(rng.randint(3, 12))]
    if rng.random() < 0.7 or hole:
        mods.append(rng.choice(['0', '0.0', '45', '15.5', '-30', '90', '%d' % rng.randint(1, 359), '7.25']))
    return shape, mods + hole


def lead(rng, code):
    """D01 or D1, G02 or G2."""
    return code if rng.random() < 0.8 else code[0] + code[2]


def rnd_coord(rng, prog):
    a, b = prog['fmt']
    top = 10 ** (a + b) - 1
    if prog.get('span'):
        return rng.randint(-prog['span'], prog['span'])
    r = rng.random()
    if r < 0.06:
        v = rng.choice([0, 0, 1, -1, top, -top])
    elif r < 0.5:
        v = rng.randint(-2 * 10 ** b, 2 * 10 ** b)
    elif r < 0.8:
        step = 10 ** max(b - 2, 0)
        v = rng.randint(-300, 300) * step
    else:
        v = rng.randint(-min(top, 50 * 10 ** b), min(top, 50 * 10 ** b))
    return max(-top, min(top, v))


def gen_arc(rng, prog, cur, single, force_func=True):
    """An arc op starting at cur; returns op or None."""
    fmt = prog['fmt']
    top = 10 ** (fmt[0] + fmt[1]) - 1
    unit = 10 ** fmt[1]
    for _ in range(40):
        r = rng.uniform(0.05, 3) * unit if not prog.get('span') else rng.uniform(.05, .8) * prog['span']
        if r < 60:
            r = rng.uniform(60, 500)
        a0 = rng.uniform(-math.pi, math.pi) if rng.random() < 0.7 else rng.choice([0, 1, 2, 3]) * math.pi / 2
        if rng.random() < 0.35:
            a0 = rng.uniform(-1.2, 1.2)       # likely to cross the zero angle
        func = rng.choice(['G02', 'G03'])
        if single:
            sw = rng.uniform(0.15, math.pi / 2 - 0.03) if rng.random() < 0.75 else math.pi / 2
        else:
            sw = rng.uniform(0.1, 2 * math.pi - 0.1) if rng.random() < 0.85 else 2 * math.pi
        i, j = int(round(-r * math.cos(a0))), int(round(-r * math.sin(a0)))
        c = (cur[0] + i, cur[1] + j)
        a1 = a0 + (sw if func == 'G03' else -sw)
        e = (int(round(c[0] + r * math.cos(a1))), int(round(c[1] + r * math.sin(a1))))
        if not single and sw > 2 * math.pi - 1e-9:
            e = cur
        elif e == cur:
            continue
        if max(map(abs, e + (i, j))) > top:
            continue
        direction = CW if func == 'G02' else CCW
        if single:
            i, j = abs(i), abs(j)
            cand = centre_candidates(cur, e, i, j, direction)
            good = [x for x in cand if x[0] < 3]
            if not cand or cand[0][1] != c or (len(cand) > 1 and cand[1][0] < cand[0][0] + r * 0.02 + 3):
                continue
            if sweep(cur, e, c, direction) > math.pi / 2 + 0.018 or not good:
                continue
        elif e != cur and min(sweep(cur, e, c, direction), 2 * math.pi - sweep(cur, e, c, direction)) < 0.02:
            continue
        x = None if e[0] == cur[0] and rng.random() < 0.5 else e[0]
        y = None if e[1] == cur[1] and rng.random() < 0.5 else e[1]
        return ['op', lead(rng, func), x, y, i if (i or rng.random() < 0.5) else None,
                j if (j or rng.random() < 0.5) else None, lead(rng, 'D01')], e
    return None, cur


def gen_prog(rng, n=None, arcs=True, regions=True, holes=True, shapes='CROP', lp=True, macros=(), quad=True,
             redefine=True, noise=True, fmt=None, zs=None, units=None, modal=True, arc_round_only=True,
             draws_any=True, shared_only=False, span=None):
    """A random well-formed program.  macros: list of (name, blocks, [param list makers])."""
    prog = {'units': units or rng.choice(['inch', 'metric']),
            'fmt': list(fmt or rng.choice([(2, 3), (2, 4), (2, 5), (3, 3), (3, 4), (3, 5), (4, 4), (2, 6), (3, 6), (4, 6), (4, 2)])),
            'zs': zs or rng.choice(['L', 'L', 'L', 'T', 'D']), 'ops': []}
    if span:
        prog['span'] = span
    if rng.random() < 0.3:
        prog['mofirst'] = True
    ops = prog['ops']
    scale = 1.0 if prog['units'] == 'inch' else 10.0
    codes = {}

    def define():
        code = rng.choice([10, 11, 12, 13, 19, 20, 54, 100, 999]) if rng.random() < 0.7 else rng.randint(10, 400)
        if code in codes and not redefine:
            return
        if macros and rng.random() < 0.4:
            name, _, make = rng.choice(macros)
            ops.append(['ad', code, name, make(rng) if make else []])
            codes[code] = 'M'
        else:
            shape, mods = gen_aperture(rng, scale, holes, shapes)
            ops.append(['ad', code, shape, mods])
            codes[code] = shape if not (len(mods) > {'C': 1, 'R': 2, 'O': 2, 'P': 3}[shape]) else shape + 'h'

    for name, blocks, _ in macros:
        ops.append(['am', name, blocks])
    for _ in range(rng.randint(1, 4)):
        define()
    if not any(s == 'C' for s in codes.values()):
        ops.append(['ad', 10, 'C', [dec(rng, 0.02 * scale, 0.3 * scale)]])
        codes[10] = 'C'
    state = {'cur': (0, 0), 'ap': None, 'op': None, 'func': 'G01', 'single': False, 'dirty': True}

    def select(kinds=None):
        pool = [c for c in codes if kinds is None or codes[c] in kinds]
        if not pool:
            pool = [10]
            ops.append(['ad', 10, 'C', [dec(rng, 0.02 * scale, 0.3 * scale)]])
            codes[10] = 'C'
        c = rng.choice(sorted(pool))
        ops.append(['sel', c, rng.random() < 0.15])
        state['ap'] = c

    select()
    n = n or rng.randint(3, 30)
    for _ in range(n):
        r = rng.random()
        if redefine and r < 0.05:
            define()
            continue
        if r < 0.17:
            select()
            continue
        if macros and rng.random() < 0.15 and 'M' in codes.values():
            select(['M'])
            x, y = rnd_coord(rng, prog), rnd_coord(rng, prog)
            ops.append(['op', None, x, y, None, None, lead(rng, 'D03')])
            state['cur'] = (x, y)
            state['op'] = '3'
            continue
        if lp and r < 0.24:
            ops.append(['lp', rng.choice('DC')])
            continue
        if noise and r < 0.28:
            ops.append(rng.choice([['c', 'layer note'], ['c', 'X100Y100D03 ignored'], ['raw', '%INboard*%'],
                                   ['raw', '%LNtop*%'], ['raw', 'G90*'], ['raw', '%IPPOS*%'], ['raw', '%ASAXBY*%'],
                                   ['raw', '%TO.N,D10*%'], ['raw', '%TF.FileFunction,Copper,L1,Top*%'], ['raw', '%TA.AperFunction,X5Y5D03*%'], ['raw', '%TD*%']]))
            continue
        if quad and arcs and r < 0.32:
            q = rng.choice(['G74', 'G75'])
            ops.append(['q', q])
            state['single'] = q == 'G74'
            continue
        if r < 0.36 and not state['dirty']:
            f = rng.choice(['G01', 'G01', 'G02', 'G03']) if arcs else 'G01'
            ops.append(['g', lead(rng, f)])
            state['func'] = f
            continue
        if regions and r < 0.46:
            gen_region(rng, prog, ops, state, arcs, quad)
            state['dirty'] = rng.random() < 0.5
            continue
        kind = rng.choice(['flash', 'line', 'line', 'move', 'arc'] if arcs else ['flash', 'line', 'line', 'move'])
        if kind == 'arc':
            if arc_round_only and codes[state['ap']] != 'C':
                if any(s == 'C' for s in codes.values()):
                    select(['C'])
                else:
                    continue
            op, e = gen_arc(rng, prog, state['cur'], state['single'])
            if op is None:
                continue
            if not state['dirty'] and state['func'] == 'G0' + op[1][-1] and modal and rng.random() < 0.4:
                op[1] = None
            if state['op'] == '1' and modal and rng.random() < 0.25:
                op[6] = None
            ops.append(op)
            state['func'] = 'G0' + op[1][-1] if op[1] else state['func']
            state['dirty'] = False
            state['cur'] = e
            state['op'] = '1'
            continue
        if kind == 'line' and codes[state['ap']] not in ('C', 'R', 'Ch') and not draws_any:
            select(['C', 'R'])
        if kind == 'line' and codes[state['ap']] in ('M',):
            select([k for k in set(codes.values()) if k != 'M'])
        x, y = rnd_coord(rng, prog), rnd_coord(rng, prog)
        if rng.random() < 0.15:
            x = state['cur'][0]
        if rng.random() < 0.15:
            y = state['cur'][1]
        ox = None if x == state['cur'][0] and rng.random() < 0.7 else x
        oy = None if y == state['cur'][1] and rng.random() < 0.7 else y
        d = {'flash': 'D03', 'line': 'D01', 'move': 'D02'}[kind]
        func = None
        if kind == 'line' and (state['dirty'] or state['func'] != 'G01'):
            func = lead(rng, 'G01')
        elif rng.random() < 0.15:
            func = lead(rng, 'G01')
        op = ['op', func, ox, oy, None, None, lead(rng, d)]
        if func:
            state['func'] = 'G01'
            state['dirty'] = False
        if state['op'] == d[-1] and modal and rng.random() < 0.3 and (ox is not None or oy is not None):
            op[6] = None
        ops.append(op)
        state['cur'] = (x, y)
        state['op'] = d[-1]
    return prog


def gen_region(rng, prog, ops, state, arcs, quad=False):
    """A region of one to three contours; function codes explicit after arcs."""
    ops.append(['g36'])
    for c in range(rng.randint(1, 3)):
        sx, sy = rnd_coord(rng, prog), rnd_coord(rng, prog)
        ops.append(['op', 'G01' if rng.random() < 0.3 else None, sx, sy, None, None, 'D02'])
        if ops[-1][1]:
            state['func'] = 'G01'
        state['cur'] = (sx, sy)
        state['op'] = '2'
        if arcs and not state['single'] and rng.random() < 0.12:
            # a full circle is a one-segment contour
            r = rng.randint(50, 2 * 10 ** prog['fmt'][1] + 50)
            if prog.get('span'):
                r = rng.randint(prog['span'] // 10, prog['span'] // 2)
            if abs(sx) + 2 * r < 10 ** sum(prog['fmt']) - 1:
                ops.append(['op', rng.choice(['G02', 'G03']), sx, sy, r, 0, 'D01'])
                state['op'] = '1'
                continue
        arc_seen = True
        func = None
        for k in range(rng.randint(2, 5)):
            if quad and arcs and rng.random() < 0.08:
                # (the quadrant mode may change on the way round)
                q = rng.choice(['G74', 'G75'])
                ops.append(['q', q])
                state['single'] = q == 'G74'
            if arcs and rng.random() < (0.6 if func in ('2', '3') else 0.25):
                op, e = gen_arc(rng, prog, state['cur'], state['single'])
                if op is not None:
                    if func == op[1][-1] and rng.random() < 0.5:
                        op[1] = None
                    else:
                        func = op[1][-1]
                    ops.append(op)
                    state['cur'] = e
                    state['op'] = '1'
                    arc_seen = True
                    continue
            x, y = rnd_coord(rng, prog), rnd_coord(rng, prog)
            if rng.random() < 0.3:
                x = state['cur'][0]
            elif rng.random() < 0.4:
                y = state['cur'][1]
            op = ['op', 'G01' if arc_seen or rng.random() < 0.2 else None,
                  x if x != state['cur'][0] or rng.random() < 0.3 else None,
                  y if y != state['cur'][1] or rng.random() < 0.3 else None, None, None,
                  lead(rng, 'D01')]
            if op[1]:
                func = '1'
            if op[2] is None and op[3] is None:
                op[2] = x
            if not arc_seen and rng.random() < 0.3 and state['op'] == '1':
                op[6] = None
            arc_seen = False
            ops.append(op)
            state['cur'] = (x, y)
            state['op'] = '1'
        if state['cur'] != (sx, sy):
            ops.append(['op', 'G01' if arc_seen else None, sx, sy, None, None, 'D01'])
            state['cur'] = (sx, sy)
            state['op'] = '1'
    ops.append(['g37'])
    last = [o for o in ops if (o[0] == 'op' and o[1]) or o[0] == 'g']
    state['func'] = 'G0' + last[-1][1][-1] if last else 'G01'


# ---------------------------------------------------------------- transforms
def scale_ap(ap, k):
    c = ap[0]
    if c == 'M':
        return ('M', tuple(scale_elem(e, k) for e in ap[1]))
    hole = (ap[-1][0],) + tuple(v * k for v in ap[-1][1:])
    if c == 'P':
        return ('P', ap[1] * k, ap[2], ap[3], hole)
    return (c,) + tuple(v * k for v in ap[1:-1]) + (hole,)


def scale_elem(e, k):
    c = e[0]
    s = lambda p: (p[0] * k, p[1] * k)
    if c == 'circle':
        return (c, e[1], s(e[2])) + tuple(v * k for v in e[3:])
    if c == 'poly':
        return (c, e[1], s(e[2]), e[3] * k, e[4], e[5])
    if c == 'outline':
        return (c, e[1], tuple(s(p) for p in e[2]))
    return (c, e[1], s(e[2]), e[3] * k, e[4] * k, e[5])


def map_norm(n, point, ap):
    """Applies point() to every coordinate and ap() to every aperture."""
    k = n[0]
    if k == 'line':
        return (k, n[1], point(n[2]), point(n[3]), ap(n[4]))
    if k == 'arc':
        return (k, n[1], point(n[2]), point(n[3]), point(n[4]), n[5], ap(n[6]), n[7])
    if k == 'flash':
        return (k, n[1], point(n[2]), ap(n[3]))
    segs = []
    for s in n[2]:
        if s[0] == 'line':
            segs.append(('line', point(s[1]), point(s[2])))
        else:
            segs.append(('arc', point(s[1]), point(s[2]), point(s[3]), s[4], s[5]))
    return (k, n[1], segs)


def scale_norm(n, k):
    return map_norm(n, lambda p: (p[0] * k, p[1] * k), lambda a: scale_ap(a, k))


def move_norm(n, dx, dy):
    mv = lambda p: (p[0] + dx, p[1] + dy)

    def ap(a):
        if n[0] != 'flash' or a[0] != 'M':
            return a
        out = []
        for e in a[1]:
            if e[0] == 'outline':
                out.append((e[0], e[1], tuple(mv(p) for p in e[2])))
            else:
                out.append(e[:2] + (mv(e[2]),) + e[3:])
        return ('M', tuple(out))
    return map_norm(n, mv, ap)
