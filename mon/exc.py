"""Abstract Excellon programs: generator, text emitter, reference interpreter.

A program is a JSON-able dict
  {'units', 'fmt': [a, b], 'zeros': 'leading'|'trailing', 'decl': 'comment'|'unit'|'fmat'|'given',
   'head': [lines], 'tools': [[number, diameter, extras]], 'end': '%'|'M95', 'ops': [...]}
Coordinates are integers in units of the last digit of the format.  Ops:
  ['T', n(, compensation index)]  ['next']  ['xy', x, y, style]  ['R', n, dx, dy, style]  ['slot', x1, y1, x2, y2, style]
  ['G00', x, y, style]  ['G01', x, y, style]  ['M', 'M15'|'M16'|'M17'|'G05']  ['abs']  ['ici', on]  ['raw', text]
style: 0 digits, 1 decimal point, 2 digits with plus sign, 3 G00/G01 on a line of its own
"""
import re
from fractions import Fraction
from mon import gbr
from mon.gbr import val

UNIT_FORMATS = {(4, 2): '0000.00', (3, 3): '000.000', (2, 4): '00.0000'}


def enc(v, prog, style):
    a, b = prog['fmt']
    if style == 1:
        s = str(abs(v)).zfill(b + 1)
        s = s[:-b] + '.' + s[-b:] if b else s + '.'
        return ('-' if v < 0 else '') + s
    return gbr.enc(v, prog['fmt'], 'T' if prog['zeros'] == 'leading' else 'L', plus=style == 2)


def xy(prog, x, y, style):
    s = ''
    if x is not None:
        s += 'X' + enc(x, prog, style)
    if y is not None:
        s += 'Y' + enc(y, prog, style)
    return s


def header(prog):
    out = prog.get('begin', 'M48').split('|')
    out += prog['head']
    a, b = prog['fmt']
    unit = '%s,%s' % ('INCH' if prog['units'] == 'inch' else 'METRIC', 'LZ' if prog['zeros'] == 'leading' else 'TZ')
    d = prog['decl']
    if d == 'comment':
        out.append(';FILE_FORMAT=%d:%d' % (a, b))
    elif d == 'fmat':
        out.append('FMAT,%d' % a)
    elif d == 'unit':
        unit += ',' + UNIT_FORMATS[(a, b)]
    if d == 'given':
        out.append('M72' if prog['units'] == 'inch' else 'M71')
    else:
        out.append(unit)
    out += prog.get('mid', [])
    if prog.get('allegro'):
        return out + holesizes(prog)[0] + [prog['end']]
    for n, dia, extra in prog['tools']:
        out.append('T%0*d%s%s%s' % (2 if prog.get('pad', True) else 1, n, extra[0], 'C' + dia, extra[1]))
    out.append(prog['end'])
    return out


def holesizes(prog):
    """Comments that declare the tools, with the diameters and plating they stand for."""
    out, sizes = [], {}
    for n, dia, _ in prog['tools']:
        q = Fraction(dia) * (Fraction(254, 10) if prog['units'] == 'inch' else 1)       # mm
        if prog['allegro'] == 'MILS':
            q = q * 10000 / 254
        size = '%.6f' % q
        back = Fraction(size) * (1 if prog['allegro'] == 'MM' else Fraction(254, 10000))
        sizes[n] = float(back if prog['units'] == 'metric' else back * 10 / 254)
        out.append('%s Holesize %d. = %s Tolerance = +0.000/-0.000 %s %s Quantity = %d' % (
            ';' if n % 2 else '; T%02d' % n, n, size, ['PLATED', 'NON_PLATED', 'OPTIONAL'][n % 3], prog['allegro'], n))
    return out, sizes


def plating(prog, n):
    return ['plated', 'nonplated', 'optional'][n % 3] if prog.get('allegro') else None


def lines(prog):
    out = header(prog)
    for op in prog['ops']:
        k = op[0]
        if k == 'T':
            out.append(('T%02d' if prog.get('pad', True) or len(op) > 2 else 'T%d') % op[1] + (op[2] if len(op) > 2 else ''))
        elif k == 'xy':
            out.append(xy(prog, *op[1:]))
        elif k == 'R':
            out.append('R%d%s' % (op[1], xy(prog, *op[2:])))
        elif k == 'slot':
            out.append(xy(prog, op[1], op[2], op[5]) + 'G85' + xy(prog, op[3], op[4], op[5]))
        elif k in ('G00', 'G01'):
            if op[3] == 3:
                out.append(k)
                out.append(xy(prog, op[1], op[2], 0))
            else:
                out.append(k + xy(prog, *op[1:]))
        elif k == 'M':
            out.append(op[1])
        elif k == 'abs':
            out.append('G90')
        elif k == 'ici':
            out.append('ICI,%s' % ('ON' if op[1] else 'OFF'))
        elif k == 'raw':
            out.append(op[1])
        elif k == 'next':
            out.append('M00')
        else:
            raise AssertionError(op)
    out.append(prog.get('eop', 'M30'))
    return out


def text(prog):
    return '\n'.join(lines(prog)) + '\n'


def loads(prog, data=None):
    """Reads the program with the code under test."""
    import gerber
    data = text(prog) if data is None else data
    if prog['decl'] != 'given' and prog.get('begin') and 'M48' not in data:
        # (only a program that begins with M48 is recognized without being told)
        from gerber import excellon
        return excellon.loads(data)
    if prog['decl'] == 'given':
        from gerber import excellon
        from gerber.cam import FileSettings
        units = prog['units']
        if sum(prog['fmt']) % 2 and re.search(r'(?m)^M7[12]$', data):
            # (what the program says of its units counts, not what it was given)
            units = 'inch' if units == 'metric' else 'metric'
        return excellon.loads(data, settings=FileSettings(units=units, zeros=prog['zeros'], format=tuple(prog['fmt'])))
    return gerber.loads(data)


# ---------------------------------------------------------------- reference
class Ref(object):
    """What the program means: hits as (kind, diameter, points...), tool numbers."""

    def __init__(self, prog):
        self.prog = prog
        self.tools = {}
        for n, dia, extra in prog['tools']:
            self.tools[n] = float(dia)
        self.known = holesizes(prog)[1] if prog.get('allegro') else None
        if self.known:
            # (tools declared in comments count once they are selected)
            self.tools = {}
        self.pos = (0.0, 0.0)
        self.incremental = any(h == 'ICI,ON' for h in prog['head'] + prog.get('mid', []))
        self.active = None
        self.mode = 'drill'
        self.down = False
        self.hits, self.numbers = [], []
        for op in prog['ops']:
            self.step(op)

    def target(self, x, y, start=None):
        px, py = start or self.pos
        x = None if x is None else val(x, self.prog['fmt'])
        y = None if y is None else val(y, self.prog['fmt'])
        if self.incremental:
            return (px + (x or 0), py + (y or 0))
        return (px if x is None else x, py if y is None else y)

    def select(self, n):
        self.active = n
        if self.known:
            self.tools[n] = self.known[n]

    def add(self, kind, *pts):
        n = 1 if self.active is None else self.active
        self.select(n)
        self.hits.append((kind, self.tools[n]) + pts)
        self.numbers.append(n)

    def step(self, op):
        k = op[0]
        if k == 'T':
            if op[1]:
                self.select(op[1])
        elif k == 'next':
            self.select(self.active + 1)
        elif k == 'abs':
            self.incremental = False
        elif k == 'ici':
            self.incremental = op[1]
        elif k == 'M':
            if op[1] == 'M15':
                self.down = True
            elif op[1] in ('M16', 'M17'):
                self.down = False
            elif op[1] == 'G05':
                self.mode, self.down = 'drill', False
        elif k == 'R':
            dx = val(op[2], self.prog['fmt']) if op[2] is not None else 0
            dy = val(op[3], self.prog['fmt']) if op[3] is not None else 0
            for _ in range(op[1]):
                self.pos = (self.pos[0] + dx, self.pos[1] + dy)
                self.add('hit', self.pos)
        elif k == 'slot':
            start = self.target(op[1], op[2])
            x2 = op[3]
            y2 = op[4]
            end = self.target(x2, y2, start)
            self.add('slot85', start, end)
            self.pos = end
        elif k == 'G00':
            self.mode = 'rout'
            self.pos = self.target(op[1], op[2])
        elif k in ('G01', 'xy'):
            if k == 'G01':
                self.mode = 'linear'
            start, self.pos = self.pos, self.target(op[1], op[2])
            if self.mode == 'linear':
                if self.down:
                    self.add('slotrout', start, self.pos)
            elif self.mode == 'drill':
                self.add('hit', self.pos)


# ---------------------------------------------------------------- observation
def obs(h):
    from gerber.excellon import DrillHit, DrillSlot
    if isinstance(h, DrillSlot):
        kind = 'slot85' if h.slot_type == DrillSlot.TYPE_G85 else 'slotrout'
        return (kind, h.tool.diameter, gbr.pt2(h.start), gbr.pt2(h.end))
    return ('hit', h.tool.diameter, gbr.pt2(h.position))


def prim_obs(p):
    from gerber import primitives as pr
    if isinstance(p, pr.Slot):
        return ('slot', p.diameter, gbr.pt2(p.start), gbr.pt2(p.end))
    if isinstance(p, pr.Drill):
        return ('hit', p.diameter, gbr.pt2(p.position))
    return ('?', type(p).__name__)


def plain(h):
    """Without the way a slot is made."""
    return (h[0][:4],) + h[1:]


def move(h, dx, dy):
    return h[:2] + tuple((p[0] + dx, p[1] + dy) for p in h[2:])


def scale(h, k):
    return (h[0], h[1] * k) + tuple((p[0] * k, p[1] * k) for p in h[2:])


# ---------------------------------------------------------------- generation
COMMENTS = [';', '; layer 1-2', ';#@! TA.AperFunction,Plated', ';Layer_Color=9474304', ';DRILL file {KiCad 4.0.4} date x', '; T99C1 not a tool', ';X1Y1']


def gen_tools(rng, units, n=None):
    nums = sorted(rng.sample(range(1, 40), n or rng.randint(1, 5)))
    if rng.random() < .2:
        rng.shuffle(nums)
    if 1 not in nums:
        nums[0] = 1
    if rng.random() < .1 and len(nums) > 1 and nums[-1] != 1:
        nums[-1] = rng.choice([99, 100, 123])
    out = []
    for k in nums:
        d = gbr.dec(rng, 0.005, 0.3, 4) if units == 'inch' else gbr.dec(rng, 0.1, 7, rng.choice([1, 2, 3]))
        if '.' not in d:
            d += '.0'
        out.append([k, d, ['', '']])
    return out


def gen_prog(rng, n=None, incremental=True, rout=True, slots=True, repeats=True, extras=True, given=True, begin=False):
    units = rng.choice(['inch', 'metric'])
    decl = rng.choice(['comment', 'unit', 'comment', 'fmat'] + (['given'] if given else []))
    if decl == 'unit':
        fmt = rng.choice([(2, 4), (3, 3), (4, 2)])
    elif decl == 'fmat':
        fmt = rng.choice([(2, 4), (1, 5)])
    else:
        fmt = rng.choice([(2, 4), (3, 3), (2, 5), (4, 4), (3, 4), (2, 3), (4, 2), (1, 5), (3, 2)])
    prog = {'units': units, 'fmt': list(fmt), 'zeros': rng.choice(['leading', 'trailing']), 'decl': decl,
            'head': [], 'mid': [], 'tools': gen_tools(rng, units), 'end': rng.choice(['%', '%', 'M95']), 'ops': [],
            'pad': rng.random() < .8}
    if rng.random() < .4:
        prog['head'].append(rng.choice(COMMENTS))
    if rng.random() < .15:
        prog['head'].append('VER,%d' % rng.choice([1, 2]))
    if rng.random() < .15:
        prog['mid'].append(rng.choice(COMMENTS + ['DETECT,ON', 'ATC,ON', ';TYPE=PLATED', ';TYPE=NON_PLATED']))
    if incremental and rng.random() < .2:
        prog['mid'].append(rng.choice(['ICI,ON', 'ICI,OFF']))
    if rng.random() < .2:
        prog['eop'] = 'M30X0Y0' if rng.random() < .3 else 'M30'
    if extras and rng.random() < .4:
        for t in prog['tools']:
            t[2] = gen_extras(rng, prog)
    elif prog['decl'] != 'given' and rng.random() < .15 and all(t[0] < 100 for t in prog['tools']) and not any('TYPE=' in m for m in prog['mid']):
        prog['allegro'] = rng.choice(['MILS', 'MM'])
    ops = prog['ops']
    st = {'inc': 'ICI,ON' in prog['mid'], 'mode': 'drill'}
    nums = [t[0] for t in prog['tools']]
    if rng.random() < .93:
        ops.append(['T', rng.choice(nums)])
    for _ in range(n or rng.randint(2, 30)):
        r = rng.random()
        if r < .12:
            k = rng.choice(nums)
            q = rng.random()
            if q < .1 and k < 100:
                ops.append(['T', k, '%02d' % rng.choice([0, 1, k])])
            elif q < .15 and st['mode'] == 'drill':
                ops.append(['T', 0])
            elif q < .3 and st['mode'] == 'drill' and k + 1 in nums:
                ops.append(['T', k])
                ops.append(['xy'] + list(pair(rng, prog)) + [style(rng)])
                ops.append(['next'])
            else:
                ops.append(['T', k])
        elif r < .16:
            ops.append(['raw', rng.choice(COMMENTS + ['G40', 'G41', 'G42', 'F200', 'M47,text', 'G93X0Y0', 'S60', 'M25'])])
        elif r < .19 and incremental:
            ops.append(rng.choice([['abs'], ['ici', True], ['ici', False]]))
            st['inc'] = ops[-1] == ['ici', True]
        elif r < .26 and repeats and st['mode'] == 'drill':
            x, y = pair(rng, prog, rep=True)
            ops.append(['R', rng.choice([1, 2, 3, 7]), x, y, rng.choice([0, 0, 1])])
        elif r < .34 and slots and st['mode'] == 'drill':
            x, y = pair(rng, prog)
            u, v = pair(rng, prog)
            ops.append(['slot', x, y, u, v, style(rng)])
        elif r < .50 and rout:
            x, y = pair(rng, prog)
            ops.append(['G00', x, y, style(rng, True)])
            st['mode'] = 'rout'
            if rng.random() < .2:
                ops.append(['xy'] + list(pair(rng, prog)) + [style(rng)])
            if rng.random() < .85:
                ops.append(['M', 'M15'])
            for _ in range(rng.randint(0, 3)):
                x, y = pair(rng, prog)
                ops.append(['G01', x, y, style(rng, True)])
                if rng.random() < .4:
                    ops.append(['xy'] + list(pair(rng, prog)) + [style(rng)])
            if rng.random() < .85:
                ops.append(['M', rng.choice(['M16', 'M17'])])
            if rng.random() < .3:
                x, y = pair(rng, prog)
                ops.append(['G01', x, y, style(rng, True)])
            if rng.random() < .9:
                ops.append(['M', 'G05'])
                st['mode'] = 'drill'
        else:
            ops.append(['xy'] + list(pair(rng, prog)) + [style(rng)])
    if begin and rng.random() < .15:
        prog['begin'] = rng.choice(['%', ';HEADER:', ';LEADER: 12|;HEADER: |;CODE  : ASCII', '; BEGIN|%'])
    return prog


def gen_extras(rng, prog):
    """Feed, speed, ... of a tool, before and after the diameter."""
    a, b = prog['fmt']

    def v(hi):
        s = gbr.dec(rng, 0.1, hi, rng.choice([0, 1, 2]))
        return s if '.' in s else s + '.0'
    pre = post = ''
    if rng.random() < .5:
        pre += 'F' + v(90)
    if rng.random() < .5:
        pre += 'S' + v(90)
    if rng.random() < .3:
        post += 'B' + v(90)
    if rng.random() < .3:
        post += 'H' + v(90)
    if rng.random() < .2:
        post += 'Z' + rng.choice(['-', '']) + v(5)
    if rng.random() < .5:
        pre, post = post, pre
    return [pre, post]


def style(rng, g=False):
    return rng.choice([0, 0, 0, 0, 1, 2] + ([3] if g else []))


def pair(rng, prog, rep=False):
    r = rng.random()
    x, y = coord(rng, prog, rep), coord(rng, prog, rep)
    if r < .15:
        return x, None
    if r < .3:
        return None, y
    return x, y


def coord(rng, prog, small=False):
    a, b = prog['fmt']
    top = 10 ** (a + b) - 1
    r = rng.random()
    if small:
        v = rng.randint(-10 ** b * 2, 10 ** b * 2)
    elif r < .1:
        v = rng.choice([0, 1, 10, 100, top, 10 ** b, -1])
    elif r < .5:
        v = rng.randint(-99, 99) * 10 ** max(0, b - 1)
    else:
        v = rng.randint(-top, top)
    if abs(v) > top:
        v = v % top
    if prog['units'] == 'metric' and False:
        v = v
    return v
