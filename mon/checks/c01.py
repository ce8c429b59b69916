"""C01: coordinate numbers survive encoding and decoding exactly."""
from decimal import Decimal, ROUND_HALF_EVEN

from mon.core import Violation, require

PID = 'C01'
QUICK, THOROUGH = 15000, 120000
RULE = ('a case is a number format (1-6 integer, 0-7 decimal digits), a zero-suppression mode and a batch of '
        'scaled integers inside the format range plus off-grid floats; non-trivial when some value is non-zero; '
        'the oracle is integer/Decimal arithmetic on the digit string')
REQUIRED = {'write_parse': 1000, 'parse_digits': 1000, 'file_gerber': 200, 'file_excellon': 200, 'offgrid': 200}
ASSUMPTIONS = ['values lie inside the range the declared format can represent']

SUP = ('leading', 'trailing', 'none')


def gen(rng, i):
    a = rng.randint(1, 6)
    b = rng.randint(0, 7)
    n = a + b
    vals = []
    for _ in range(rng.randint(3, 10)):
        kind = rng.randint(0, 6)
        top = 10 ** n - 1
        if kind == 0:
            v = rng.randint(0, top)
        elif kind == 1:
            v = rng.randint(0, 10 ** rng.randint(1, n) - 1)
        elif kind == 2:
            v = rng.randint(0, 10 ** rng.randint(1, n) - 1) * 10 ** rng.randint(0, n)
        elif kind == 3:
            v = rng.choice([0, 1, top, 10 ** (n - 1), 10 ** b, max(10 ** b - 1, 0), 10 ** b + 1])
        elif kind == 4:
            v = 10 ** rng.randint(0, n - 1)
        else:
            v = rng.randint(0, 9999)
        v = v % (top + 1)
        if rng.random() < 0.4:
            v = -v
        vals.append(v)
    off = [rng.uniform(-1, 1) * 10 ** rng.randint(-b - 2, a) for _ in range(4)]
    dec = ['%s%d.%s' % (rng.choice(['', '-', '+']), rng.randint(0, 999),
                        ''.join(rng.choice('0123456789') for _ in range(rng.randint(0, 6)))) for _ in range(2)]
    return {'fmt': [a, b], 'sup': rng.choice(SUP), 'vals': vals, 'off': off, 'dec': dec,
            'plus': rng.random() < 0.2, 'chan': rng.choice(['gerber', 'excellon', 'none', 'none'])}


def fixed():
    out = []
    for a in range(1, 7):
        for b in range(0, 8):
            for s in SUP:
                top = 10 ** (a + b) - 1
                out.append({'fmt': [a, b], 'sup': s, 'vals': sorted(set(
                    [0, 1, -1, top, -top] + [10 ** k for k in range(a + b)] + [-(10 ** k) for k in range(a + b)] +
                    [top // 9, top // 9 * 5])), 'off': [], 'dec': ['1.5', '-0.25', '.5', '-.5', '+3.', '0.0'],
                    'plus': False, 'chan': 'none'})
    return out


def signature(case):
    return '%s%s%s' % (case['fmt'], case['sup'], case['vals']) if any(case['vals']) else None


def exact(v, b):
    return float(Decimal(v).scaleb(-b))


def encode(v, a, b, sup, plus=False):
    """Independent encoder: the digit string of integer v in format a:b."""
    s = str(abs(v)).zfill(a + b)
    if sup == 'leading':
        s = s.lstrip('0') or '0'
    elif sup == 'trailing':
        s = s.rstrip('0') or '0'
    return ('-' if v < 0 else '+' if plus else '') + s


def judge(case, mon):
    from gerber.utils import parse_gerber_value, write_gerber_value
    a, b = case['fmt']
    sup = case['sup']
    fmt = (a, b)
    for v in case['vals']:
        want = exact(v, b)
        # decoding an independently produced digit string
        for s in SUP:
            text = encode(v, a, b, s, case['plus'])
            got = parse_gerber_value(text, fmt, s)
            mon.count('parse_digits')
            require(got == want, 'parse', lambda: 'parse(%r, %s, %s) = %r, expected %r' % (text, fmt, s, got, want))
        text = write_gerber_value(want, fmt, sup)
        mon.count('write_parse')
        back = parse_gerber_value(text, fmt, sup)
        require(back == want, 'roundtrip', lambda: 'write(%r, %s, %s) = %r, parses as %r' % (want, fmt, sup, text, back))
        if v == 0:
            require(text.strip('0') == '', 'write', lambda: 'zero written as %r' % text)
        elif sup != 'none' or True:
            digits = text.lstrip('-')
            require(digits.isdigit() and len(digits) <= a + b and (text[0] == '-') == (v < 0), 'write',
                    lambda: 'write(%r, %s, %s) = %r is not a digit string of at most %d digits' % (want, fmt, sup, text, a + b))
            if sup == 'leading':
                require(digits[0] != '0', 'write', lambda: 'leading zeros kept: %r' % text)
            elif sup == 'trailing':
                require(digits[-1] != '0', 'write', lambda: 'trailing zeros kept: %r' % text)
            else:
                require(len(digits) == a + b, 'write', lambda: 'unsuppressed %r has not %d digits' % (text, a + b))
    lim = Decimal(10) ** a - Decimal(10) ** -b
    for f in case['off']:
        q = Decimal(f).quantize(Decimal(1).scaleb(-b), rounding=ROUND_HALF_EVEN)
        if abs(q) > lim:
            continue
        text = write_gerber_value(f, fmt, sup)
        got = parse_gerber_value(text, fmt, sup)
        mon.count('offgrid')
        require(abs(Decimal(got) - Decimal(f)) <= Decimal('0.5000001').scaleb(-b) + abs(Decimal(f)) * Decimal('1e-15'),
                'rounding', lambda: 'write(%r, %s, %s) = %r parses as %r: more than half a unit off' % (f, fmt, sup, text, got))
    for d in case['dec']:
        got = parse_gerber_value(d, fmt, sup)
        require(got == float(d), 'decimal', lambda: 'explicit decimal %r parsed as %r' % (d, got))
        mon.count('explicit_decimal')
    mon.seen('formats', '%d:%d:%s' % (a, b, sup))
    if case['chan'] == 'gerber':
        via_gerber(case, mon)
    elif case['chan'] == 'excellon':
        via_excellon(case, mon)


def via_gerber(case, mon):
    import gerber
    a, b = case['fmt']
    if b > 7:
        return
    sup = case['sup']
    vals = case['vals']
    pts = list(zip(vals, vals[1:] + vals[:1]))
    z = {'leading': 'L', 'trailing': 'T', 'none': 'D'}[sup]
    lines = ['%%FS%sAX%d%dY%d%d*%%' % (z, a, b, a, b), '%MOMM*%', '%ADD10C,0.1*%', 'D10*']
    for x, y in pts:
        lines.append('X%sY%sD03*' % (encode(x, a, b, sup, case['plus']), encode(y, a, b, sup)))
    lines.append('M02*')
    f = gerber.loads('\n'.join(lines) + '\n')
    prims = list(f.primitives)
    require(len(prims) == len(pts), 'file', lambda: '%d flashes for %d coordinates' % (len(prims), len(pts)))
    for p, (x, y) in zip(prims, pts):
        mon.count('file_gerber')
        require(tuple(p.position) == (exact(x, b), exact(y, b)), 'file',
                lambda: 'flash at %r, coordinate data says %r (format %d:%d %s)' % (p.position, (exact(x, b), exact(y, b)), a, b, sup))


def via_excellon(case, mon):
    import gerber
    a, b = case['fmt']
    sup = case['sup']
    if sup == 'none' or b == 0:
        return
    vals = case['vals']
    pts = list(zip(vals, vals[1:] + vals[:1]))
    z = 'TZ' if sup == 'leading' else 'LZ'     # Excellon says which zeros are kept
    lines = ['M48', ';FILE_FORMAT=%d:%d' % (a, b), 'METRIC,%s' % z, 'T01C0.5', '%', 'T01']
    for x, y in pts:
        lines.append('X%sY%s' % (encode(x, a, b, sup), encode(y, a, b, sup)))
    lines.append('M30')
    f = gerber.loads('\n'.join(lines) + '\n', filename='a.drl')
    hits = list(f.hits)
    require(len(hits) == len(pts), 'file', lambda: '%d hits for %d coordinates' % (len(hits), len(pts)))
    for h, (x, y) in zip(hits, pts):
        mon.count('file_excellon')
        require(tuple(h.position) == (exact(x, b), exact(y, b)), 'file',
                lambda: 'hit at %r, coordinate data says %r (format %d:%d %s)' % (h.position, (exact(x, b), exact(y, b)), a, b, z))
