"""Random aperture macros for whole-file workloads."""
import math

NAMES = ['CIRC', 'Cx', 'X', 'Q', 'MACRO1', 'THERM_A', 'PAD-1', 'Rounded$R', 'OC8', 'DONUT.2', '_x', 'Box+A', 'AM', 'ROUNDRECT']


def n(rng, lo, hi, places=3):
    return '%.*f' % (places, rng.uniform(lo, hi))


def rot(rng):
    return rng.choice(['0', '0', '45', '90', '-30', '12.5', '270'])


def element(rng, expr, exp):
    """expr(lo, hi) returns modifier text for a positive length."""
    code = rng.choice(['1', '20', '2', '21', '4', '5', '7', '1', '20', '21', '4', '5', '7', rng.choice(['6', '22'])])
    x, y = n(rng, -1, 1), n(rng, -1, 1)
    if rng.random() < 0.4:
        x = y = '0'
    if code == '1':
        return [code, exp, expr(.2, 1), x, y] + ([rot(rng)] if rng.random() < .3 else [])
    if code in ('2', '20'):
        return [code, exp, expr(.1, .6), n(rng, -1, -.2), y, expr(.2, 1), n(rng, -1, 1), rot(rng)]
    if code in ('21', '22'):
        return [code, exp, expr(.2, 1), expr(.2, 1), x, y, rot(rng)]
    if code == '4':
        k = rng.randint(3, 5)
        pts = []
        for i in range(k):
            a = (i + rng.uniform(.1, .6)) * 2 * math.pi / k
            r = rng.uniform(.5, 1)
            pts.append(('%.4f' % (r * math.cos(a)), '%.4f' % (r * math.sin(a))))
        if rng.random() < .4:
            pts[0] = (expr(1, 1.2), pts[0][1])
        pts.append(pts[0])
        return [code, exp, str(k)] + [c for p in pts for c in p] + [rot(rng)]
    if code == '5':
        return [code, exp, str(rng.randint(3, 12)), x, y, expr(.3, 1), rot(rng)]
    if code == '6':
        # the rings stop before they get so small that rounding decides
        return [code, x, y, expr(1.3, 1.8, True), n(rng, .05, .12), n(rng, .05, .12), rng.choice('0122'), n(rng, .03, .1), n(rng, .5, 2), rot(rng)]
    return [code, x, y, expr(1, 1.5, True), n(rng, 0, .8), n(rng, .05, .4), rot(rng)]


def gen_macro(rng, name, scale=1.0, params=True):
    """(name, blocks, parameter maker or None)"""
    k = rng.randint(1, 3) if params and rng.random() < .7 else 0
    blocks = []
    if rng.random() < .3:
        blocks.append('0 ' + rng.choice(['Rectangle, w=1', 'note 5', 'x']))
    nvar = k
    if k and rng.random() < .4:
        nvar = k + 1
        blocks.append('$%d=%s' % (nvar, rng.choice(['$1x0.75', '$1/2+%s' % ('%g' % (.1 * scale)), '($1+$%d)/2' % k])))

    def expr(lo, hi, atleast=False):
        if atleast:
            return '%s+$%d' % (n(rng, lo * scale, hi * scale), rng.randint(1, nvar)) if nvar and rng.random() < .5 else n(rng, lo * scale, hi * scale)
        if nvar and rng.random() < .6:
            v = '$%d' % rng.randint(1, nvar)
            return rng.choice([v, v, '%sx1.25' % v, '%s+%s' % (v, '%g' % (.25 * scale)), '(%s+$1)/2' % v, '%s/4+%s' % (v, v)])
        return n(rng, lo * scale, hi * scale)

    for _ in range(rng.randint(1, 4) if rng.random() < .97 else 0):
        if rng.random() < .04:
            # an element of a kind that is not known
            blocks.append(rng.choice(['9', '99', '10', '40', '55', '23', '201', '8', '12']) + ',' + rng.choice(['1', '0.5,1', '1,0.2,0,0']))
        e = element(rng, expr, rng.choice('1110') if blocks and blocks[-1][0] not in '0$' else '1')
        if scale != 1.0:
            e = rescale(e, scale)
        blocks.append(','.join(e))
    if not blocks:
        blocks.append('0 nothing')
    make = None
    if k:
        def make(r):
            return [n(r, .2 * scale, 1.0 * scale) for _ in range(k)]
    return name, blocks, make


def rescale(e, scale):
    """Scales the plain numbers among the lengths."""
    lengths = {'1': range(3, 5), '2': range(3, 7), '20': range(3, 7), '21': range(4, 6), '22': range(4, 6), '6': (1, 2, 4, 5, 7, 8), '4': range(3, len(e) - 1),
               '5': range(3, 5), '7': (1, 2, 4, 5)}[e[0]]
    out = list(e)
    for i in lengths:
        try:
            if e[0] == '4' and abs(float(e[i])) > 1.01 * max(1, scale) - .01:
                continue
            if e[0] in ('2', '20') and i == 5:
                continue
            out[i] = '%.4f' % (float(e[i]) * scale)
        except ValueError:
            pass
    if e[0] == '4':
        # keep the outline closed
        out[-3:-1] = out[3:5]
    return out


def gen_macros(rng, scale=1.0, params=True):
    names = list(NAMES)
    rng.shuffle(names)
    return [gen_macro(rng, nm, scale, params) for nm in names[:rng.randint(1, 3)]]
