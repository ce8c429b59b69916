"""C02: drawing commands produce exactly the image objects they describe."""
from mon import gbr
from mon.core import Violation, require

PID = 'C02'
QUICK, THOROUGH = 12000, 150000
RULE = ('a case is a random RS-274X program (format, units, aperture table, modal draws, arcs, flashes, regions, polarity '
        'and mode changes); non-trivial when the reference interpreter derives at least two objects; every object of the '
        'parsed file is compared with the reference in order')
REQUIRED = {'line': 500, 'arc': 300, 'flash': 300, 'region': 200, 'segment': 500, 'modal_op': 200, 'modal_func': 50}
ASSUMPTIONS = ['absolute notation']


def gen(rng, i):
    macros = []
    if rng.random() < 0.3:
        macros = [('MAC1', ['1,1,0.1,0,0'], None), ('THERM_A', ['21,1,0.2,0.1,0,0,0', '1,0,0.05,0,0'], None)]
    return gbr.gen_prog(rng, macros=macros)


def fixed():
    return []


def signature(case):
    return gbr.text(case) if len([o for o in case['ops'] if o[0] == 'op']) >= 2 else None


def judge(case, mon):
    import gerber
    data = gbr.text(case)
    ref = gbr.Ref(case)
    f = gerber.loads(data)
    got = [gbr.strip_macro(gbr.obs(p)) for p in f.primitives]
    want = [mac(o) for o in ref.objects]
    for k, v in ref.events.items():
        mon.count(k, v)
    for op in case['ops']:
        if op[0] == 'op':
            if op[6] is None:
                mon.count('modal_op')
            if op[1] is None and op[4] is not None:
                mon.count('modal_func')
    d = gbr.diff_lists(want, got, 1e-9)
    require(d is None, 'objects', lambda: '%s\n%s' % (d, data))
    for p, o in zip(f.primitives, want):
        require(bool(p.flashed) == (o[0] == 'flash'), 'flashed', lambda: '%r is %sflashed\n%s' % (o, '' if p.flashed else 'not ', data))
        require(p.units == case['units'], 'units', lambda: '%r has units %r in a %s file' % (p, p.units, case['units']))
    require(f.units == case['units'], 'units', lambda: 'file units %r' % f.units)
    mon.seen('shape', '|'.join(sorted(ref.events)))
    mon.seen('object_sequences', '-'.join(o[0][0] + o[1][0] for o in want)[:60])


def mac(o):
    if o[0] == 'flash' and o[3][0] == 'M':
        return o[:3] + (('M',),)
    return o
