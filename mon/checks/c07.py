"""C07: writing a Gerber file and reading it back preserves the image."""
import os
from mon import gbr, macros
from mon.core import require

PID = 'C07'
QUICK, THOROUGH = 5000, 60000
RULE = ('a case is a random RS-274X program (all objects, macros with and without parameters, deprecated statements) and a '
        'target coordinate format; the file is written, read back, compared object by object and written again; '
        'non-trivial when it has at least two objects')
REQUIRED = {'object:line': 2000, 'object:arc': 500, 'object:flash': 2000, 'object:region': 500, 'macro_flash': 500,
            'other_format': 300, 'fewer_integer_digits': 50, 'rewritten': 1000}
ASSUMPTIONS = ['the target format has at least the decimals of the source format and the integer digits the coordinates need', 'absolute notation']


def gen_file(rng, **kw):
    units = kw.pop('units', None) or rng.choice(['inch', 'metric'])
    ms = macros.gen_macros(rng, 1.0 if units == 'inch' else 10.0) if rng.random() < .5 else []
    prog = gbr.gen_prog(rng, units=units, macros=ms, **kw)
    return prog


def gen(rng, i):
    prog = gen_file(rng)
    target = None
    if rng.random() < 0.7:
        a, b = prog['fmt']
        a = min(6, a + rng.randint(0, 2))
        if rng.random() < .4:
            # no more integer digits than needed
            top = max([1] + [abs(v) for o in prog['ops'] if o[0] == 'op' for v in o[2:6] if v])
            a = max(1, len(str(top)) - b)
        target = {'fmt': [a, min(6, b + rng.randint(0, 2))], 'zs': rng.choice(['leading', 'trailing'])}
    return {'prog': prog, 'target': target}


def signature(case):
    t = gbr.text(case['prog'])
    return t + repr(case['target']) if len([o for o in case['prog']['ops'] if o[0] == 'op']) >= 2 else None


def written(f, settings=None, name='out.gbr'):
    f.write(name, settings)
    with open(name) as fp:
        data = fp.read()
    os.remove(name)
    return data


def judge(case, mon):
    import gerber
    from gerber.cam import FileSettings
    data = gbr.text(case['prog'])
    f = gerber.loads(data)
    want = [gbr.obs(p) for p in f.primitives]
    for o in want:
        mon.count('object:' + o[0])
        if o[0] == 'flash' and o[3][0] == 'M':
            mon.count('macro_flash')
    settings = None
    t = case['target']
    if t:
        settings = FileSettings(units=case['prog']['units'], format=tuple(t['fmt']), zero_suppression=t['zs'])
        mon.count('other_format')
        mon.count('fewer_integer_digits', t['fmt'][0] < case['prog']['fmt'][0])
    out = written(f, settings)
    g = gerber.loads(out)
    d = gbr.diff_lists(want, [gbr.obs(p) for p in g.primitives], 2e-9)
    require(d is None, 'image', lambda: '%s\n%s\n--- written as\n%s' % (d, data, out))
    require(g.units == case['prog']['units'], 'units', lambda: 'units %r\n%s' % (g.units, out))
    for p in g.primitives:
        require(p.units == g.units, 'units', lambda: 'object units %r\n%s' % (p.units, out))
    out2 = written(g, settings)
    mon.count('rewritten')
    require(out2 == out, 'stable', lambda: 'second write differs\n%s\n---\n%s' % (out, out2))
