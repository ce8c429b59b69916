"""C30: settings stay consistent and take no impossible values."""
from mon import gbr, exc
from mon.core import require
from mon.checks.c07 import gen_file

PID = 'C30'
QUICK, THOROUGH = 40000, 400000
RULE = ('a case is the construction of a settings object from random (also impossible) arguments and a history of assignments by attribute and by key, valid and not, compared with a model; or a '
        'Gerber or drill file whose settings are compared with what it declares, before and after conversions; non-trivial when at least one setting is given')
REQUIRED = {'made': 8000, 'refused': 3000, 'set:item': 10000, 'set:attr': 5000, 'set:refused': 5000, 'equal': 5000, 'unequal': 5000, 'file:gerber': 800, 'file:drill': 800, 'converted': 1500, 'unknown_key': 1000, 'neighbour': 20000}
ASSUMPTIONS = ['a zero suppression of none, as Eagle writes it, counts as leading', 'values assigned as attributes are valid ones']
GOOD = {'notation': ['absolute', 'incremental'], 'units': ['inch', 'metric'], 'zero_suppression': ['leading', 'trailing'], 'zeros': ['leading', 'trailing'],
        'format': [[2, 4], [2, 5], [3, 3], [4, 2], [0, 6], [3, 4], [2, 3], [4, 3]], 'angle_units': ['degrees', 'radians']}
BAD = {'notation': ['relative', 'ABSOLUTE', '', None], 'units': ['mm', 'INCH', '', None, 'inches'], 'zero_suppression': ['Leading', '', 'both'], 'zeros': ['Leading', '', 'both', 'none'],
       'format': [[2], [2, 4, 1], []], 'angle_units': ['deg', '', None]}
KEYS = sorted(GOOD)


def gen(rng, i):
    if i % 6 == 0:
        kind = rng.choice(['gerber', 'drill'])
        return {'kind': kind, 'prog': gen_file(rng, n=rng.randint(1, 4)) if kind == 'gerber' else exc.gen_prog(rng, n=rng.randint(1, 4)),
                'steps': [rng.choice(['inch', 'metric']) for _ in range(rng.randint(1, 4))]}
    args = {}
    for k in KEYS:
        if rng.random() < .45:
            args[k] = rng.choice(GOOD[k])
    if rng.random() < .6 and 'zeros' in args and 'zero_suppression' in args:
        del args[rng.choice(['zeros', 'zero_suppression'])]
    if rng.random() < .25:
        k = rng.choice(KEYS)
        args[k] = rng.choice(BAD[k])
    steps = []
    for _ in range(rng.randint(0, 6)):
        k = rng.choice(KEYS)
        r = rng.random()
        if r < .25:
            steps.append(['item', k, rng.choice(BAD[k]), False])
        elif r < .65:
            steps.append(['item', k, rng.choice(GOOD[k]), True])
        elif r < .92:
            steps.append(['attr', k, rng.choice(GOOD[k]), True])
        else:
            steps.append(['unknown', rng.choice(['unit', 'Zeros', '', 'angle']), 'inch', False])
    return {'kind': 'object', 'args': args, 'steps': steps}


def signature(case):
    return repr(case) if case['kind'] != 'object' or case['args'] or case['steps'] else None


def other(z):
    return 'leading' if z == 'trailing' else 'trailing'


def model(args):
    """The settings, or None when they must be refused, or 'open'."""
    for k in ('notation', 'units', 'angle_units'):
        if k in args and args[k] not in GOOD[k]:
            return None
    if 'format' in args and len(args['format']) != 2:
        return None
    m = {'notation': args.get('notation', 'absolute'), 'units': args.get('units', 'inch'), 'format': tuple(args.get('format', (2, 5))), 'angle_units': args.get('angle_units', 'degrees')}
    zs, z = args.get('zero_suppression'), args.get('zeros')
    if zs is None and z is None:
        zs = 'trailing'
    elif zs is not None and zs not in GOOD['zeros'] or z is not None and zs is not None and z not in GOOD['zeros']:
        # other words are taken for leading, or refused
        return 'open'
    elif zs is not None and z is not None:
        if zs == z:
            return None
    elif zs is None:
        if z not in GOOD['zeros']:
            return None
        zs = other(z)
    m['zero_suppression'], m['zeros'] = zs, other(zs)
    return m


def same(s, m, what):
    for k in KEYS:
        for v, how in ((getattr(s, k), 'attribute'), (s[k], 'item')):
            v = tuple(v) if k == 'format' else v
            require(v == m[k], 'value', lambda: '%s %s is %r, not %r after %r' % (how, k, v, m[k], what))


def judge(case, mon):
    if case['kind'] != 'object':
        return judge_file(case, mon)
    from gerber.cam import FileSettings
    args = dict((k, tuple(v) if k == 'format' else v) for k, v in case['args'].items())
    m = model(args)
    try:
        s = FileSettings(**args)
    except ValueError:
        require(m is None or m == 'open', 'refused', lambda: 'refused settings %r' % args)
        mon.count('refused')
        return
    require(m is not None, 'accepted', lambda: 'accepted settings %r' % args)
    if m == 'open':
        require(s.zeros in GOOD['zeros'] and s.zero_suppression == other(s.zeros), 'zeros', lambda: '%r gives zeros %r, suppression %r' % (args, s.zeros, s.zero_suppression))
        return
    mon.count('made')
    same(s, m, args)
    done = [args]
    for how, k, v, ok in case['steps']:
        if k == 'format':
            v = tuple(v)
        done.append((how, k, v))
        before = FileSettings(m['notation'], m['units'], m['zero_suppression'], m['format'], angle_units=m['angle_units'])
        require(before == s and not (before != s), 'equal', lambda: 'equal settings compare unequal after %r' % (done,))
        mon.count('equal')
        if k in KEYS:
            # settings that differ in one value alone
            for v2 in GOOD[k]:
                alone = dict(m, **{k: tuple(v2) if k == 'format' else v2})
                if k in ('zeros', 'zero_suppression'):
                    alone['zero_suppression'] = v2 if k == 'zero_suppression' else other(v2)
                one = FileSettings(alone['notation'], alone['units'], alone['zero_suppression'], alone['format'], angle_units=alone['angle_units'])
                differ = alone['zero_suppression'] != m['zero_suppression'] if k == 'zeros' else alone[k] != m[k]
                mon.count('neighbour', differ)
                require((one == s) == (not differ) and (s == one) == (not differ), 'neighbour', lambda: 'settings which %s in %s compare %s: %r, %r' % ('differ' if differ else 'agree', k, 'equal' if one == s else 'unequal', alone, m))
        if how == 'unknown':
            mon.count('unknown_key')
            for f in (lambda: s[k], lambda: s.__setitem__(k, v)):
                try:
                    f()
                except KeyError:
                    continue
                require(False, 'unknown_key', 'no KeyError for the key %r' % k)
        elif not ok:
            mon.count('set:refused')
            try:
                s[k] = v
            except ValueError:
                pass
            else:
                require(False, 'set_accepted', '%s = %r was accepted' % (k, v))
        else:
            mon.count('set:' + how)
            if how == 'item':
                s[k] = v
            else:
                setattr(s, k, v)
            m[k] = v
            if k in ('zeros', 'zero_suppression'):
                m['zeros' if k == 'zero_suppression' else 'zero_suppression'] = other(v)
        same(s, m, done)
        now = FileSettings(m['notation'], m['units'], m['zero_suppression'], m['format'], angle_units=m['angle_units'])
        changed = any(before[q] != now[q] for q in KEYS)
        require((before == s) == (not changed), 'unequal', lambda: 'settings before and after compare %s after %r' % ('equal' if before == s else 'unequal', done))
        mon.count('unequal', changed)


def judge_file(case, mon):
    import gerber
    prog = case['prog']
    if case['kind'] == 'gerber':
        f = gerber.loads(gbr.text(prog))
    else:
        f = exc.loads(prog)
    mon.count('file:' + case['kind'])
    want = {'units': prog['units'], 'format': tuple(prog['fmt'])}
    if case['kind'] == 'drill':
        want['zeros'] = prog['zeros']
        want['zero_suppression'] = other(want['zeros'])
    else:
        # (with all digits given both readings are the same)
        want['zero_suppression'] = {'L': 'leading', 'T': 'trailing', 'D': f.settings.zero_suppression}[prog['zs']]
        want['zeros'] = other(want['zero_suppression'])

    def check(what):
        s = f.settings
        for k in sorted(want):
            v = tuple(s[k]) if k == 'format' else s[k]
            require(v == want[k], 'file_' + k, lambda: '%s of the settings is %r, not %r %s of\n%s' % (k, v, want[k], what, gbr.text(prog) if case['kind'] == 'gerber' else exc.text(prog)))
        require(f.zeros == other(f.zero_suppression), 'file_zeros', lambda: 'the file has zero suppression %r and zeros %r %s' % (f.zero_suppression, f.zeros, what))
        require(f.units == want['units'] and tuple(f.format) == want['format'] and (prog.get('zs') == 'D' or f.zero_suppression == want['zero_suppression']), 'file',
                lambda: 'the file has units %r, format %r, zero suppression %r, not %r %s' % (f.units, f.format, f.zero_suppression, want, what))
    check('after reading')
    for u in case['steps']:
        mon.count('converted')
        (f.to_inch if u == 'inch' else f.to_metric)()
        want['units'] = u
        check('after to ' + u)
        # settings taken from a file are the user's own
        s = f.settings
        s['units'] = 'metric' if u == 'inch' else 'inch'
        s['zeros'] = other(s['zeros'])
        s['format'] = (1, 1)
        check('after a change of a copy of its settings')
