"""C14: unit conversion of a drill file rescales hits and tools once and only once."""
from mon import exc, gbr
from mon.core import require
from mon.checks import c12, c13

PID = 'C14'
QUICK, THOROUGH = 12000, 150000
RULE = ('a case is a random Excellon program with a history of 1-6 conversions, offsets, queries, conversions of single hits and writes; hits, tools, objects, boxes, path lengths and the '
        'file written and read back are compared with the scaled design; non-trivial when there are at least two hits or slots')
REQUIRED = {'converted': 4000, 'noop': 2000, 'roundtrip': 1000, 'written': 1500, 'hits': 20000, 'slots': 3000, 'decl:given': 300, 'single': 300}
ASSUMPTIONS = ['the file declares its number format, or the same settings are given when reading back', 'what is written fits the format']


def gen(rng, i):
    prog = exc.gen_prog(rng)
    if rng.random() < .5:
        # few integer digits used, so that the design still fits after conversion
        top = 10 ** (sum(prog['fmt']) - 2)
        for o in prog['ops']:
            for j in range(1, len(o)):
                if isinstance(o[j], int) and o[0] in ('xy', 'slot', 'G00', 'G01') and j < len(o) - 1:
                    o[j] = o[j] % top
                if o[0] == 'R' and j in (2, 3) and o[j] is not None:
                    o[j] = o[j] % (top // 100 or 1)
    return {'prog': prog, 'steps': [rng.choice(['to_inch', 'to_metric', 'to_inch', 'to_metric', 'query', 'write', 'offset', 'hit']) for _ in range(rng.randint(1, 6))]}


def signature(case):
    return repr(case) if len(exc.Ref(case['prog']).hits) > 1 else None


def compare(f, hits, tools, units, what, mon):
    k = 25.4 if units == 'metric' else 1
    tol = 1e-7 * k
    require(f.units == units and f.settings.units == units, 'units', lambda: 'units %r, expected %r\n%s' % (f.units, units, what()))
    d = gbr.diff_lists(hits, [exc.obs(h) for h in f.hits], tol)
    require(d is None, 'hits', lambda: '%s\n%s' % (d, what()))
    p = f.primitives
    d = gbr.diff_lists([exc.plain(h) for h in hits], [exc.prim_obs(x) for x in p], tol)
    require(d is None, 'objects', lambda: '%s\n%s' % (d, what()))
    require(all(x.units == units for x in p), 'object-units', lambda: 'units of objects\n' + what())
    got = dict((n, t.diameter) for n, t in f.tools.items())
    require(set(got) == set(tools) and all(abs(got[n] - tools[n]) < tol for n in got), 'tools', lambda: 'tools %r, expected %r\n%s' % (got, tools, what()))
    require(all(t.settings.units == units for t in f.tools.values()), 'tool-units', lambda: 'units of tools\n' + what())
    if hits:
        from mon import prims
        w = prims.union([prims.grow(prims.pts_box(h[2:]), h[1] / 2., h[1] / 2.) for h in hits])
        require(gbr.close(w, f.bounding_box, tol), 'bounds', lambda: 'box %r, expected %r\n%s' % (f.bounding_box, w, what()))
    numbers = [h.tool.number for h in f.hits]
    for n in tools:
        w = c13.travel([h for h, m in zip(hits, numbers) if m == n])
        g = f.path_length(n) or 0
        require(abs(g - w) <= tol * max(10, len(hits)), 'path-length', lambda: 'path length of tool %d is %r, expected %r\n%s' % (n, g, w, what()))


def judge(case, mon):
    prog = case['prog']
    ref = exc.Ref(prog)
    f = exc.loads(prog)
    mon.count('decl:' + prog['decl'])
    data = exc.text(prog)
    what = lambda: '%r\n%s' % (case['steps'], data)
    hits, tools, units = list(ref.hits), dict(ref.tools), prog['units']
    mon.count('hits', len(hits))
    mon.count('slots', sum(1 for h in hits if h[0] != 'hit'))
    compare(f, hits, tools, units, what, mon)
    seen = [units]
    shift = (0.25, -0.5)
    for s in case['steps']:
        if s in ('to_inch', 'to_metric'):
            new = s[3:]
            getattr(f, s)()
            if new == units:
                mon.count('noop')
            else:
                mon.count('converted')
                if new in seen:
                    mon.count('roundtrip')
                k = 25.4 if new == 'metric' else 1 / 25.4
                hits = [exc.scale(h, k) for h in hits]
                tools = dict((n, d * k) for n, d in tools.items())
                units = new
                seen.append(new)
        elif s == 'offset':
            f.offset(*shift)
            hits = [exc.move(h, *shift) for h in hits]
        elif s == 'hit':
            # converting a hit to the units of the file changes nothing
            for h in f.hits[:3]:
                getattr(h, 'to_' + units)()
                mon.count('single')
        elif s == 'write' and c12.fits(f):
            mon.count('written')
            out = c12.write(f)
            g = c12.reload(prog, f, out)
            res = .51 * 10 ** -f.format[1] + 1e-9
            require(g.units == units, 'written-units', lambda: 'read back in %r, expected %r\n%s\n%s' % (g.units, units, out, what()))
            want, got = {}, c12.by_tool(g)
            for h, n in zip(hits, ref.numbers):
                want.setdefault(n, []).append(h)
            require(set(want) == set(got), 'written-hits', lambda: 'tools %r, read back %r\n%s\n%s' % (sorted(want), sorted(got), out, what()))
            for n in want:
                d = gbr.diff_lists([h[:1] + h[2:] for h in want[n]], [h[:1] + h[2:] for h in got[n]], res)
                require(d is None, 'written-hits', lambda: 'tool %d: %s\n%s\n%s' % (n, d, out, what()))
                require(abs(g.tools[n].diameter - tools[n]) < 1e-6, 'written-tools', lambda: 'tool %d %r, expected %r\n%s\n%s' % (n, g.tools[n].diameter, tools[n], out, what()))
        compare(f, hits, tools, units, what, mon)
