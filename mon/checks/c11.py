"""C11: drill and rout programs produce exactly the hits and slots they describe."""
from mon import exc, gbr
from mon.core import require

PID = 'C11'
QUICK, THOROUGH = 16000, 200000
RULE = ('a case is a random Excellon program (header declarations, tools, drill, repeat, slot and rout commands, absolute and '
        'incremental, digits and decimal points); hits, tools, objects and units are compared with an independent interpreter; '
        'non-trivial when at least two hits or slots result')
REQUIRED = {'hit': 20000, 'slot85': 3000, 'slotrout': 3000, 'incremental': 500, 'decimal': 2000, 'repeat': 2000, 'repeat:long': 100,
            'begin:%': 100, 'begin:;': 300, 'decl:comment': 500, 'decl:unit': 500, 'decl:fmat': 500, 'decl:given': 500, 'default_tool': 200, 'allegro': 200, 'external_tools': 200}
ASSUMPTIONS = ['X precedes Y', 'tools are declared in the header', 'units are declared before tools']


def gen(rng, i):
    prog = exc.gen_prog(rng, begin=True)
    if rng.random() < .1 and not prog.get('allegro') and prog['ops'][0][0] == 'T':
        prog['ext'] = True
    reps = [o for o in prog['ops'] if o[0] == 'R']
    if reps and rng.random() < .15:
        rng.choice(reps)[1] = rng.choice([10, 99, 100, 150, 1000])
    return prog


def signature(prog):
    return exc.text(prog) if len(exc.Ref(prog).hits) > 1 else None


def judge(prog, mon):
    ref = exc.Ref(prog)
    data = exc.text(prog)
    tools, hits = dict(ref.tools), list(ref.hits)
    if prog.get('ext'):
        # the tools come from somewhere else and serve several files
        from gerber import excellon
        from gerber.cam import FileSettings
        from gerber.excellon_statements import ExcellonTool
        mon.count('external_tools')
        ext = dict((n, ExcellonTool(None, number=n, diameter=float(dia), plated='plated')) for n, dia, _ in prog['tools'])
        data = exc.text(dict(prog, tools=[]))
        st = FileSettings(units=prog['units'], zeros=prog['zeros'], format=tuple(prog['fmt']))
        f = excellon.loads(data, settings=st, tools=ext)
        counts = f.hit_count()
        other = excellon.loads(data, settings=st, tools=ext)
        other.to_inch()
        other.to_metric()
        other.offset(1, 1)
        require(f.hit_count() == counts and other.hit_count() == counts, 'shared-tools', lambda: 'hit counts %r, %r for the next file, then %r\n%s' % (counts, other.hit_count(), f.hit_count(), data))
        tools = None
    else:
        f = exc.loads(prog, data)
    if prog.get('allegro'):
        mon.count('allegro')
        for n, t in f.tools.items():
            require(t.plated == exc.plating(prog, n), 'plated', lambda: 'tool %d plated %r, expected %r\n%s' % (n, t.plated, exc.plating(prog, n), data))
    mon.count('decl:' + prog['decl'])
    mon.count('begin:' + prog.get('begin', 'M48')[0])
    got = [exc.obs(h) for h in f.hits]
    for h in hits:
        mon.count(h[0])
    for o in prog['ops']:
        if o[0] == 'R':
            mon.count('repeat')
            mon.count('repeat:long', o[1] > 99)
        if o[0] == 'xy' and o[3] == 1:
            mon.count('decimal')
        if o[0] == 'ici' and o[1]:
            mon.count('incremental')
    if hits and not any(o[0] == 'T' for o in prog['ops'][:1]):
        mon.count('default_tool')
    tol = 1e-8
    d = gbr.diff_lists(hits, got, tol)
    require(d is None, 'hits', lambda: '%s\n%s' % (d, data))
    nums = [h.tool.number for h in f.hits]
    require(nums == ref.numbers, 'tool-number', lambda: 'tools of the hits %r, expected %r\n%s' % (nums, ref.numbers, data))
    d = gbr.diff_lists([exc.plain(h) for h in hits], [exc.prim_obs(p) for p in f.primitives], tol)
    require(d is None, 'objects', lambda: '%s\n%s' % (d, data))
    require(f.units == prog['units'] and f.settings.units == prog['units'], 'units', lambda: 'units %r\n%s' % (f.units, data))
    for p in f.primitives:
        require(p.units == prog['units'], 'object-units', lambda: 'object units %r\n%s' % (p.units, data))
    if tools is not None:
        gt = dict((n, t.diameter) for n, t in f.tools.items())
        require(set(gt) == set(tools) and all(abs(gt[n] - tools[n]) < 1e-9 for n in gt), 'tools', lambda: 'tools %r, expected %r\n%s' % (gt, tools, data))
    for n, t in f.tools.items():
        require(t.number == n, 'tools', lambda: 'tool %r filed under %r' % (t.number, n))
    if prog['decl'] in ('comment', 'unit', 'fmat'):
        require(tuple(f.format) == tuple(prog['fmt']) and f.zeros == prog['zeros'], 'format', lambda: 'format %r %r\n%s' % (f.format, f.zeros, data))
