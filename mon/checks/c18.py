"""C18: files are dispatched by content and bad input fails cleanly."""
import os
import shutil
import signal
from mon import gbr, exc, snap
from mon.core import require, Violation
from mon.checks import c15
from mon.checks.c07 import gen_file

PID = 'C18'
QUICK, THOROUGH = 10000, 150000
RULE = ('a case is a valid Gerber, drill or netlist file under a misleading name (with remarks that mention another format), data of no known kind, a valid file with 1-6 random cuts, '
        'flips, insertions or swaps, or a Gerber file distributed over a tree of include files (possibly cyclic); what is read from disk and from a string is compared with the design of the '
        'undisturbed text, and a watchdog bounds the time; non-trivial unless the data is empty')
REQUIRED = {'kind:gerber': 600, 'kind:excellon': 600, 'kind:netlist': 500, 'misleading': 500, 'unknown': 500, 'unknown:binary': 80, 'mutant:design': 500, 'mutant:error': 100,
            'mutant:unknown': 10, 'include': 400, 'include:nested': 200, 'include:subdir': 200, 'include:cycle': 150, 'include:deep': 50}
ASSUMPTIONS = ['a damaged file may give any design or any exception, but the same ones from disk and from memory, within 20 s',
               'repeat counts above 9999 are not tried (they make that many holes)', 'more than ten nested includes may be refused']
NAMES = ['board.gbr', 'x.drl', 'nets.ipc', 'top.gtl', 'holes.txt', 'readme', 'M48', 'a b.gbl', 'P  JOB', '%FSLAX', 'board.png', 'UPPER.GTL', '.hidden']
HANG = 20


def gen(rng, i):
    r = i % 10
    kind = rng.choice(['gerber', 'excellon', 'netlist'])
    if r < 4:
        lead = []
        if rng.random() < .5:
            lead = {'gerber': ['G04 made for the M48 drill*', 'G04 P JOB*', 'G04 see job M48*', 'G04 P  JOB X*'], 'excellon': [';%FSLAX24Y24', ';P JOB', '; use %FS'],
                    'netlist': ['C  drilled with M48', 'C  %FSLAX24Y24*%', 'C  from M48']}[kind]
            lead = [rng.choice(lead)]
        return {'kind': 'valid', 'type': kind, 'design': source(rng, kind), 'lead': lead, 'name': rng.choice(NAMES), 'eol': rng.choice(['\n', '\n', '\r\n', '\r'])}
    if r < 5:
        return {'kind': 'unknown', 'data': junk(rng), 'binary': rng.random() < .3, 'name': rng.choice(NAMES)}
    if r < 7:
        return {'kind': 'mutant', 'type': kind, 'design': source(rng, kind), 'edits': [edit(rng) for _ in range(rng.choice([1, 1, 2, 3, 6]))], 'name': rng.choice(NAMES)}
    return gen_include(rng)


def source(rng, kind):
    if kind == 'gerber':
        return gen_file(rng, n=rng.randint(1, 10))
    if kind == 'excellon':
        # (formats of undeclared files are guessed; that is another property)
        while True:
            p = exc.gen_prog(rng, n=rng.randint(1, 12), given=False)
            return p
    while True:
        c = c15.gen(rng, 0)
        c['style'].update(eol='\n', disk=False)
        return c


def text_of(kind, design):
    return gbr.text(design) if kind == 'gerber' else exc.text(design) if kind == 'excellon' else c15.text_of(design)


def junk(rng):
    r = rng.random()
    if r < .1:
        return ''
    if r < .5:
        return '\n'.join(rng.choice(['hello world', '<svg>', 'X100Y200D01*', 'D10*', 'M02*', '%MOIN*%', 'T1C0.1', 'PK\x03\x04', 'M47', 'FSLAX', '% F', 'JOB P', 'PJOB', '', '   ', '317GND'])
                         for _ in range(rng.randint(1, 9)))
    return ''.join(chr(rng.randint(32, 126)) if rng.random() < .9 else '\n' for _ in range(rng.randint(1, 200)))


def edit(rng):
    return [rng.choice(['cut', 'flip', 'insert', 'swap', 'truncate', 'dup', 'line']), rng.random(), rng.random(), rng.choice('*%XYDGMTR0-+.,;$()/ \n\t\x00\x7fAF9')]


def mutate(t, edits):
    for k, a, b, ch in edits:
        n = len(t)
        if not n:
            break
        p, q = int(a * n), min(n, int(a * n) + 1 + int(b * b * 40))
        if k == 'cut':
            t = t[:p] + t[q:]
        elif k == 'flip':
            t = t[:p] + ch + t[p + 1:]
        elif k == 'insert':
            t = t[:p] + ch * (1 + int(b * 3)) + t[p:]
        elif k == 'swap':
            m = int(b * n)
            t = t[:p] + t[m:m + 1] + t[p + 1:]
        elif k == 'truncate':
            t = t[:max(p, n // 4)]
        elif k == 'dup':
            t = t[:p] + t[p:q] * (2 + int(b * 4)) + t[q:]
        else:
            lines = t.split('\n')
            i = int(a * len(lines))
            j = int(b * len(lines))
            lines[i], lines[j] = lines[j], lines[i]
            t = '\n'.join(lines)
    return t


def gen_include(rng):
    prog = gen_file(rng, n=rng.randint(3, 14))
    n = len(gbr.commands(prog))
    pieces = []
    nest = rng.choice([1, 2, 3, 3])
    r = rng.random()
    if r < .2:
        # a cycle of k files
        return {'kind': 'include', 'prog': prog, 'cycle': rng.randint(1, 4), 'at': rng.randint(3, n), 'twice': rng.random() < .4}
    if r < .3:
        return {'kind': 'include', 'prog': prog, 'deep': rng.randint(4, 10), 'at': rng.randint(3, n), 'subdir': rng.random() < .5}

    def split(lo, hi, depth, tag):
        k = rng.randint(1, 2)
        for m in range(k):
            if hi - lo < 1:
                return
            a = rng.randint(lo, hi - 1)
            b = rng.randint(a + 1, hi)
            p = [tag + str(m), a, b, rng.choice(['', '', 'sub', 'sub/deeper', '..']), []]
            pieces_stack[-1].append(p)
            if depth < nest:
                pieces_stack.append(p[4])
                split(a, b, depth + 1, p[0] + '_')
                pieces_stack.pop()
            lo = b
    pieces_stack = [pieces]
    split(2, n, 1, 'part')
    return {'kind': 'include', 'prog': prog, 'pieces': pieces, 'eol': rng.choice(['\n', '\r\n']), 'inline': rng.random() < .3}


def signature(case):
    return repr(case) if case.get('data', 'x') else None


class Slow(Exception):
    pass


def _alarm(a, b):
    raise Slow()


def bounded(f, what):
    """('design', snapshot) or ('error', exception)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    rest = signal.alarm(HANG)
    try:
        try:
            d = f()
            return 'design', d
        except Slow:
            raise Violation('no-termination', 'reading did not end within %d s: %s' % (HANG, what()))
        except Exception as e:
            return 'error', e
    finally:
        signal.signal(signal.SIGALRM, old)
        signal.alarm(max(1, rest))


def objects(f):
    """What a design holds, wherever it came from."""
    return [('type', type(f).__name__), ('units', f.units), ('statements', tuple(snap.pub(s) for s in f.statements)), ('objects', tuple(snap.prim(p) for p in f.primitives))] + \
           [(n, snap.pub(getattr(f, n))) for n in ('tools', 'hits') if hasattr(f, n)]


def both(data, name, mon, what, raw=None):
    """Read from disk and from memory; the outcomes must agree."""
    import gerber
    with open(name, 'wb') as f:
        f.write(data.encode('utf-8') if raw is None else raw)
    try:
        a = bounded(lambda: gerber.read(name), what)
    finally:
        os.remove(name)
    if raw is not None:
        return a
    # (reading a file translates line ends)
    b = bounded(lambda: gerber.loads(data), what)
    require(a[0] == b[0], 'disk-or-memory', lambda: 'from disk %r, from memory %r of %s' % (a, b, what()))
    if a[0] == 'error':
        require(type(a[1]) == type(b[1]), 'disk-or-memory', lambda: 'from disk %r, from memory %r of %s' % (a[1], b[1], what()))
    else:
        d = snap.diff(objects(a[1]), objects(b[1]))
        require(d is None, 'disk-or-memory', lambda: 'from disk %s (from memory) of %s' % (d, what()))
        require(a[1].filename == name, 'filename', lambda: '%r' % (a[1].filename,))
    return a


TYPE = {'gerber': 'GerberFile', 'excellon': 'ExcellonFile', 'netlist': 'IPCNetlist'}


def judge(case, mon):
    import gerber
    from gerber.exceptions import ParseError
    k = case['kind']
    if k == 'include':
        return judge_include(case, mon)
    if k == 'unknown':
        mon.count('unknown')
        data = case['data']
        if 'M48' in data or '%FS' in data or [1 for l in data.split('\n') if l.split()[:2] == ['P', 'JOB']]:
            return
        what = lambda: repr(data)
        if case['binary']:
            mon.count('unknown:binary')
            r = both('', case['name'], mon, what, raw=data.encode() + b'\x89\xff\xfe\x00' + data.encode()[:7])
        else:
            r = both(data, case['name'], mon, what)
        require(r[0] == 'error' and isinstance(r[1], ParseError), 'not-rejected', lambda: '%r of %s' % (r, what()))
        return
    base = text_of(case['type'], case['design'])
    if k == 'valid':
        text = '\n'.join(case['lead'] + [base])
        text = text.replace('\n', case['eol'])
        what = lambda: '%r: %s' % (case['name'], text)
        mon.count('kind:' + case['type'])
        mon.count('misleading', bool(case['lead']))
        r = both(text, case['name'], mon, what)
        require(r[0] == 'design', 'rejected', lambda: '%r of %s' % (r[1], what()))
        f = r[1]
        require(type(f).__name__ == TYPE[case['type']], 'kind', lambda: 'read as %s: %s' % (type(f).__name__, what()))
        mod = {'gerber': gerber.rs274x, 'excellon': gerber.excellon, 'netlist': gerber.ipc356}[case['type']]
        g = mod.loads(base)
        x, y = dict(objects(g)), dict(objects(f))
        for n in x:
            if n == 'statements' and case['lead']:
                require(len(y[n]) == len(x[n]) + 1, 'dispatch', lambda: '%d statements, %d without the remark' % (len(y[n]), len(x[n])))
                continue
            d = snap.where(x[n], y[n], 0, n)
            require(d is None, 'dispatch', lambda: 'read by its own module %s (dispatched) of %s' % (d, what()))
        return
    text = mutate(base, case['edits'])
    if case['type'] == 'excellon' and [1 for l in text.split('\n') if 'R' in l and [1 for w in digits(l) if len(w) > 4]]:
        return
    what = lambda: repr(text)
    r = both(text.replace('\r', '\n'), case['name'], mon, what)
    if r[0] == 'design':
        mon.count('mutant:design')
        require(type(r[1]).__name__ in TYPE.values(), 'kind', lambda: repr(r[1]))
    elif isinstance(r[1], ParseError):
        mon.count('mutant:unknown')
    else:
        mon.count('mutant:error')
        mon.seen('error', type(r[1]).__name__)


def digits(line):
    out, cur = [], ''
    for c in line[line.index('R'):]:
        if c.isdigit():
            cur += c
        else:
            out.append(cur)
            cur = ''
    return out + [cur]


def put(path, text):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, 'wb') as f:
        f.write(text.encode())


def judge_include(case, mon):
    import gerber
    cmds = gbr.commands(case['prog'])
    # an arena several levels below the scratch directory, so that ".." stays inside
    root = os.path.abspath('inc')
    shutil.rmtree(root, ignore_errors=True)
    main = os.path.join(root, 'a', 'b', 'c', 'd', 'main.gbr')
    try:
        if 'cycle' in case or 'deep' in case:
            n = case.get('cycle') or case['deep']
            at = min(case['at'], len(cmds))
            files = [main] + [os.path.join(os.path.dirname(main), *(['s'] * k if case.get('subdir') else []) + ['f%d.gbr' % k]) for k in range(1, n)]
            for k, p in enumerate(files):
                if 'cycle' in case:
                    inc = files[(k + 1) % n]
                else:
                    inc = files[k + 1] if k + 1 < n else None
                line = ['%%IF%s*%%' % os.path.relpath(inc, os.path.dirname(p))] if inc else []
                if case.get('twice'):
                    line = line * 2
                body = (cmds[:at] if k == 0 else ['G04 file %d*' % k]) + line + (cmds[at:] if k == 0 else [])
                put(p, '\n'.join(body) + '\n')
            r = bounded(lambda: gerber.read(main), lambda: repr(case))
            if 'cycle' in case:
                mon.count('include:cycle')
                require(r[0] == 'error' and not isinstance(r[1], RuntimeError), 'cycle', lambda: 'a cycle of %d files gave %r' % (n, r))
                return
            mon.count('include:deep')
            flat = cmds[:at] + ['G04 file %d*' % k for k in range(1, n)] + cmds[at:]
        else:
            mon.count('include')

            def emit(lo, hi, pieces, here):
                out = []
                pos = lo
                for name, a, b, sub, inner in pieces:
                    out += cmds[pos:a]
                    rel = os.path.join(sub, name + '.inc')
                    mon.count('include:subdir', bool(sub))
                    mon.count('include:nested', bool(inner))
                    target = os.path.normpath(os.path.join(here, rel))
                    put(target, case['eol'].join(emit(a, b, inner, os.path.dirname(target))) + case['eol'])
                    out.append('%%IF%s*%%' % rel)
                    pos = b
                return out + cmds[pos:hi]
            if not case['pieces']:
                return
            put(main, case['eol'].join(emit(0, len(cmds), case['pieces'], os.path.dirname(main))) + case['eol'])
            r = bounded(lambda: gerber.read(main), lambda: repr(case))
            flat = cmds
        show = lambda: '%r\n%s' % (case.get('pieces', n if 'deep' in case else None), '\n'.join(flat))
        require(r[0] == 'design', 'include-failed', lambda: '%r: %s' % (r[1], show()))
        d = snap.diff(objects(gerber.loads('\n'.join(flat) + '\n')), objects(r[1]))
        require(d is None, 'include', lambda: 'in one file %s (included) %s' % (d, show()))
    finally:
        shutil.rmtree(root, ignore_errors=True)
