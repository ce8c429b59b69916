"""C21: the meaning of a file does not depend on its layout or on what was read before."""
import os
import pickle
import random
import struct
import subprocess
import sys
import threading
from mon import gbr, exc, snap
from mon.core import require
from mon.checks import c15
from mon.checks.c18 import source, junk, mutate, edit

PID = 'C21'
QUICK, THOROUGH = 3900, 60000
RULE = ('a case is one to three files (Gerber, drill, netlist) each written in several layouts (line ends, blank lines, surrounding white space, comments, several commands on one line, extended '
        'commands spread over lines or sharing one block, with and without leading zeros in codes), read in random order from disk or memory between other reads, failing reads and changes of the '
        'designs read before; each reading is compared with the first one, with that of a process that read nothing before and some with that of a newly started process, some files are read by three threads at once; non-trivial when a file is read twice')
REQUIRED = {'read:gerber': 1500, 'read:excellon': 1500, 'read:netlist': 1500, 'layout:oneline': 800, 'layout:spread': 800, 'layout:shared': 300, 'layout:space': 1500, 'layout:blank': 1500,
            'layout:comment': 1500, 'layout:eol': 1500, 'layout:zeros': 1500, 'history:failed': 500, 'history:changed': 500, 'fresh': 10, 'pristine': 3000, 'twin': 300, 'together': 800, 'interleaved': 200}
ASSUMPTIONS = ['a file attribute stands in a block of its own', 'leading zeros vary in Gerber G, D and M codes and in drill tool numbers', 'netlist records keep their columns; a continuation line follows its record directly',
               'comments do not use the vendor keywords that declare formats']
NOTES = ['x', 'plain note', 'X100Y100D03', 'M02', 'D10', 'G01X5', "it's; (a) note, ok", '', ' ', 'T1C0.5', 'R5X1', 'tab\there', '#@! note', 'P', 'C', 'ADD10C,1', 'G36', 'G00', '% x', 'M30', 'INCH', 'METRIC,TZ']


def gen(rng, i):
    files = []
    for k in range(rng.choice([1, 2, 2, 3])):
        kind = rng.choice(['gerber', 'excellon', 'netlist'])
        files.append({'kind': kind, 'design': source(rng, kind)})
        if rng.random() < .3:
            t = twin(rng, files[-1])
            if t:
                files.append(t)
    steps = []
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        steps.append(['read', rng.randrange(len(files)), rng.randrange(10 ** 9), rng.random() < .25])
        if r < .15:
            steps.append(['junk', junk(rng)])
        elif r < .3:
            steps.append(['mutant', rng.randrange(len(files)), [edit(rng) for _ in range(3)]])
        elif r < .55:
            steps.append(['change', rng.choice(['offset', 'to_inch', 'to_metric', 'write', 'clear'])])
    return {'files': files, 'steps': steps, 'fresh': i % 200 == 7, 'together': rng.choice([2, 3]) if i % 6 == 1 else 0}


def twin(rng, f):
    """A file of the same length that differs in a number or two."""
    import copy
    d = copy.deepcopy(f['design'])

    def other(s, lo=0):
        at = [k for k in range(lo, len(s)) if s[k] in '123456789' and (k == 0 or s[k - 1] != '$')]
        if not at:
            return s
        k = rng.choice(at)
        return s[:k] + rng.choice([c for c in '123456789' if c != s[k]]) + s[k + 1:]
    if f['kind'] == 'gerber':
        for o in d['ops']:
            if o[0] == 'am':
                for k, b in enumerate(o[2]):
                    if b[0] not in '0$' and b[0] != '4' and rng.random() < .6:
                        g = b.split(',')
                        m = 1 if g[0] == '7' else 4 if g[0] in '15' else 5
                        if m < len(g):
                            g[m] = other(g[m])
                        o[2][k] = ','.join(g)
            elif o[0] == 'ad' and rng.random() < .4 and o[2] != 'P':
                if o[3]:
                    o[3][0] = other(o[3][0])
    elif f['kind'] == 'excellon':
        for t in d['tools']:
            if rng.random() < .6:
                t[1] = other(t[1])
    else:
        return None
    g = {'kind': f['kind'], 'design': d}
    return g if canonical(g) != canonical(f) else None


def signature(case):
    return repr(case)


# ---------------------------------------------------------------- layouts
def canonical(f):
    if f['kind'] == 'netlist':
        return c15.text_of(f['design'])
    return gbr.text(f['design']) if f['kind'] == 'gerber' else exc.text(f['design'])


def layout(f, rng, mon):
    return {'gerber': gerber_layout, 'excellon': excellon_layout, 'netlist': netlist_layout}[f['kind']](f['design'], rng, mon)


def finish(lines, rng, mon, style, final=True):
    """Joins lines with the line ends, blank lines and surrounding space of a style."""
    out = []
    for ln in lines:
        if 'blank' in style and rng.random() < .3:
            out.append(rng.choice(['', '', '  ', '\t']))
            mon.count('layout:blank')
        if 'space' in style and rng.random() < .5:
            mon.count('layout:space')
            ln = rng.choice(['', ' ', '\t', '   ']) * ('left' in style) + ln + rng.choice(['', ' ', '\t', '   '])
        out.append(ln)
    eols = rng.choice([['\n'], ['\r\n'], ['\r'], ['\r\n', '\n']])
    mon.count('layout:eol', eols != ['\n'])
    text = ''
    for ln in out:
        text += ln + rng.choice(eols)
    if rng.random() < .3 and final:
        text = text.rstrip()
    return text


def flags(rng, names):
    return set(n for n in names if rng.random() < .5)


def note(rng, kind):
    while True:
        s = rng.choice(NOTES)
        if kind != 'gerber' or '%' not in s:
            return s


def gerber_layout(prog, rng, mon):
    style = flags(rng, ['blank', 'space', 'left', 'oneline', 'spread', 'shared', 'comment', 'zeros'])
    cmds = gbr.commands(prog)
    out = []
    for c in cmds:
        if 'comment' in style and rng.random() < .25:
            mon.count('layout:comment')
            out.append('%s %s*' % (rng.choice(['G04', 'G4', 'G04']), note(rng, 'gerber')))
        if 'zeros' in style and c[0] != '%' and c[:3] != 'G04':
            c, was = zeros(c, rng), c
            mon.count('layout:zeros', c != was)
        if c[0] == '%':
            if 'shared' in style and out and out[-1][0] == '%' and rng.random() < .5 and c[:3] != '%AM' and out[-1][:3] != '%AM' and '%T' not in (c[:2], out[-1][:2]):
                # (an attribute stands by itself)
                mon.count('layout:shared')
                out[-1] = out[-1][:-1] + c[1:]
                continue
        out.append(c)
    if 'spread' in style:
        out = [spread(c, rng, mon) if c[0] == '%' else c for c in out]
    lines = []
    for c in out:
        if 'oneline' in style and lines and rng.random() < .7:
            mon.count('layout:oneline')
            lines[-1] += rng.choice(['', '', ' ', '  ']) * ('space' in style) + c
        else:
            lines.append(c)
    return finish(lines, rng, mon, style)


def zeros(c, rng):
    import re
    c = re.sub(r'G0?([123])(?![0-9])', lambda m: 'G' + rng.choice(['', '0']) + m.group(1), c)
    c = re.sub(r'D0?([123])\*$', lambda m: 'D' + rng.choice(['', '0']) + m.group(1) + '*', c)
    return re.sub(r'^M0?2\*', lambda m: rng.choice(['M02*', 'M2*']), c)


def spread(c, rng, mon):
    """Line breaks after the opening percent sign, between the blocks and before the closing sign."""
    if rng.random() < .4:
        return c
    mon.count('layout:spread')
    body = c[1:-1].split('*')[:-1]
    s = '%' + rng.choice(['', '\n'])
    for k, b in enumerate(body):
        if b[:1] != '0' and c[:3] in ('%AM', '%AD') and rng.random() < .2:
            b = b.replace(',', ',\n', 1)
        s += b + '*' + rng.choice(['', '\n'])
    return s + '%'


def excellon_layout(prog, rng, mon):
    style = flags(rng, ['blank', 'space', 'left', 'comment', 'zeros'])
    out = []
    for ln in exc.lines(prog):
        if 'comment' in style and rng.random() < .25:
            mon.count('layout:comment')
            out.append(';' + rng.choice(['', ' ']) + note(rng, 'excellon'))
        if 'zeros' in style and ln[0] == 'T' and rng.random() < .6:
            import re
            mon.count('layout:zeros')
            # (a selection may carry a two-digit compensation index)
            ln = re.sub(r'^T0?(\d)(?!\d)', lambda m: 'T' + rng.choice(['', '0']) + m.group(1), ln)
        out.append(ln)
    return finish(out, rng, mon, style)


def netlist_layout(case, rng, mon):
    style = flags(rng, ['space', 'blank', 'comment'])
    out = []
    blocks = []
    for ln in c15.lines_of(case):
        if ln[:1] == '0' and blocks:
            blocks[-1].append(ln)
        else:
            blocks.append([ln])
    # (the kind of the file is told by its first parameter)
    for n, b in enumerate(blocks):
        if 'comment' in style and rng.random() < .2:
            mon.count('layout:comment')
            out.append('C  ' + note(rng, 'netlist').rstrip())
        if 'blank' in style and rng.random() < .3:
            out.append('')
            mon.count('layout:blank')
        for ln in b:
            if 'space' in style and rng.random() < .5:
                mon.count('layout:space')
                ln += ' ' * rng.randint(1, 4)
            out.append(ln)
    return finish(out, rng, mon, ())


# ---------------------------------------------------------------- meaning
def norm(s):
    """A statement, however its codes are written."""
    p = snap.pub(s)
    out = []
    for e in p:
        if isinstance(e, tuple) and e[0] in ('function', 'op') and e[1]:
            e = (e[0], e[1][0] + e[1][1:].lstrip('0'))
        out.append(e)
    return tuple(out)


def meaning(f):
    k = type(f).__name__
    if k == 'IPCNetlist':
        recs = [snap.pub(s) for s in f.statements if type(s).__name__ != 'IPC356_Comment']
        return [('type', k), ('units', f.units), ('records', tuple(recs)), ('nets', snap.pub(f.nets)), ('components', snap.pub(f.components)),
                ('outlines', snap.pub(f.outlines)), ('objects', tuple(snap.prim(p) for p in f.primitives))]
    st = [norm(s) for s in f.statements if type(s).__name__ != 'CommentStmt']
    out = [('type', k), ('units', f.units), ('format', tuple(f.settings.format)), ('zeros', f.settings.zero_suppression),
           ('objects', tuple(snap.prim(p) for p in f.primitives)), ('statements', tuple(st))]
    for n in ('tools', 'hits'):
        if hasattr(f, n):
            out.append((n, snap.pub(getattr(f, n))))
    return out


FRESH = """
import sys
sys.path[:0] = [%r, %r]
import gerber
from mon.checks import c21
with open(sys.argv[1], newline='') as f:
    data = f.read()
answer = repr(c21.meaning(gerber.loads(data)))
sys.stdout.write('\\n' + answer)      # (the code under test may print notes)
"""


class Pristine(object):
    """Answers what texts mean to a process that has read nothing before."""

    def __init__(self):
        import gerber       # noqa (loaded, but not used before the fork)
        self.pid = os.getpid()
        a, self.out = os.pipe()
        self.inp, b = os.pipe()
        if os.fork() == 0:
            try:
                os.close(self.out)
                os.close(self.inp)
                self.serve(a, b)
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)

    def serve(self, a, b):
        import signal
        signal.alarm(0)
        while True:
            data = receive(a)
            if data is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    import gerber
                    try:
                        r = (True, meaning(gerber.loads(data.decode())))
                    except Exception as e:
                        r = (False, '%s: %s' % (type(e).__name__, e))
                    send(b, pickle.dumps(r))
                finally:
                    os._exit(0)
            if os.waitpid(pid, 0)[1] != 0:
                return

    def ask(self, text):
        send(self.out, text.encode())
        return pickle.loads(receive(self.inp))


def send(fd, data):
    data = struct.pack('>I', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def receive(fd):
    def get(n):
        out = b''
        while len(out) < n:
            d = os.read(fd, n - len(out))
            if not d:
                return None
            out += d
        return out
    n = get(4)
    return None if n is None else get(struct.unpack('>I', n)[0])


PRISTINE = [None]


def pristine():
    if PRISTINE[0] is None or PRISTINE[0].pid != os.getpid():
        PRISTINE[0] = Pristine()
    return PRISTINE[0]


def judge(case, mon):
    server = pristine()
    import gerber
    texts = [canonical(f) for f in case['files']]
    first = []
    mon.count('twin', sum(1 for k, t in enumerate(texts) if k and len(t) == len(texts[k - 1])))
    live = []
    for f, t in zip(case['files'], texts):
        d = gerber.loads(t)
        first.append(meaning(d))
        live.append(d)
    for s in case['steps']:
        if s[0] == 'junk':
            mon.count('history:failed')
            try:
                gerber.loads(s[1])
            except Exception:
                pass
        elif s[0] == 'mutant':
            t = mutate(texts[s[1]], s[2])
            if case['files'][s[1]]['kind'] == 'excellon' and 'R' in t.replace('METRIC', ''):
                continue
            mon.count('history:failed')
            try:
                live.append(gerber.loads(t))
            except Exception:
                pass
        elif s[0] == 'change':
            d = live[-1]
            mon.count('history:changed')
            change(d, s[1])
        else:
            f = case['files'][s[1]]
            t = layout(f, random.Random(s[2]), mon)
            show = lambda: '%r (canonically %s)' % (t, texts[s[1]])
            mon.count('read:' + f['kind'])
            if s[3]:
                name = 'f.txt'
                with open(name, 'wb') as fp:
                    fp.write(t.encode())
                d = gerber.read(name)
                os.remove(name)
            else:
                d = gerber.loads(t)
            r = snap.diff(first[s[1]], meaning(d))
            require(r is None, 'layout', lambda: 'canonically %s (laid out) in %s' % (r, show()))
            live.append(d)
    if case.get('together'):
        together(texts, first, case['together'], mon)
    for t, m in zip(texts, first):
        ok, w = server.ask(t)
        require(ok, 'pristine', lambda: 'a process that read nothing before fails on %s: %s' % (t, w))
        mon.count('pristine')
        r = snap.diff(w, m)
        require(r is None, 'history', lambda: 'in a process that read nothing before %s (after other files) for %s' % (r, t))
    if case['fresh']:
        for f, t, m in zip(case['files'], texts, first):
            with open('fresh.txt', 'wb') as fp:
                fp.write(t.encode())
            import gerber as g
            repo = os.path.dirname(os.path.dirname(os.path.abspath(g.__file__)))
            here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
            p = subprocess.run([sys.executable, '-W', 'ignore', '-c', FRESH % (repo, here), 'fresh.txt'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            os.remove('fresh.txt')
            require(p.returncode == 0, 'fresh', lambda: 'a new process fails on %s: %s' % (t, p.stderr.decode()[-500:]))
            mon.count('fresh')
            r = snap.diff(eval(p.stdout.decode().split('\n')[-1], {'inf': float('inf'), 'nan': float('nan')}), m)
            require(r is None, 'history', lambda: 'in a new process %s (in this one) for %s' % (r, t))


def together(texts, first, n, mon):
    """Several threads read the files at the same time, switching at random places."""
    import gerber
    wrong = []
    order = []

    def read(k):
        for j in range(n):
            i = (k + j) % len(texts)
            try:
                order.append(k)
                d = gerber.loads(texts[i])
                order.append(k)
                r = snap.diff(first[i], meaning(d))
            except Exception as e:
                r = '%s: %s' % (type(e).__name__, e)
            if r is not None:
                wrong.append((texts[i], r))
                return
    was = sys.getswitchinterval()
    sys.setswitchinterval(2e-4)
    try:
        th = [threading.Thread(target=read, args=(k,)) for k in range(3)]
        for t in th:
            t.daemon = True
            t.start()
        for t in th:
            t.join()
    finally:
        sys.setswitchinterval(was)
    mon.count('together', len(order) // 2)
    # reads during which another thread read something
    mon.count('interleaved', sum(1 for a, b in zip(order, order[1:]) if a != b))
    require(not wrong, 'together', lambda: 'read at the same time as others: %s for %s' % (wrong[0][1], wrong[0][0]))


def change(d, how):
    """What a user may do to one design must not show in later readings."""
    if how == 'write' or type(d).__name__ == 'IPCNetlist':
        if type(d).__name__ != 'IPCNetlist':
            snap.written(d)
        else:
            del d.statements[:]
    elif how == 'clear':
        for n in ('statements', 'hits'):
            if hasattr(d, n):
                del getattr(d, n)[:]
        if hasattr(d, 'tools'):
            for t in d.tools.values():
                t.diameter = 99.
    elif how == 'offset':
        d.offset(1.5, -2)
    else:
        getattr(d, how)()
