"""C04: aperture macro arithmetic evaluates by the format rules."""
from mon import gbr
from mon.core import require

PID = 'C04'
QUICK, THOROUGH = 10000, 120000
RULE = ('a case is a macro of random expression trees (operators, parentheses, unary signs, variables, equations, comments) '
        'instantiated with 1-3 parameter lists and flashed; non-trivial when some expression has an operator; the value of '
        'every modifier is compared with direct evaluation of the tree')
REQUIRED = {'binary:-': 500, 'binary:/': 300, 'binary:x': 300, 'unary': 300, 'equation': 300, 'comment': 200,
            'paren': 300, 'undefined_variable': 100, 'many_parameters': 200, 'instances': 3000, 'values': 10000}
ASSUMPTIONS = ['no division by zero in the macro']


def tree(rng, depth, nvars):
    r = rng.random()
    if depth == 0 or r < 0.25:
        if rng.random() < 0.45:
            return ['v', rng.randint(1, nvars)]
        return ['n', rng.choice(['1', '2', '0.5', '.25', '3', '10', '0', '1.5', '4.', '0.125', '7', '100', '0.001', '20', '05', '00.5', '010'])]
    if r < 0.33:
        return ['u', rng.choice(['-', '-', '+']), tree(rng, depth - 1, nvars)]
    if r < 0.4:
        return ['p', tree(rng, depth - 1, nvars)]
    return ['b', rng.choice('+-xX/'), tree(rng, depth - 1, nvars), tree(rng, depth - 1, nvars)]


PREC = {'+': 1, '-': 1, 'x': 2, 'X': 2, '/': 2}


def show(t, sp):
    """Text of the tree; parentheses only where the tree needs them."""
    k = t[0]
    if k == 'n':
        return t[1]
    if k == 'v':
        return '$%d' % t[1]
    if k == 'p':
        return '(' + show(t[1], sp) + ')'
    if k == 'u':
        s = show(t[2], sp)
        return t[1] + ('(%s)' % s if t[2][0] in 'bu' else s)
    op = t[1]
    a, b = show(t[2], sp), show(t[3], sp)
    if t[2][0] == 'b' and PREC[t[2][1]] < PREC[op]:
        a = '(%s)' % a
    if t[3][0] == 'b' and PREC[t[3][1]] <= PREC[op]:
        b = '(%s)' % b
    if t[3][0] == 'u':
        b = '(%s)' % b
    if t[2][0] == 'u' and PREC[op] == 2 and t[2][2][0] == 'b':
        a = '(%s)' % a
    return a + sp + op + sp + b


def ev(t, env, mon=None):
    k = t[0]
    if k == 'n':
        return float(t[1])
    if k == 'v':
        if mon is not None and t[1] not in env:
            mon.count('undefined_variable')
        return env.get(t[1], 0.0)
    if k == 'p':
        if mon is not None:
            mon.count('paren')
        return ev(t[1], env, mon)
    if k == 'u':
        if mon is not None:
            mon.count('unary')
        x = ev(t[2], env, mon)
        return -x if t[1] == '-' else x
    a, b = ev(t[2], env, mon), ev(t[3], env, mon)
    op = t[1].lower()
    if mon is not None:
        mon.count('binary:' + op)
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == 'x':
        return a * b
    return a / b


def gen(rng, i):
    while True:
        nvars = rng.randint(1, 5) if rng.random() < 0.8 else rng.randint(9, 24)
        blocks = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            sp = ' ' if rng.random() < 0.15 else ''
            if r < 0.2:
                blocks.append(['c', rng.choice(['a comment', 'pad 1,2,3', 'diameter $1 - 2', '', 'w=1', '(', 'x/y'])])
            elif r < 0.45:
                blocks.append(['e', rng.randint(1, nvars + 2), tree(rng, 3, nvars + 2), sp])
            else:
                blocks.append(['p', [tree(rng, 3, nvars + 2) for _ in range(3)], sp])
        if not any(b[0] == 'p' for b in blocks):
            continue
        insts = [[rng.choice(['1', '2.5', '0.1', '-3', '0', '.75', '12', '0.0625'])
                  for _ in range(rng.randint(0, nvars))] for _ in range(rng.randint(1, 3))]
        case = {'blocks': blocks, 'insts': insts, 'order': [rng.randrange(len(insts)) for _ in range(rng.randint(1, 5))]}
        try:
            ok = True
            for inst in insts:
                for vals in expected(case, inst):
                    ok = ok and all(abs(v) < 1e6 for v in vals)
            if ok:
                return case
        except ZeroDivisionError:
            pass


def expected(case, inst, mon=None):
    env = dict((n + 1, float(x)) for n, x in enumerate(inst))
    out = []
    for b in case['blocks']:
        if b[0] == 'e':
            env[b[1]] = ev(b[2], env, mon)
        elif b[0] == 'p':
            out.append([ev(t, env, mon) for t in b[1]])
    return out


def macro_blocks(case):
    out = []
    for b in case['blocks']:
        if b[0] == 'c':
            out.append('0 ' + b[1])
        elif b[0] == 'e':
            out.append('$%d=%s' % (b[1], show(b[2], b[3])))
        else:
            out.append('1,1,' + (',' + b[2]).join(show(t, b[2]) for t in b[1]))
    return out


def fixed():
    n = lambda s: ['n', s]
    return [{'blocks': [['p', [t, n('0'), n('0')], '']], 'insts': [['1.5', '0.25']], 'order': [0]} for t in [
        ['b', '-', n('5'), n('2')], ['b', '-', ['b', '-', n('9'), n('2')], n('3')], ['b', '/', ['b', '/', n('8'), n('2')], n('2')],
        ['b', '-', ['v', 1], ['v', 2]], ['u', '-', ['v', 1]], ['u', '-', n('0')], ['b', '+', n('1'), ['b', 'x', n('2'), n('3')]],
        ['b', 'x', ['b', '+', n('1'), n('2')], n('3')], ['u', '-', ['b', '-', ['v', 1], n('4')]],
        ['b', '-', ['u', '-', n('2')], n('3')], ['b', 'X', n('3'), ['b', '-', n('1'), ['v', 2]]]]]


def signature(case):
    return '*'.join(macro_blocks(case)) + repr(case['insts'])


def judge(case, mon):
    import gerber
    lines = ['%FSLAX25Y25*%', '%MOMM*%', '%%AMTEST*%s*%%' % '*'.join(macro_blocks(case))]
    for n, inst in enumerate(case['insts']):
        lines.append('%%ADD%dTEST%s*%%' % (10 + n, (',' + 'X'.join(inst)) if inst else ''))
    for n in case['order']:
        lines += ['D%d*' % (10 + n), 'X0Y0D03*']
    lines.append('M02*')
    data = '\n'.join(lines) + '\n'
    for b in case['blocks']:
        if b[0] == 'c':
            mon.count('comment')
        elif b[0] == 'e':
            mon.count('equation')
    f = gerber.loads(data)
    prims = list(f.primitives)
    require(len(prims) == len(case['order']), 'flashes', lambda: '%d flashes, %d expected\n%s' % (len(prims), len(case['order']), data))
    for p, n in zip(prims, case['order']):
        want = expected(case, case['insts'][n], mon)
        mon.count('instances')
        if len(case['insts'][n]) > 9:
            mon.count('many_parameters')
        got = [(q.diameter, q.position[0], q.position[1]) for q in p.primitives]
        require(len(got) == len(want), 'elements', lambda: '%d elements, %d expected\n%s' % (len(got), len(want), data))
        for g, w in zip(got, want):
            mon.count('values', 3)
            for a, b in zip(g, w):
                require(abs(a - b) <= 1e-9 * max(1.0, abs(b)), 'value', lambda: 'modifiers %r, expected %r for parameters %r\n%s' % (g, w, case['insts'][n], data))
