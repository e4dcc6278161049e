"""User definitions act as substitution and can be removed and replaced."""
import pbt, gen, ref, model
from pbt import Sub, Discard, Violation
from model import Model, verify

RULE = ("non-trivial: the session has at least two accepted definitions, a successful use of a definition and either a "
        "definition in terms of another one, a removal or a rejected definition")

NAMES = ['f', 'g', 'h', 'ff', 'F', 'a', 'k', 'x', 'y', 'n_', 'C', 'mod', 'fx', 'a[b]', 'clearx', 'z', 'quit', 'xx', '_', 'function_with_a_very_long_name_that_has_got_more_than_sixty_four_letters', 'function_with_a_very_long_name_that']
PARAMS = ['x', 'y', 'z', 'a', 'k', 'n_', 'u', 'ff', 'v', 'w', 'p', 'q', 'r', 'the_same_prefix_a', 'the_same_prefix_b']
BUILTIN = ['sin', 'pi', 'e', 'ans', 'max', 'deriv', 'sum']


def term(s, m, vars_, d):
    k = s.raw(12)
    if k <= 3 and vars_:
        return s.choice(vars_)
    if k <= 5 or d > 3:
        return str(s.int(0, 9))
    if k <= 8 and m.defs:
        n = s.choice(list(m.defs))
        ps = m.defs[n][0]
        if not ps:
            return n
        return '%s%s%s%s%s' % (n, s.choice(['(', ' (', '{']), (',' + s.choice(['', ' '])).join(expr(s, m, vars_, d + 2) for _ in ps),
                               s.choice(['', ' ']), s.choice([')', '}']))
    if k == 9:
        return '(%s)' % expr(s, m, vars_, d + 1)
    if k == 10:
        return s.choice(['-%s', 'abs(%s)', 'max(%s, 2)', 'min(1, %s)', 'sum(%s,1,1)', '+%s', '(%s)%%']) % (
            term(s, m, vars_, d + 1) if not m.rules else s.choice(vars_ or ['3']))
    return s.choice(['ans', '@0', '@1', '@ 2'] if m.hist else ['7', '2', 'ans', '5'])


def expr(s, m, vars_, d=0):
    t = term(s, m, vars_, d)
    for _ in range(s.choice([1, 0, 2, 0, 1])):
        k = s.raw(8)
        if m.rules:
            k = k % 5
        if k <= 1:
            t += s.choice([' + ', '+']) + term(s, m, vars_, d + 1)
        elif k <= 3:
            t += s.choice([' - ', '-']) + term(s, m, vars_, d + 1)
        elif k == 4:
            t += '*%d' % s.int(0, 5)
        elif k == 5:
            t += '*' + term(s, m, vars_, d + 1)
        elif k == 6:
            t += '^2'
        else:
            t += '/' + term(s, m, vars_, d + 1)
    return t


def definition(s, m, name=None):
    name = name or s.choice(NAMES)
    k = s.raw(8)
    n = 0 if k <= 1 else (s.int(1, 3) if k <= 6 else s.choice([4, 8, 9, 10, 11]))
    ps = []
    pool = list(PARAMS)
    for _ in range(n):
        ps.append(pool.pop(s.raw(len(pool))))
    free = [p for p in ps if p not in m.defs]
    left = name
    if n:
        left = '%s%s(%s)' % (name, s.choice(['', ' ']), (',' + s.choice(['', ' '])).join(ps))
    elif s.flip(1, 8):
        left = name + '()'
    body = expr(s, m, free)
    return s.choice(['', ' ']) + left + s.choice([' = ', '=', ' ='] ) + body


def bad_definition(s, m):
    k = s.raw(14)
    n = s.choice(NAMES)
    if k == 0:
        return definition(s, m, s.choice(BUILTIN))
    if k == 1 and m.defs:
        return definition(s, m, s.choice(list(m.defs)))
    if k == 2:
        return '%s(x) = %s(x-1)*x' % (n, n)
    if k == 3:
        return '%s(x) = x + unbound' % n
    if k == 4:
        return '%s(x, x) = x' % n
    if k == 5:
        return '%s(x, %s) = x' % (n, s.choice(['2', 'pi', 'x+1', '-x', 'sin(x)', 'ans']))
    if k == 6:
        return '%s(x) = x +' % n
    if k == 7:
        return '%s(x = 2' % n
    if k == 8:
        return s.choice(['2', '(f)', '+f', '', ' ', '1+x', '&']) + ' = 5'
    if k == 9:
        return '%s = %s' % (n, s.choice(['1/0', '', '@99', 'sqrt(-1)', '5 = 6', '5 &', n, 'undefined_']))
    if k == 10:
        return '%s(x) + 1 = x' % n
    if k == 11:
        return "%s(x)' = x" % n
    if k == 12:
        return '%s x = 3' % n
    return '%s(x) = 1/0 + x' % n


def use(s, m):
    n = s.choice(list(m.defs))
    ps = m.defs[n][0]
    t = n
    if ps:
        t = '%s(%s)' % (n, ','.join(expr(s, m, [], 3) if s.flip(3, 4) else str(s.int(0, 6)) for _ in ps))
        if s.flip(1, 8):  # many calls in one line
            r = s.choice([5, 12, 20, 33])
            if s.flip() and ps:
                others = ','.join(str(s.int(0, 3)) for _ in ps[1:])
                for _ in range(r - 1):
                    t = '%s(%s%s)' % (n, t, others and ',' + others)
            elif m.maxsize > 400:
                t = ' + '.join(['%s(%s)' % (n, ','.join(str(s.int(0, 6)) for _ in ps)) for _ in range(r)])
    k = s.raw(5)
    if k == 0:
        t += ' + ' + term(s, m, [], 2)
    elif k == 1:
        t = '-' + t
    return t


def line(s, m):
    k = s.raw(20)
    if k <= 5:
        return definition(s, m)
    if k <= 11 and m.defs:
        return use(s, m)
    if k <= 13:
        return bad_definition(s, m)
    if k <= 15:
        return 'clear ' + s.choice(list(m.defs) * 3 + BUILTIN[:3] + NAMES[:6] if s.flip(4, 5) or not m.defs else NAMES)
    if k == 16:
        return 'clear'
    if k == 17:
        if m.rules:
            return str(s.int(0, 50))
        vs = [v for v in ('x', 'y', 'u', 't') if v not in m.defs]
        return expr(s, m, vs or ['t'])
    if k == 18:
        # use of a name that may have been removed
        n = s.choice(NAMES)
        return s.choice(['%s(2)', '%s', '%s(1,2)', '3*%s']) % n
    return expr(s, m, [])


def generate(src, rules):
    m = Model(rules=rules, maxsize=150 if rules else 900)
    lines = []
    for _ in range(src.choice([3, 6, 10, 16, 24])):
        l = line(src, m)
        if l.startswith(('table ', 'load ', 'help', 'license', '#')) or l == 'quit' or l == '':
            continue
        c = m.copy()
        try:
            r = c.line(l)
        except ref.Unspecified:
            continue
        if r.ok and r.kind == 'number' and not abs(r.value) < 1e12:
            continue
        if rules and (r.kind == 'unknown' or r.kind == 'number' and r.value != int(r.value * 1000) / 1000):
            continue
        if rules and r.why.startswith('evaluation') and any(n in l for n in m.defs):
            continue  # an argument without value may be simplified away, e.g. 0*x
        if any(not ref.size(b) < 150 for p, b in c.defs.values()):
            continue
        m = c
        lines.append(l)
    return {'lines': lines}


def check(case, ctx, rules):
    m = Model(rules=rules)
    got = gen.session(ctx, ['L' + l for l in case['lines']], warm=gen.rules_cmd() if rules else None)
    st = dict(defs=0, use=0, nested=0, removed=0, rejected=0)
    for l, g in zip(case['lines'], got):
        before = dict(m.defs)
        used = [n for n in before if n in l]
        try:
            want = m.line(l)
        except ref.Unspecified:
            raise Discard()
        d = verify(l, want, g, exact=False, ops=m.opset())
        if d:
            raise Violation('%s\ndefinitions: %s' % (d, {n: (p, ref.show(b)) for n, (p, b) in before.items()}))
        if len(m.defs) > len(before):
            st['defs'] += 1
            st['nested'] += bool(used)
        elif len(m.defs) < len(before):
            st['removed'] += 1
        elif not want.ok:
            st['rejected'] += 1
        elif used:
            st['use'] += 1
    for k, v in st.items():
        if v:
            ctx.label(k)
    if st['defs'] < 2 or not st['use'] or not (st['nested'] or st['removed'] or st['rejected']):
        ctx.trivial()


def letters(i):
    t = ''
    while True:
        t = 'abcdghklmnqrtuvw'[i % 16] + t
        i //= 16
        if not i:
            return t


def gen_many(src):
    """many definitions at the same time"""
    n = src.choice([18, 35, 70, 140, 260])
    pre = src.choice(['fn_', 'q_', 'z[', 'w_' * 12])
    names, kinds, lines = [], {}, []
    simple = []

    def define(name):
        ar = src.choice([1, 0, 2])
        ps = ['x', 'y'][:ar]
        body = ' + '.join([str(src.int(1, 400))] + ps)
        if simple and src.flip(1, 3):
            o = src.choice(simple)
            body += ' + ' + o + ('(%s)' % ', '.join(src.choice(ps + ['2']) for _ in range(kinds[o])) if kinds[o] else '')
        else:
            simple.append(name)
        kinds[name] = ar
        return name + ('(%s)' % ', '.join(ps) if ps else '') + ' = ' + body

    def call(name):
        return name + ('(%s)' % ', '.join(str(src.int(0, 9)) for _ in range(kinds[name])) if kinds[name] else '')

    for i in range(n):
        names.append(pre + letters(i * src.choice([1, 1, 1]) + 1))
        lines.append(define(names[-1]))
        if src.flip(1, 12):
            lines.append(call(src.choice(names)))
    gone = []
    for _ in range(src.choice([1, 3, 8, 0])):
        d = src.choice([names[0], names[-1], src.choice(names)])
        if d in gone:
            lines.append('clear ' + d)
            continue
        gone.append(d)
        if d in simple:
            simple.remove(d)
        lines.append('clear ' + d)
        k = src.raw(4)
        if k == 0:
            lines.append(call(d))
        elif k == 1:
            lines.append(define(d))
            gone.remove(d)
    for d in sorted({names[0], names[-1], names[n // 2]} | {src.choice(names) for _ in range(6)}):
        lines.append(call(d))
    if src.flip(1, 4):
        lines += ['clear', call(names[0]), define(names[-1]), call(names[-1])]
    return {'lines': lines}


SUBS = [Sub('many', gen_many, lambda c, x: check(c, x, False), quick=200, thorough=5000, need=['session']),
        Sub('plain', lambda s: generate(s, False), lambda c, x: check(c, x, False), quick=12000, need=['session']),
        Sub('rules', lambda s: generate(s, True), lambda c, x: check(c, x, True), quick=2000, thorough=20000, need=['session'])]
