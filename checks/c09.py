"""ans and @n denote exactly the previous results, latest first."""
import math
import pbt, gen, ref, model
from pbt import Sub, Violation, Discard
from model import Model, verify

RULE = "non-trivial: the session refers to at least two different entries of a history of at least three entries"


def lit(s):
    k = s.raw(5)
    if k <= 2:
        return str(s.int(0, 20))
    if k == 3:
        return '%d.%s' % (s.int(0, 9), s.choice(['5', '25', '125', '75']))
    return str(s.choice([1000, 65536, 12345678, 100, 0]))


def ref_(s, m):
    """text that refers to the history"""
    n = len(m.hist)
    k = s.raw(8)
    if k <= 2:
        return 'ans'
    i = s.int(0, max(0, n - 1)) if s.flip(9, 10) or n == 0 else n + s.int(0, 3)
    if k == 3:
        return '@ %d' % i
    if k == 4:
        return '@(%d-%d)' % (i + 3, 3)
    if k == 5:
        return '@%d.%d' % (i, s.choice([0, 5, 25, 99]))
    return '@%d' % i


def operand(s, m, d=0):
    k = s.raw(10)
    if k <= 3 and m.hist:
        return ref_(s, m)
    if k <= 7 or d > 2:
        return lit(s)
    if k == 8:
        return '(%s)' % expr(s, m, d + 1)
    if m.rules:  # only exact results: rules may change the order of evaluation
        return s.choice(['-%s', 'abs(%s)', 'max(%s, 1)', 'sum(%s, 2, 1)', '%s/2', '%s/4']) % ('(%s)' % operand(s, m, d + 1))
    return s.choice(['-%s', 'abs(%s)', 'max(%s, 1)', 'sqrt(abs(%s))', 'sum(%s, 2, 1)', 'floor(%s)']) % operand(s, m, d + 1)


def expr(s, m, d=0):
    t = operand(s, m, d)
    for _ in range(s.choice([0, 1, 0, 2, 1])):
        op = s.choice([' + ', ' - ', '*', ' / ' if not m.rules else '*', ' + '])
        t += op + (('(%s)' % operand(s, m, d + 1)) if op == ' / ' else operand(s, m, d + 1))
    return t


SPECIAL = ['0 mod 0', '10^400', '0-10^400', '10^400-10^400', 'asin(2)', 'ln(0)', '10^400*0', 'table x;1;2;1 fold 10^400;0',
           'table x;1;2;1 fold 0 mod 0;0', '-(10^308)*10']


def line(s, m, rules):
    k = s.raw(20)
    if k == 0 and not rules and s.flip(1, 3):  # results that are no finite number
        return s.choice(SPECIAL)
    if k <= 8:
        return expr(s, m)
    if k == 9:  # full precision: digits behind those that are printed
        v = m.hist[-1] if m.hist else 0
        if not math.isfinite(v) or abs(v) > 1e4:
            return 'ans'
        p = '%.7f' % abs(v)
        d = (abs(v) - float(p)) * 10**10
        if abs(d - math.floor(d) - 0.5) < 0.01:
            return 'ans'
        return 'round((ans - %s)*10^10)' % (p if v >= 0 else '(-%s)' % p)
    if k == 10:
        return s.choice(['1/0', '(1-1)/0', '1+', '((2)', 'sqrt(-1)', '0^-1', '@50', '3 @', 'sin(1,2)', '@(0-1)', '1 &', '@',
                         '@1000000', 'x\'+1/0', '2 C'])
    if k == 11:
        if rules:
            return s.choice(['q+%d', '%d*q+1', 'q*w-%d']) % s.int(1, 9)
        return s.choice(['q+%s', '%s*q', 'q', 'q*w-%s', 'q-ans*%s', '@0*q+%s']).replace('%s', lit(s))
    if k == 12:
        n = s.choice('abcd')
        return '%s = %s' % (n + '_', expr(s, m))
    if k == 13 and m.defs:
        return s.choice(sorted(m.defs))
    if k == 14:
        return 'f_(x) = x*%s + %s' % (lit(s), s.choice(['ans', lit(s), '@1', '1']))
    if k == 15:
        return s.choice(['clear', 'clear f_', 'clear a_', 'clear zzz', '# comment', '', 'license'])
    if k == 16:
        return 'table %s;%d;%d;%d' % (s.choice(['x*2', 'x+ans', '@0', '1/x', '@x']), s.int(0, 3), s.int(0, 5), s.int(1, 3))
    if k in (17, 18):
        return 'table %s;%d;%d;%d fold %s;%s' % (s.choice(['x', 'x*2', 'x+ans', '1/x' if not rules else '8-x', '@x*1', '3']), s.int(0, 3), s.int(0, 5),
                                                s.int(1, 3), s.choice(['x+y', 'x*y', 'x-y', 'y', 'x', 'x+y+ans', '7']),
                                                s.choice(['0', '1', 'ans', '2/3' if not rules else '.5', '@1', '-5']))
    return s.choice(['table x;1;2', 'table x;1;2;0', 'table x;y;2;1', 'table x*y;1;2;1', 'table 1/0;1;2;1', 'table x;1;3;1 fold x+z;0',
                     'table x;1;3;1 fold x+y;', 'table x;1;3;1 fold x+y;1/0', 'f_(x) = 1/0', '2 = 3'])


def generate(src, rules):
    m = Model(rules=rules)
    lines = []
    for _ in range(src.choice([4, 8, 12, 20])):
        l = line(src, m, rules)
        c = m.copy()
        try:
            r = c.line(l)
        except ref.Unspecified:
            continue
        if r.ok and r.kind == 'number' and 1e200 < abs(r.value) < math.inf:
            continue
        if r.ok and r.kind == 'number' and abs(r.value) == math.inf and l not in SPECIAL and not l.startswith(('@', 'ans')):
            continue
        m = c
        lines.append(l)
    # read out the whole history, which itself grows meanwhile
    n = len(m.hist)
    for i in src.choice([[0, 1, 2], [2, 4, 0], [n - 1, 1], list(range(0, 2 * n, 2))]):
        if 0 <= i < n + 12:
            l = '@%d' % i
            m.line(l)
            lines.append(l)
    return {'lines': lines}


def check(case, ctx, rules):
    m = Model(rules=rules)
    got = gen.session(ctx, ['L' + l for l in case['lines']], warm=gen.rules_cmd() if rules else None)
    refs = set()
    for l, g in zip(case['lines'], got):
        n = len(m.hist)
        try:
            want = m.line(l)
        except ref.Unspecified:
            raise Discard()
        if l == 'license':
            if not g[0] or g[2]:
                raise Violation('license fails: %r' % (g,))
            continue
        d = verify(l, want, g, exact=False, ops=m.opset())
        if d:
            raise Violation('%s\nhistory before (oldest first): %s' % (d, m.hist[:n]))
        if want.ok and ('ans' in l or '@' in l):
            refs.add(l)
            ctx.label('reference')
        if not want.ok:
            ctx.label('failing line')
        elif want.fold is not None:
            ctx.label('fold')
        elif want.kind == 'tree' or want.kind == 'unknown':
            ctx.label('variable result')
    if len(refs) < 2 or len(m.hist) < 3:
        ctx.trivial()


def gen_long(src):
    """many results, referred to from far away"""
    n = src.choice([30, 100, 280, 70, 600, 1100])
    lines, step = [], src.choice([1, 3, 7])
    count, refs = 0, 0
    while count < n:
        k = src.raw(12) if src.flip(1, 6) else 0
        if k <= 6:
            lines.append(str(count * step + 1))
        elif k == 7 and count:
            lines.append('@%d' % src.raw(count))
        elif k == 8 and count:
            lines.append('ans + 1')
        elif k == 9 and count:
            lines.append('@%d - 1' % src.choice([count - 1, count // 2, min(count - 1, 255), min(count - 1, 256), min(count - 1, 127)]))
        elif k == 10:
            lines.append(src.choice(['1/0', '@%d' % count, '1+', 'x_q']))
            continue
        elif k == 11:
            lines.append('k_%d = %d' % (len(lines), count))
            continue
        else:
            lines.append('%d' % count)
        count += 1
    lines += ['@%d' % i for i in sorted({count - 1, count // 2, 0, 1, min(count, 257), 16 if count > 16 else 0})]
    lines.append('@%d' % (count + src.int(6, 9)))
    return {'lines': lines}


SUBS = [Sub('long', gen_long, lambda c, x: check(c, x, False), quick=600, thorough=6000, need=['session']), Sub('plain', lambda s: generate(s, False), lambda c, x: check(c, x, False), quick=12000, need=['session']),
        Sub('rules', lambda s: generate(s, True), lambda c, x: check(c, x, True), quick=2000, thorough=20000, need=['session'])]
