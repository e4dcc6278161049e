"""A table lists every value of the range and folds them in order."""
import math, re
import pbt, gen, ref, model
from model import Model, verify, table_out, cell_ok, number_text_ok
from pbt import Sub, Discard, Violation

RULE = "non-trivial: the table has at least three rows, or the command is malformed and has to be rejected"
ANSI = re.compile('\x1b\\[[0-9;]*m')

SETUP = ['5.5', '2/3', 'sq(u) = u^2', 'k_ = 4', 'ad(x, y) = x + 2*y', 'x_(y) = y - 1', '-7']


def num(s, lo=0, hi=12):
    k = s.raw(7)
    if k <= 3:
        return str(s.int(lo, hi))
    if k == 4:
        return '%d.%s' % (s.int(lo, hi), s.choice(['5', '25', '75', '125']))
    if k == 5:
        return '-%d' % s.int(0, hi)
    return s.choice(['-%d.5', '2^%d/8', '(%d-4)', '{%d/2}', 'k_-%d', 'ans+%d', '$%d', 'sq(%d)/16', '3!-%d', '@1+%d']) % s.int(lo, 9)


def body(s, var, d=0, rich=True):
    def op():
        k = s.raw(8)
        if k <= 3 and var:
            return var
        if k <= 5:
            return str(s.int(0, 9))
        if k == 6 and d < 3:
            return '(%s)' % body(s, var, d + 1, rich)
        if d < 3 and rich:
            return s.choice(['sq(%s)', 'abs(%s)', 'sqrt(%s)', 'sin(%s)', 'max(%s,2)', 'ad(1, %s)', '-%s', 'x_(%s)', 'sum(%s,k_)', 'ans*%s',
                             'floor(%s)', '%s^2', '1/%s', 'sgn(%s)']) % ('(%s)' % body(s, var, d + 1, rich))
        return s.choice(['2.5', 'ans', 'k_', 'pi'])
    t = op()
    for _ in range(s.choice([0, 1, 1, 2])):
        o = s.choice([' + ', '-', '*', '/', ' mod ', '*'] if rich else ['+', ' - ', '*'])
        t += o + op()
    return t


def sep(s):
    return s.choice(['', ' ', '  ']) + ';' + s.choice(['', ' ', '  '])


def fold_expr(s, n):
    """any number of occurrences of both variables"""
    if n <= 0:
        return s.choice(['x', 'y', 'x', 'y', '2', '0.5', 'y'])
    k = s.raw(8)
    if k <= 4:
        l = s.raw(n)
        return '(%s%s%s)' % (fold_expr(s, l), s.choice(['+', '-', '*', '+', '-']), fold_expr(s, n - 1 - l))
    if k == 5:
        return '-' + fold_expr(s, n - 1)
    return '%s(%s)' % (s.choice(['max', 'min', 'sum', 'avg']), ','.join(fold_expr(s, n // 3) for _ in range(s.choice([2, 3]))))


def command(s):
    var = s.choice(['x', 'y', 'n', 't', 'ab', '']) if s.flip(5, 6) else ''
    if s.flip(4, 5):
        e = body(s, var)
        a = num(s)
        if s.flip(2, 3):
            st = s.choice(['1', '2', '0.5', '0.25', '-1', '3', '-0.5', '1.5', '2/8', '-2', '10', '.125'])
        else:
            st = num(s, 1)
        b = num(s, 0, 20)
    else:  # steps that are not exactly representable; upper bound between two values
        e = body(s, var, 0, False)
        lo, n = s.int(-5, 5), s.int(0, 25)
        step = s.choice([0.1, 0.3, 0.7, 0.01, 1.1])
        up = s.flip()
        a = str(lo)
        b = '%.4f' % (lo + (n + 0.5) * step * (1 if up else -1))
        st = s.choice(['', '-']) + repr(step)
    if s.flip(1, 12):  # a step that gets lost in rounding
        if s.flip():
            st = s.choice(['1/10^20', '2^(-70)', '-10^(-40)'])
        elif s.flip():
            a = s.choice(['10^400', '-10^400', '10^17', '2^60'])
        else:
            b = s.choice(['10^400', '-10^400', '-10^17', '2^60'])
        if s.flip(1, 3):
            b = a
    parts = [e, a, b, st]
    t = sep(s).join(parts) if s.flip(1, 2) else ';'.join(parts)
    if s.flip(1, 2):
        f = s.choice(['x+y', 'x*y', 'y', 'x', 'x-y', 'y-x', 'x+1', 'max(x,y)', 'x+y^2', '2*x+y', 'x/2+y', '3', 'sq(x)+y', 'ad(y,x)',
                      'x + ans', 'min(x, y)', 'x', 'x y', '-x', 'x*10 + y', '(x+y)/2', '$x-y']) if s.flip(2, 3) else fold_expr(s, s.int(1, 5))
        t += s.choice([' fold ', '  fold ', ' fold  ']) + f + sep(s) + num(s)
    return 'table ' + t


def malformed(s):
    t = command(s)
    k = s.raw(8)
    if k <= 1:
        i = s.raw(len(t))
        return t[:i] + t[i + 1:]
    if k == 2:
        i = s.int(6, len(t))
        return t[:i] + s.choice([';', ')', '(', ' fold ', 'q', 'z', ',', '&', '0', '/0']) + t[i:]
    parts = t[6:].split(';')
    i = s.raw(len(parts))
    if k == 3:
        parts[i] = s.choice(['', ' ', 'z', 'x+z', '1/0', '0', '1+', ')', 'q*w', "x'", '0-0', '@99', 'w', 'x', 'y', 'x+y'])
    elif k == 4:
        del parts[i]
    elif k == 5:
        parts.insert(i, parts[s.raw(len(parts))])
    elif k == 6:
        parts[-1] += s.choice(['x', 'z', '+q', ';1', ' fold x', ' fold x;1;2', ' fold x+z;1', ' fold y+n;0', ' fold x+y'])
    else:
        return t.replace('table ', s.choice(['table  ', 'table ;', 'table', 'table x']), 1)
    return 'table ' + ';'.join(parts)


def generate(src):
    def one(s):
        t = malformed(s) if s.flip(1, 4) else command(s)
        return t
    return {'setup': src.choice([SETUP, SETUP, SETUP[1:], SETUP + ['1/3']]), 'lines': src.list(1, 6, one), 'interactive': src.flip(1, 3)}


def predict(m, l):
    """-> Res; Unspecified if last digits decide"""
    c = m.copy()
    r = c.line(l)
    return c, r


def check(case, ctx, maxrows=300):
    m = Model(maxrows=maxrows)
    inter = case['interactive']
    ops = ['L' + l for l in case['setup']] + (['i1'] if inter else [])
    for l in case['setup']:
        m.line(l)
    todo = []
    for l in case['lines']:
        if not l.startswith('table '):
            continue
        try:
            c, r = predict(m, l)
        except ref.Unspecified:
            continue
        if r.ok:
            # rows whose value depends on the last digits are outside of the domain
            parts = [p.strip(' ') for p in m.split(l)]
            e = m.read(parts[0])
            vs = ref.variables(e)
            try:
                for v, y in r.rows:
                    try:
                        ref.eval_conditioned(ref.subst(e, {vs[0]: ['c', v * (1 + 1e-15) if v != int(v * 1024) / 1024 else v]}) if vs else e, hist=m.hist)
                    except ref.EvalError:
                        pass
            except (ref.Unspecified, OverflowError, ValueError):
                continue
            if any(y is not None and (y != y or abs(y) > 1e15) for v, y in r.rows):
                continue
            if r.fold is not None and not abs(r.fold) < 1e15:
                continue
        head = None
        if r.ok:
            head = (m.parse(parts[0]), vs, m.opset())
        m = c
        todo.append((l, r, len(ops), head))
        ops += ['L' + l]
        if r.ok:
            ops += ['Lans']
            m.line('ans')
    if not todo:
        raise Discard()
    got = gen.session(ctx, ops)
    for l, r, i, head in todo:
        ctx.item([case['setup'], l, inter], not r.ok or len(r.rows) >= 3)
        g = got[i]
        if inter and g[1].endswith('\n'):  # end of input is echoed as empty line
            g = (g[0], g[1][:-1], g[2])
        if r.ok:
            ctx.label('fold' if r.fold is not None else 'plain', 'rows %s' % ('0' if not r.rows else '1-2' if len(r.rows) < 3 else '3+'))
            if any(y is None for v, y in r.rows):
                ctx.label('with error rows')
        else:
            ctx.label('rejected: ' + r.why.split(':')[0])
        if inter and r.ok:
            g = (g[0], strip_interactive(l, r, head, g), g[2])
        d = verify(l, r, g, exact=False)
        if d:
            raise Violation(d)
        if r.fold is not None:
            a = got[i + 1][1]
            a = a[2:] if inter and a.startswith('= ') else a
            if not number_text_ok(a.rstrip('\n'), r.fold, False):
                raise Violation('fold result %s of %r is not stored in history: ans gives %r' % (r.fold, l, got[i + 1]))


def strip_interactive(l, r, hd, g):
    """checks header and index column, removes them"""
    out = ANSI.sub('', g[1])
    lines = out.split('\n')
    raw, vs, ops = hd
    head = lines[0].split()
    if vs and (not head or head[0] != vs[0]):
        raise Violation('%r: header should begin with variable %s: %r' % (l, vs[0], lines[0]))
    text = lines[0].strip()
    if vs:
        text = text[len(vs[0]):]
    try:
        t = ref.parse_text(text, ops)
        if not model.similar(t, model.norm(raw)):
            raise ref.Reject()
    except ref.Reject:
        raise Violation('%r: header should show the expression, shows %r' % (l, text))
    body = lines[1:]
    rest = []
    for k, x in enumerate(body):
        if k < len(r.rows):
            p = x.split()
            if not p or p[0] != str(k + 1):
                raise Violation('%r: row %d should be numbered: %r' % (l, k + 1, x))
            rest.append(' '.join(p[1:]))
        else:
            rest.append(x)
    return '\n'.join(rest)


def gen_long(src):
    n = src.choice([260, 520, 1030, 1030, 2060, 3000]) - src.raw(40)
    a = src.int(-600, 5)
    k = src.raw(4)
    if k == 0:
        st, b = src.choice([(2, a + 2 * n), (-1, a - n), (3, a + 3 * n + 1)])
    elif k == 1:
        st, b = '0.25', a + n // 4
    else:
        st, b = 1, a + n
    e = src.choice(['x', '2*x', 'x^2', '7', 'x mod 7', '100/x', 'sq(x)', 'x*k_', '-x', 'abs(x)'])
    t = 'table %s;%s;%s;%s' % (e, a, b, st)
    if src.flip(2, 3):
        t += ' fold %s;%d' % (src.choice(['x+y', 'y-x', 'x', 'y', 'x+1', 'max(x,y)']), src.int(0, 5))
    return {'setup': SETUP, 'lines': [t], 'interactive': src.flip(1, 3)}


def check_long(case, ctx):
    check(case, ctx, 4000)


SUBS = [Sub('table', generate, check, quick=12000, need=['session']),
        Sub('long', gen_long, check_long, quick=150, thorough=1500, need=['session'])]
