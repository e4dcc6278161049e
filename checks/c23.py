"""In interactive mode errors are marked at the offending token."""
import os, random, re
import pbt, gen, ref
from ref import Op, OpSet, DYN
from pbt import Sub, Discard, Violation
from c03 import SOUP, COMMANDS

RULE = "non-trivial: the marker is expected right of the first token of the line, or spans several characters"

KIND = {'expected parameter list': 'Expected an opening parenthesis', 'arity': 'Wrong number of operands of function', 'unexpected infix': 'Unexpected infix or postfix operator',
        'unexpected character': 'Unexpected character', 'unexpected end': 'Unexpected end of expression', 'empty': 'Unexpected end of expression'}
MARK1 = re.compile(r'^( *)(\^~*) (Error: .*)$', re.S)
MARK2 = re.compile(r'^( *)(Error: .*?) (~*\^)$', re.S)


def marker(err):
    """-> (message, column, length)"""
    e = err.rstrip('\n')
    m = MARK1.match(e)
    if m:
        return m.group(3)[7:], len(m.group(1)), len(m.group(2))
    m = MARK2.match(e)
    if m:
        return m.group(2)[7:], len(m.group(1)) + len(m.group(2)) + 1, len(m.group(3))
    return None


def messages(e, toks, ops):
    """acceptable messages of a rejection"""
    why = str(e)
    if why in ('empty', 'unexpected end') or e.at == len(toks):
        # input ends: what is missing depends on what came last
        out = {'Unexpected end of expression'}
        real = [t for t in toks if t[0] != ' ']
        depth = sum(t in ('(', '{') for t in real) - sum(t in (')', '}') for t in real)
        if why.startswith('missing'):
            out = {'Missing closing parenthesis'}
        elif why.startswith('expected param'):
            out = {'Expected an opening parenthesis'}
        elif depth > 0:
            out.add('Missing closing parenthesis')
        return out
    tok = toks[e.at]
    if why in KIND:
        return {KIND[why]}
    if tok == ',':
        return {'Unexpected delimiter'}
    if tok in (')', '}'):
        return {'Unexpected closing parenthesis'}
    return {'?'}


def place(toks, at):
    return sum(len(t) for t in toks[:at]), len(toks[at]) if at < len(toks) else 1


def malformed(s, ops, vars_=gen.VARS):
    g = gen.TextGen(s, ops, vars_=vars_, budget=s.choice([2, 4, 8, 14]))
    toks = g.expr()
    for _ in range(s.choice([1, 1, 1, 2])):
        if not toks:
            break
        m = s.raw(5)
        i = s.raw(len(toks))
        if m == 0:
            del toks[i]
        elif m == 1:
            toks.insert(i, s.choice(SOUP))
        elif m == 2:
            toks[i] = s.choice(SOUP)
        elif m == 3:
            j = s.raw(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        else:
            toks = toks[:i + 1]
    t = gen.join(s, toks, ops.keywords)
    t = ''.join(c if 32 <= ord(c) < 127 else ':' for c in t)
    return s.choice(['', '', ' ', '   ']) + t


EVF = ['sqrt', 'ln', 'root', 'asin', 'acos', 'sum', 'max', 'abs', 'log', 'ld', 'sin', 'acosh', 'atanh', 'gcd', 'floor', 'avg']


def failing(s, vars_, ops=ref.ARITH_SET, extra=()):
    g = gen.TextGen(s, ops, vars_=vars_, budget=s.choice([3, 6, 10]), funcs=EVF + ['pi', 'e', 'ans'] + list(extra), postfix=['!', '%'], prefix=['-', '@', '+', '@'])
    toks = g.expr()
    k = s.raw(4)
    bad = s.choice([['1', '/', '0'], ['sqrt', '(', '-', '1', ')'], ['@', '7'], ['0', '^', '-', '2'], ['ln', '(', '-', '3', ')'], ['asin', '(', '2', ')'], ['(', '5', '-', '5', ')', '^', '-', '1'],
                    ['10', '/', '(', '3', '-', '3', ')'], ['root', '(', '-', '2', ',', '2', ')'], ['2', 'mod', '0']])
    if k == 1:
        toks = toks + ['+'] + bad
    elif k == 2:
        toks = bad + ['*'] + toks
    elif k == 3:
        toks = ['abs', '(', '('] + toks + [')', '-', '('] + bad + [')', ')']
    return gen.join(s, toks, ops.keywords)


def plain(t):
    return not (t.startswith(COMMANDS) or '=' in t or '\n' in t or not t.strip() or len(t) > 900)


def failures(text, ops, hist, funcs=None):
    """-> set of (message, column, length) one of which is to be reported, or None if the expression has a value / cannot be judged"""
    toks = ref.tokenize(text, ops.keywords)
    p = ref.Parser(ops, toks)
    try:
        t = p.parse()
    except ref.Reject as e:
        at = place(toks, e.at)
        return {(m,) + at for m in messages(e, toks, ops)}
    out = set()

    def run(j):
        bad = [False]

        def go(n):
            if n[0] == 'c':
                return n[1]
            if n[0] == 'v':
                return None
            args = [go(c) for c in n[3]]
            try:
                if funcs and n[2] in funcs and n[1] == 'function':
                    # arguments are substituted: what fails is the body of the function
                    pars, body = funcs[n[2]]
                    if any(a is None for a in args):
                        raise Discard()
                    return ref.evaluate(body, dict(zip(pars, args)), hist, j)
                if any(a is None for a in args):
                    return None
                return ref.evaluate(['o', n[1], n[2], [['c', a] for a in args]], None, hist, j)
            except ref.EvalError as e:
                out.add((ref.ERRTEXT[str(e)],) + place(toks, p.where[id(n)]))
                bad[0] = True
                return None
        go(t)
        return bad[0]
    res = {run(random.Random(i) if i else None) for i in range(4)}
    if res == {True}:
        return out
    return None


def compare(line, want, got, offset=0):
    ok, o, err = got
    m = marker(err)
    if ok or o.strip():
        raise Violation('%r succeeds or prints %r' % (line, o))
    if m is None:
        raise Violation('%r: no marker in %r' % (line, err))
    w = {(x[0], x[1] + offset, x[2]) for x in want}
    if m not in w:
        raise Violation('%r: error %r marked at column %d, length %d; expected %s' % (line, m[0], m[1], m[2], ' or '.join(map(str, sorted(w)))))
    return m


# lines that do not matter to later ones
NOISE = ['load @DIR@/fails', 'load @DIR@/nested', 'load /nonexistent-dir/x', 'load simplification /nonexistent-dir/x', 'load simplification @DIR@/badrules', 'help',
         'zz_ = 5', 'zz_(x) = x+', 'clear zz_', 'table x;1;2;1', 'table x;1;2;0', 'clear nosuch', '(1', 'license', 'table 1/x;-1;1;1', 'x+1', '1/0', '&', '# (', '']
FILES = {'fails': '# (\n(1\nclear nosuch\n1/0\n\nx+1\n', 'nested': 'load @DIR@/fails\nload /nonexistent-dir/x\nzz_=2\nclear zz_', 'badrules': 'RULESET\nx+ -> y\n'}


def gen_noise(s, n):
    return [[s.raw(n + 1), s.choice(NOISE)] for _ in range(s.choice([0, 0, 1, 2]))]


def noisy(ctx, pre, lines, noise):
    """results of the lines, typed in interactively, with other lines among them"""
    os.makedirs(ctx.scratch, exist_ok=True)
    if noise and not os.path.exists(os.path.join(ctx.scratch, 'badrules')):
        for n, t in FILES.items():
            with open(os.path.join(ctx.scratch, n), 'w') as f:
                f.write(t.replace('@DIR@', ctx.scratch))
    ops = [['L' + l, True] for l in lines]
    for i, l in noise:
        ops.insert(min(i, len(ops)), ['E' + l.replace('@DIR@', ctx.scratch), False])
    res = gen.session(ctx, pre + ['i1'] + [o for o, _ in ops])
    return [r for r, (_, k) in zip(res[len(pre) + 1:], ops) if k]


# ---------------------------------------------------------------- expressions
def gen_expr(src):
    out = []
    for _ in range(src.int(1, 12)):
        t = malformed(src, ref.ARITH_SET) if src.flip(3, 5) else failing(src, src.choice([gen.VARS, []]))
        out.append(t)
    return {'lines': out, 'hist': src.list(0, 3, lambda s: s.int(1, 50)), 'noise': gen_noise(src, len(out))}


def check_expr(case, ctx):
    lines = [t for t in case['lines'] if plain(t)]
    if not lines:
        raise Discard()
    hist = [float(h) for h in case['hist']]
    todo = []
    for t in lines:
        try:
            w = failures(t, ref.ARITH_SET, hist)
        except (Discard, ref.Unspecified, OverflowError):
            continue
        if w:
            todo.append((t, w))
    if not todo:
        raise Discard()
    res = noisy(ctx, ['L%s' % int(h) for h in hist], [t for t, _ in todo], case['noise'])
    for (t, w), r in zip(todo, res):
        m = compare(t, w, r)
        ctx.item(t, m[1] > 0 or m[2] > 1)
        ctx.label(m[0])


# ---------------------------------------------------------------- definitions
SETUP = ['q_(x)=1/x', 'w_(x,y)=sqrt(x-y)+1', 'k_c=4', 'l_(x)=ln(x)']
BODIES = {'q_': (['x'], ref.parse_text('1/x')), 'w_': (['x', 'y'], ref.parse_text('sqrt(x-y)+1')), 'k_c': ([], ['c', 4.0]), 'l_': (['x'], ref.parse_text('ln(x)'))}
USER = ref.ARITH_SET.with_ops([Op('q_', 'function', arity=1), Op('w_', 'function', arity=2), Op('k_c', 'function', arity=0), Op('l_', 'function', arity=1)])


NAMED = {'sin=2': 0, 'pi = 3': 0, 'max(x)=1': 0, 'k_c=5': 1, ' q_(x)=x': 1, 'w_ = 2': 1, 'nf(x)=nf(x)+1': 2, 'nf = 2*nf': 2, 'nf(x,y)=x+q_(nf(y,x))': 2, 'nf(x)=x+y': 3, 'nf=x': 3,
         'nf(x, y) = q_(x)+l_(z)': 3, 'nf(x)=x*xx': 3}
NAMED_ERR = ['Error: Built-in functions can not be redefined', 'Error: Function or constant already defined. Use clear command before redefinition',
             'Error: Recursive definition', 'Error: Unbound variable']


def heading(t, name, left):
    """what is reported for a left side that is an expression, but no function of distinct variables"""
    span = (0, max(1, len(left)))
    if t[0] == 'o' and t[1] == 'function':
        if t[2] != name:
            raise Discard()
        kids = t[3]
        if any(k[0] != 'v' for k in kids):
            return {('Function arguments must be variables',) + span}
        n = len({k[1] for k in kids})
        if n > 10:
            return {('Too many function parameters. Maximum is 10.',) + span}
        return {('Function arguments must be distinct variables',) + span} if n != len(kids) else None
    return {('Not a function or constant',) + span}


def gen_user(src):
    out = []
    for _ in range(src.int(1, 10)):
        k = src.raw(6)
        sp = lambda: src.choice(['', ' ', '  '])
        if k <= 1:
            t = failing(src, [], USER, ['q_', 'w_', 'k_c', 'l_'])
            out.append(['eval', '', t])
        elif k == 2:
            out.append(['eval', '', malformed(src, USER)])
        elif k == 3:
            left = sp() + src.choice(['nf', 'longname']) + sp() + src.choice(['(x)', '(x, y)', ' ( ab )'])
            out.append(['right', left + sp() + '=', malformed(src, USER, ['x'])])
        elif k == 4:
            left = sp() + src.choice(['c_', 'newconst'])
            out.append(['right', left + sp() + '=', failing(src, [], USER, ['q_', 'w_']) if src.flip() else malformed(src, USER, [])])
        elif src.flip(1, 3):
            args = src.choice([['x'], ['x', 'y'], ['x', 'y', 'x'], ['x+y'], ['1'], ['pi', 'x'], list('abcdefghiju'), list('abcdefghij'), list('abcdefghijab'), ['q_(x)'], ['(x)', 'y'], ['y', 'x y']])
            left = 'nf' + sp() + '(' + (sp() + ',' + sp()).join(args) + ')' if src.flip(7, 8) else 'nf'
            left = sp() + src.choice(['%s', '%s', '%s', '(%s)', '%s+1', '%s!', '%s x', '-%s', '%s^2', '2*%s', '%s' + sp() + '(x)', '{%s}', '3 %s']) % left + sp()
            out.append(['left', left, '1'])
        elif src.flip(1, 5):
            out.append(['left', src.choice(['', ' ', '2', ' 3', '+', '(x)', '-5', '(', '&']) + sp(), '1'])
        elif src.flip(1, 8):
            out.append(['clear', src.choice(['nosuch', 'x', 'Q_', 'q', 'q_ ', 'k_c_', 'l', 'sinn', ' q_', '+', '5', 'c_', 'a b', 'w', 'deriv2', 'an', 'ans_'])
                        + src.choice(['', '', ' ', 'z' * 30]), ''])
        elif src.flip(1, 6):
            out.append(['named', src.choice(list(NAMED)), ''])
        else:
            left = 'nf' + sp() + malformed(src, OpSet(USER.ops, USER.glue), ['x', 'y'])
            out.append(['left', left, '1'])
    return {'lines': out, 'noise': gen_noise(src, len(out))}


def check_user(case, ctx):
    todo = []
    for kind, pre, t in case['lines']:
        line = pre + t if kind != 'left' else pre + '=' + t
        if kind == 'eval' and not plain(line):
            continue
        if kind == 'clear':
            todo.append(('clear ' + pre, {('Unknown function or constant', 6, len(pre))}, 0))
            continue
        if kind == 'named':
            todo.append((pre, NAMED_ERR[NAMED[pre]], 0))
            continue
        if line.startswith(COMMANDS) or line.count('=') > 1 or len(line) > 900:
            continue
        try:
            if kind == 'eval':
                w, off = failures(t, USER, [], BODIES), 0
            else:
                left = pre.rstrip('=') if kind == 'right' else pre
                toks = [x for x in ref.tokenize(left, USER.keywords) if x[0] != ' ']
                if kind == 'left' and (not toks or not ref.is_letter(toks[0][0])):
                    todo.append((line, {('Not a function or constant', 0, max(1, len(left)))}, 0))
                    continue
                if not toks or not ref.is_letter(toks[0][0]) or USER.get(toks[0], 'function'):
                    continue
                if kind == 'right':
                    l_ops = None
                    n = 0 if len(toks) == 1 else left.count(',') + 1
                    r_ops = USER.with_ops([Op(toks[0], 'function', arity=n)])
                    tt = ref.tokenize(t, r_ops.keywords)
                    if toks[0] in tt:
                        continue
                    w, off = failures(t, r_ops, [], BODIES), len(pre)
                else:
                    l_ops = USER.with_ops([Op(toks[0], 'function', arity=0 if len(toks) == 1 else DYN)])
                    tt = ref.tokenize(left, l_ops.keywords)
                    try:
                        w = heading(ref.Parser(l_ops, tt).parse(), toks[0], left)
                        if w:
                            todo.append((line, w, 0))
                        continue
                    except ref.Reject:
                        pass
                    w, off = failures(left, l_ops, [], BODIES), 0
        except (Discard, ref.Unspecified, OverflowError):
            continue
        if w:
            todo.append((line, w, off))
    if not todo:
        raise Discard()
    res = noisy(ctx, ['L' + x for x in SETUP], [t[0] for t in todo], case['noise'])
    for (t, w, off), r in zip(todo, res):
        if isinstance(w, str):
            if r[0] or r[1].strip() or r[2].strip() != w:
                raise Violation('%r gives %r instead of %r' % (t, r, w))
            ctx.item(t, False)
            ctx.label(w[7:])
            continue
        m = compare(t, w, r, off)
        ctx.item(t, m[1] > 0 or m[2] > 1)
        ctx.label(m[0], 'definition' if '=' in t else 'user functions')


# ---------------------------------------------------------------- tables
GOOD = [['x^2', '1', 'x+1', 'sum(x,1)'], ['1', '-2', '0.5'], ['3', '2+2'], ['1', '0.5', '-1'], ['x+y', 'x', 'max(x,y)'], ['0', '1+1']]


def part(s, i):
    k = s.raw(6)
    if k <= 2:
        return ['bad', malformed(s, ref.ARITH_SET, ['x'])]
    if k == 3:
        return ['bad', failing(s, [])]
    if k == 4 and i in (1, 2, 3, 5):
        return ['nonconst', s.choice(['x', '2*y', 'x+y', 'ab'])]
    if i == 3 and s.flip(1, 3):
        return ['small', s.choice(['1/10^20', '-2^(-60)', '10^(-30)'])]
    if i == 3:
        return ['zero', s.choice(['0', '1-1', '0*5', '-0'])]
    if i == 0:
        return ['multi', s.choice(['x+y', 'x*y*z', 'ab-x'])]
    if i == 4:
        return ['foreign', s.choice(['x+z', 'ab', 'x*y*q'])]
    return ['bad', malformed(s, ref.ARITH_SET, ['x'])]


def gen_table(src):
    out = []
    for _ in range(src.int(1, 8)):
        n = src.choice([4, 6])
        i = src.raw(n)
        parts = [src.choice(GOOD[j]) for j in range(n)]
        kind, parts[i] = part(src, i)
        sp = [src.choice(['', ' ', '   ']) for _ in range(2 * n + 1)]
        line = 'table '
        for j in range(n):
            if j == i:
                line += sp[2 * j]
                col = len(line) + len(parts[j]) - len(parts[j].lstrip(' '))
                line += parts[j] + sp[2 * j + 1]
            else:
                line += sp[2 * j] + parts[j] + sp[2 * j + 1]
            line += '' if j == n - 1 else ' fold ' if j == 3 else ';'
        out.append([line, kind, i, parts[i].strip(' '), col])
    return {'lines': out}


def check_table(case, ctx):
    todo = []
    for line, kind, i, p, col in case['lines']:
        if ';' in p or ' fold ' in p or not p or len(line) > 900:
            continue
        if kind == 'bad':
            try:
                w = failures(p, ref.ARITH_SET, [])
            except (Discard, ref.Unspecified, OverflowError):
                continue
            if not w:
                continue
            w = {(a, b + col, c) for a, b, c in w}
        else:
            w = {({'nonconst': 'Not constant', 'zero': "'step' must not be zero", 'small': "'step' is too small", 'multi': 'More than one variable',
                   'foreign': "Fold expression must not contain any variables except 'x' and 'y'"}[kind], col, len(p))}
        todo.append((line, w))
    if not todo:
        raise Discard()
    res = gen.session(ctx, ['i1'] + ['L' + t for t, _ in todo])
    for (t, w), r in zip(todo, res[1:]):
        m = compare(t, w, r)
        ctx.item(t, True)
        ctx.label(m[0])


# ---------------------------------------------------------------- derivatives
def gen_deriv(src):
    out = []
    for _ in range(src.int(1, 6)):
        k = src.raw(4)
        pre = src.choice(['', '3+', 'x*', 'sin(x) - ', '2*x^2+', '  '])
        post = src.choice(['', '+x', ' * 2', '-1'])
        if k == 0:
            e = '(' + src.choice(['x*y', 'x+ab', 'sin(x)^y', 'y-x']) + src.choice([")'", ") '"])
            tok, msg = "'", "More than one variable in expr'"
        elif k == 1:
            e = 'deriv' + src.choice(['(', ' (']) + src.choice(['x^2', 'sin(x)', 'x*y']) + ',' + src.choice(['2', 'x+1', 'sin(x)', ' 2*x']) + ')'
            tok, msg = 'deriv', "Second operand of function 'deriv' must be variable"
        elif k == 2:
            e = 'deriv(' + src.choice(['floor(x)', 'x+abs(x)', '2*gamma(x)', 'sin(round(x))', 'x*ceil(x)', 'abs(x)^2']) + ', x)'
            tok, msg = 'deriv', 'Expression not continuously differentiable'
        else:
            e = '(' + src.choice(['floor(x)', 'x+abs(x)', 'x*ceil(x)', 'max(x,1)']) + ")'"
            tok, msg = "'", 'Expression not continuously differentiable'
        line = pre + e + post
        out.append([line, len(pre) + (e.index(tok)), tok, msg])
    return {'lines': out}


def check_deriv(case, ctx):
    res = gen.session(ctx, ['i1'] + ['L' + l[0] for l in case['lines']], warm=gen.rules_cmd())
    for (line, col, tok, msg), r in zip(case['lines'], res[1:]):
        compare(line, {(msg, col, len(tok))}, r)
        ctx.item(line, True)
        ctx.label(msg)


SUBS = [Sub('expressions', gen_expr, check_expr, quick=9000, need=['session']), Sub('user', gen_user, check_user, quick=5000, need=['session']),
        Sub('tables', gen_table, check_table, quick=5000, need=['session']), Sub('derivatives', gen_deriv, check_deriv, quick=600, thorough=2000, need=['session'])]
