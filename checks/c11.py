"""A failing command has no effect on later commands."""
import os
import pbt, gen, ref, model
from model import Model
import c09, c10
from pbt import Sub, Discard, Violation

RULE = ("non-trivial: at least two failing lines of different kinds stand between succeeding ones, and a later succeeding "
        "line evaluates a definition, the history or simplifies")

GOODRULES = ''.join('RULESET\n%s' % r for r in ['x+0 -> x\n', '', '', '', '', '', ''])
BADFILES = {
    'few': 'RULESET\nx+0 -> x\n',
    'norule': GOODRULES + 'x ->\n',
    'noarrow': GOODRULES + 'x + 1\n',
    'syntax': 'RULESET\n(x -> y\n' + GOODRULES,
    'unbound': 'RULESET\nx -> y\n' + GOODRULES,
    'many': GOODRULES + GOODRULES,
    'constraint': GOODRULES + 'x+y -> x WHERE type(\n',
    'lateunbound': GOODRULES + 'x+x -> 2*x\nx+y -> x+z\n',
    'badright': GOODRULES + 'x+y -> x+ WHERE type(x) == CONST ; type(y) == VAR\n',
    'badleft': GOODRULES + 'x+(y -> x WHERE type(x) == CONST\n',
    'constraint2': GOODRULES + 'x+y -> x WHERE type(x) == CONST ; type(\n',
    'toomany': GOODRULES + 'x+y -> x WHERE type(x) == CONST ; type(x) == VAR ; type(y) == VAR ; type(y) == OP\n',
    'unboundc': GOODRULES + 'x+y -> z WHERE type(x) == CONST ; type(y) == VAR\n',
    'unboundw': GOODRULES + 'x+y -> x WHERE type(x) == CONST ; type(z) == VAR\n',
    'badlist': GOODRULES + 'sum(x,[xs]) -> -[xs] WHERE type(x) == CONST\n',
    'vars': GOODRULES + 'sum(a,b,c,d,f,g,h,i,j,k,l) -> a WHERE a > 0\n',
    'empty': '',
}


def failing(s, m):
    k = s.raw(16)
    n = s.choice(list(m.defs)) if m.defs else 'f'
    if k <= 2:
        return c10.bad_definition(s, m)
    if k == 3:
        return s.choice(['1/0', '5 + sqrt(-1)', '0^0', '@99', '@(0-1)', '(1,2)', 'sin(1', '2 +', ')', '&', '1 2 C', 'ans + 1/0',
                         "3'", "x + 1/0", 'x + @77', 'root(0-1, 2)', 'sin()', 'log(1)', '$', '1..2', 'f_(1)'])
    if k == 4:
        return s.choice(['table', 'table ', 'table x', 'table x;1', 'table x;1;2', 'table x;1;2;0', 'table x;y;2;1', 'table x;1;y;1',
                         'table x;1;2;z', 'table x*y;1;2;1', 'table 1/0;1;2;1', 'table x;1;1/0;1', 'table x+;1;2;1',
                         'table x;1;3;1 fold x+z;0', 'table x;1;3;1 fold x+y', 'table x;1;3;1 fold x+y;', 'table x;1;3;1 fold ;0',
                         'table x;1;3;1 fold x+y;x', 'table x;1;3;1 fold x+y;1/0', 'table x;1;3;1 fold 1/0+x;0', 'table ;1;2;1',
                         'table x;1;2;1;5', 'table x;;2;1', 'table x;1;3;1 fold x+y;0;0'])
    if k == 5:
        return s.choice(['clear zzz', 'clear sin', 'clear pi', 'clear ', 'clear  f', 'clear f(x)', 'clear +', 'clear $'])
    if k == 6:
        return s.choice(['load ', 'load /nonexistent-dir/file', 'load simplification', 'load simplification /nonexistent-dir/r',
                         'load simplification ', 'load .'])
    if k <= 8:
        return 'load simplification @DIR@/%s' % s.choice(sorted(BADFILES))
    if k == 9:
        return '%s(x, y, y) = %s' % (s.choice(c10.NAMES), c10.expr(s, m, ['x']))
    if k == 10:
        return '%s(%s) = 1' % (s.choice(c10.NAMES), ','.join('abcdefghijkl'))
    if k == 11:
        return '%s(1%s' % (n, s.choice(['', ',2', ',', '+', '(']))
    if k == 12:
        return '%s(x) = %s + %s(' % (s.choice(c10.NAMES), n, n)
    if k == 13:
        return '%s = %s = 1' % (s.choice(c10.NAMES), n)
    if k == 14:
        t = c10.expr(s, m, ['x', 'u'])
        i = s.raw(len(t) + 1)
        return t[:i] + s.choice([')', '(', '&', ',', '+', '..', '^*', ' 1/0 ']) + t[i:]
    return s.choice(['deriv(x^2, 3)', "(x*y)'", "deriv(gamma(x),x)", "x! '", "deriv(x,2*x)", "3 + (u*v)'", "deriv(fib(x)*2, x)",
                     "deriv(x,x)+1/0"])


def good(s, m):
    k = s.raw(10)
    if k <= 3:
        return c10.definition(s, m)
    if k <= 6 and m.defs:
        return c10.use(s, m)
    if k == 7:
        return c09.line(s, m, False)
    if k == 8 and m.defs:
        return 'clear ' + s.choice(list(m.defs))
    if k == 9 and m.rules and s.flip(1, 6):
        return 'load simplification @DIR@/good'
    return s.choice(['ans', '@0', '@1', 'ans+1', 'x_ + 2*x_', 'help', '3*u - u', "deriv(u^3,u)" if m.rules else '2u', '2*(u+u)'])


def generate(src, rules):
    m = Model(rules=rules, maxsize=200)
    ls = []
    last = None
    for _ in range(src.choice([4, 8, 14, 20])):
        l = failing(src, m) if src.flip(2, 5) else good(src, m)
        if l in ('', 'quit') or l.startswith('#'):
            continue
        if l == 'help' or l.startswith('load '):
            ls.append(l)
            continue
        c = m.copy()
        try:
            r = c.line(l)
        except ref.Unspecified:
            continue
        if r.ok and r.kind == 'number' and not abs(r.value) < 1e100:
            continue
        m = c
        ls.append(l)
    return {'lines': ls}


KINDS = (('load simplification', 'ruleset'), ('load', 'load'), ('table', 'table'), ('clear', 'clear'))


def kind(l):
    for p, k in KINDS:
        if l.startswith(p):
            return k
    return 'definition' if '=' in l else 'expression'


def check(case, ctx, rules):
    if not os.path.exists(os.path.join(ctx.scratch, 'few')):
        os.makedirs(ctx.scratch, exist_ok=True)
        for n, t in list(BADFILES.items()) + [('good', GOODRULES)]:
            with open(os.path.join(ctx.scratch, n), 'w') as f:
                f.write(t)
    warm = gen.rules_cmd() if rules else None
    ops = ['L' + l.replace('@DIR@', ctx.scratch) for l in case['lines']]
    full = gen.session(ctx, ops, warm=warm)
    keep = []
    kinds = set()
    between = False
    for i, (l, (ok, out, err)) in enumerate(zip(case['lines'], full)):
        if ok and l.startswith('load') and l not in ('load simplification @DIR@/good', 'load simplification @DIR@/many', 'load .'):
            raise Violation('line %r succeeds, although the file is missing or malformed' % l)
        if ok and err != '':
            raise Violation('line %r succeeds with error message %r' % (l, err))
        if not ok:
            if err.strip() == '' or out != '':
                raise Violation('line %r fails with output %r and error message %r' % (l, out, err))
            kinds.add(kind(l))
            ctx.label('fails: ' + kind(l))
        else:
            keep.append(i)
    if len(keep) == len(ops):
        ctx.trivial()
        return
    only = gen.session(ctx, [ops[i] for i in keep], warm=warm)
    for i, g in zip(keep, only):
        if g != full[i]:
            raise Violation('line %r gives %r after failing lines, but %r without them\nall lines: %r'
                            % (case['lines'][i], full[i], g, case['lines']))
    if len(kinds) < 2 or not keep or keep[-1] < 2:
        ctx.trivial()


SUBS = [Sub('plain', lambda s: generate(s, False), lambda c, x: check(c, x, False), quick=9000, need=['session']),
        Sub('rules', lambda s: generate(s, True), lambda c, x: check(c, x, True), quick=2500, thorough=25000, need=['session'])]
