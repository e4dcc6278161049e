"""Simplification preserves the value of an expression."""
import re
import pbt, gen, ref, calc
from pbt import Sub, Discard, Violation

RULE = ("non-trivial: the expression contains a variable and at least two operators, its printed form changes by simplification, "
        "and it has been compared at two or more points")
ASSUMPTIONS = ['comparison at up to 6 points with variables in (0.2, 3) or (-3, -0.2); points where a subexpression of the base of a root or a power without whole constant exponent is not positive, '
               'or where rounding decides, are excluded', 'expressions of up to about 12 operators']

FUNCS = ['sqrt', 'exp', 'ln', 'log', 'root', 'sin', 'cos', 'tan', 'abs', 'max', 'min', 'sum', 'prod', 'avg', 'atan', 'sinh', 'ld', 'floor', 'gamma', 'sgn']
AR = {f: ref.FUNCS[f] for f in FUNCS}


def leaf(s, vs):
    k = s.raw(8)
    if k <= 3:
        return ['v', s.choice(vs)]
    if k <= 6:
        return ['c', float(s.choice([2, 1, 0, 3, 4, 5, 0.5, 10, 1.5, 7]))]
    return ['o', 'function', s.choice(['e', 'pi']), []]


def tree(s, budget, vs):
    pool = []  # equal subexpressions are what most rules are about

    def go(n, depth):
        if pool and s.flip(1, 5):
            return s.choice(pool)
        if n <= 0 or depth > 6:
            t = leaf(s, vs)
        else:
            k = s.raw(24)
            if k <= 4:
                l = s.raw(n)
                t = ['o', 'infix', '+', [go(l, depth + 1), go(n - 1 - l, depth + 1)]]
            elif k <= 7:
                l = s.raw(n)
                t = ['o', 'infix', '-', [go(l, depth + 1), go(n - 1 - l, depth + 1)]]
            elif k <= 12:
                l = s.raw(n)
                t = ['o', 'infix', '*', [go(l, depth + 1), go(n - 1 - l, depth + 1)]]
            elif k <= 14:
                l = s.raw(n)
                t = ['o', 'infix', '/', [go(l, depth + 1), go(n - 1 - l, depth + 1)]]
            elif k <= 17:
                if s.flip(2, 3):
                    e = s.choice([['c', 2.0], ['c', 3.0], ['c', 0.5], ['o', 'prefix', '-', [['c', 1.0]]], ['c', 1.0], ['c', 0.0], ['c', 4.0],
                                  ['o', 'prefix', '-', [['c', 2.0]]]])
                    t = ['o', 'infix', '^', [go(n - 1, depth + 1), e]]
                else:
                    l = s.raw(n)
                    t = ['o', 'infix', '^', [go(l, depth + 1), go(n - 1 - l, depth + 1)]]
            elif k <= 19:
                t = ['o', 'prefix', s.choice(['-', '-', '-', '+', '$']), [go(n - 1, depth + 1)]]
            elif k == 20:
                t = ['o', 'postfix', '%', [go(n - 1, depth + 1)]]
            else:
                f = s.choice(FUNCS)
                ar = AR[f]
                if ar == ref.DYN:
                    ar = s.choice([2, 3, 1, 4])
                if f == 'log' and s.flip():
                    t = ['o', 'function', f, [go(n - 1, depth + 1), ['o', 'function', 'e', []]]]
                else:
                    t = ['o', 'function', f, [go((n - 1) // ar, depth + 1) for _ in range(ar)]]
        if t[0] == 'o' and ref.size(t) < 8:
            pool.append(t)
        return t
    return go(budget, 0)


# shapes that the rules are about: sums of products, products of powers, trigonometric identities
def shaped(s, vs):
    def v():
        return ['v', s.choice(vs)]

    def atom():
        k = s.raw(8)
        return v() if k <= 4 else calc.fn(s.choice(['sin', 'cos', 'ln', 'tan']), v()) if k <= 6 else ['o', 'infix', '+', [v(), ['c', float(s.int(1, 4))]]]

    def factor():
        k = s.raw(8)
        if k <= 2:
            return atom()
        if k <= 4:
            e = ['c', float(s.choice([2, 3, 1, 4, 0.5, 1.5]))]
            return ['o', 'infix', '^', [atom(), e if s.flip(2, 3) else ['o', 'prefix', '-', [e]]]]
        if k == 5:
            return ['o', 'infix', '^', [['c', float(s.int(2, 5))], v()]]
        if k == 6:
            return ['c', float(s.int(0, 6))]
        return ['o', 'infix', '^', [atom(), v()]]

    def product():
        t = factor()
        for _ in range(s.raw(4)):
            t = ['o', 'infix', s.choice(['*', '*', '*', '/']), [t, factor()]]
        return ['o', 'prefix', '-', [t]] if s.flip(1, 6) else t
    t = product()
    for _ in range(s.raw(4)):
        p = product()
        if s.flip(1, 5):
            t = ['o', 'infix', s.choice(['+', '-']), [p, t]]
        else:
            t = ['o', 'infix', s.choice(['+', '-', '+']), [t, p]]
    k = s.raw(8)
    if k == 0:
        t = ['o', 'infix', '*', [product(), t]]
    elif k == 1:
        t = ['o', 'infix', '^', [t, ['c', 2.0]]]
    elif k == 2:
        t = ['o', 'prefix', '-', [t]]
    elif k == 3:
        x = v() if s.flip() else atom()
        y = x if s.flip(2, 3) else s.choice([atom(), v(), ['o', 'prefix', '-', [x]], ['o', 'infix', '+', [x, ['c', 1.0]]]])  # or nearly that
        sq = [['o', 'infix', '^', [calc.fn(f, z), ['c', 2.0 if s.flip(7, 8) else 3.0]]] for f, z in (('sin', x), ('cos', y))]
        t = ['o', 'infix', '+', [['o', 'infix', '+', [sq[0], t]], sq[1]]] if s.flip() else ['o', 'infix', '+', [sq[1], ['o', 'infix', '+', [sq[0], t]]]]
    elif k == 4:
        t = ['o', 'infix', '/', [product(), t]]
    elif k == 5:
        t = ['o', 'infix', '-', [product(), t]]
    return t


def text_of(s, t):
    """full parentheses or as few as the reference needs"""
    return ref.full_text(t)


def gen_value(src):
    vs = src.choice([['x'], ['x', 'y'], ['x', 'y', 'z'], ['a', 'b'], ['cx', 'x'], ['xs', 'z'], ['long_variable_name_a', 'long_variable_name_b'], ['a', 'aa', 'ab']])
    ts = []
    for _ in range(src.int(1, 6)):
        t = shaped(src, vs) if src.flip() else tree(src, src.choice([2, 4, 6, 9]), vs)
        ts.append(ref.full_text(t))
    return {'texts': ts}


def check_value(case, ctx):
    texts = case['texts']
    got = gen.simplifying(ctx, ['L' + t for t in texts], [ref.size(ref.parse_text(t)) for t in texts], warm=gen.rules_cmd())
    for t, g in zip(texts, got):
        if len(re.sub(r"[a-z]+_[a-z_0-9]+", "x", t)) > 400:
            continue
        if g is None:
            ctx.item(t, False)
            ctx.label('not simplified within CPU limit')
            continue
        ok, out, err = g
        orig = ref.parse_text(t)
        vs = ref.variables(orig)
        seed = pbt._seed(t) % 1000003
        if not ok:
            # no result: there must be no point (of the domain) where the expression has a value
            r = __import__('random').Random(seed)
            bad = 0
            for _ in range(4):
                try:
                    v, d = calc.spread(orig, {v: r.uniform(0.2, 3) for v in vs}, seed, 0.0)
                    bad += d < 1e-9 * max(1, abs(v))
                except (calc.Outside, ref.Unspecified):
                    pass
            if bad >= 3:
                raise Violation('%r is refused (%r), but has a value' % (t, err))
            ctx.item(t, False)
            ctx.label('error')
            continue
        res = out.strip('\n')
        if any(x in res for x in ('inf', 'nan', 'e+', 'e-')):
            ctx.item(t, False)
            ctx.label('not representable as input')
            continue
        try:
            new = ref.parse_text(res)
        except ref.Reject as e:
            raise Violation('%r is simplified to %r, which is no expression (%s)' % (t, res, e))
        extra = set(ref.variables(new)) - set(vs)
        if extra:
            raise Violation('simplification of %r introduces %s: %r' % (t, sorted(extra), res))
        used, msg = calc.compare(orig, new, vs, seed, intpow=True)
        if msg:
            raise Violation('%r is simplified to %r: %s' % (t, res, msg))
        ctx.item(t, used >= 2 and bool(vs) and ref.size(orig) > 4 and not ref.same(orig, new))
        ctx.label('compared at %d points' % used)


def gen_const(src):
    out = []
    for _ in range(src.int(1, 8)):
        t = gen.expr_text(src, ref.ARITH_SET, vars_=[], budget=src.choice([3, 6, 12]))
        if 'rand' in t or 'deriv' in t or "'" in t:
            t = '%d + 0' % src.int(0, 9)
        out.append(t)
    return {'lines': ['42', '1/3'] + out}


def check_const(case, ctx):
    ls = ['L' + t for t in case['lines']]
    a = gen.session(ctx, ls)
    b = gen.session(ctx, ls, warm=gen.rules_cmd())
    for t, x, y in zip(case['lines'], a, b):
        ctx.item(t, ref.size(ref.parse_text(t)) > 2)
        ctx.label('value' if x[0] else 'error')
        if x != y:
            raise Violation('%r gives %r with simplification, but %r without' % (t, y, x))


SUBS = [Sub('value', gen_value, check_value, quick=2500, thorough=40000, need=['session']),
        Sub('constant', gen_const, check_const, quick=2500, thorough=40000, need=['session'])]
