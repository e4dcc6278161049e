"""Numeric comparison of expressions at random points, independent symbolic differentiation."""
import math, random
import ref
from ref import EvalError, Unspecified

POWERS = {('infix', '^'), ('function', 'root'), ('function', 'sqrt')}


UNDERFLOW = {'/', '^', 'root', '*', 'prod'}


class Outside(Exception):
    """the point is not in the domain of the comparison"""


class Huge(Outside):
    """not representable or too large"""


def int_exponent(t):
    """the exponent is a whole number, whatever the variables are"""
    if ref.variables(t):
        return False
    try:
        v = value(t, {}, positive=False)
    except (Outside, Unspecified):
        return False
    return v == math.floor(v) and abs(v) < 50


def value(t, env, rng=None, cj=0.0, oj=1e-13, positive=True, intpow=False):
    """Value of t. rng: perturb constants relatively by cj and results of operators by oj.
    positive: every subexpression of the base of a power has to be positive, otherwise Outside.
    intpow: not of powers with a whole exponent."""
    def go(n, pos):
        if n[0] == 'c':
            v = n[1]
            if rng is not None and cj and v != math.floor(v):
                v *= 1 + rng.uniform(-cj, cj)
        elif n[0] == 'v':
            v = env[n[1]]
        else:
            base = positive and (n[1], n[2]) in POWERS
            if base and intpow and n[2] == '^' and int_exponent(n[3][1]):
                base = False
            a = []
            for i, c in enumerate(n[3]):
                # the exponent of a power within a base does not have to be positive, its base has to be
                inner = pos and not (n[1:3] == ['infix', '^'] and i == 1) and not n[1:3] == ['function', 'root'] and n[2] not in TRANSPARENT_NOT
                a.append(go(c, (base and i == 0) or inner))
            if n[1:3] == ['function', 'root'] and abs(a[1]) < 1e-12:
                raise Outside()  # there is no zeroth root
            try:
                v = ref.apply_op(n[1], n[2], a)
            except (OverflowError, ValueError):
                raise Huge()
            except EvalError:
                raise Outside()
            if rng is not None and oj and not (n[1] == 'function' and not n[3] and False):
                v *= 1 + rng.uniform(-oj, oj)
        if math.isinf(v) or abs(v) > 1e100:
            raise Huge()
        if abs(v) < 1e-100 and n[0] == 'o' and (v != 0 or n[2] == 'exp' or n[2] in UNDERFLOW and a[0] != 0 and (n[2] in ('/', '^', 'root') or 0 not in a)):
            raise Huge()  # underflow
        if v != v:
            raise Outside()
        if pos and not v > 1e-12:
            raise Outside()
        if pos and n[0] == 'o' and n[2] == 'tan' and not math.cos(a[0]) > 0:
            raise Outside()  # a quotient of negative parts
        return v
    return go(t, False)


# arguments of these are not touched by rules about powers
TRANSPARENT_NOT = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'ln', 'log', 'abs', 'exp', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'round', 'max',
                   'min', 'ld', 'lg', 'gamma', 'sgn', '!', 'asinh', 'acosh', 'atanh', 'trunc', 'frac', 'fib', 'gcd', 'lcm', 'mod', 'C'}


def spread(t, env, seed, cj, n=5, **kw):
    """value and largest deviation of perturbed evaluations"""
    v = value(t, env, None, **kw)
    d = 0.0
    for i in range(n):
        d = max(d, abs(value(t, env, random.Random(seed * 31 + i), cj, **kw) - v))
    return v, d


def compare(orig, new, variables, seed, npoints=6, const_tol=1e-10, lo=0.2, hi=3.0, extra=None, intpow=False):
    """-> (number of usable points, message or None)"""
    r = random.Random(seed)
    used = 0
    for k in range(npoints):
        env = {v: r.uniform(lo, hi) * (1 if k % 2 == 0 else r.choice((1, -1, -1))) for v in variables}
        try:
            a, da = spread(orig, env, seed + k, 0.0, intpow=intpow)
            if extra:
                extra(env)
        except (Outside, Unspecified):
            continue
        scale = max(1.0, abs(a))
        if da > 1e-6 * scale:
            continue
        # the comparison only needs the value of the new expression: bases may be anything there
        try:
            b, db = spread(new, env, seed + k, const_tol, positive=False)
        except (Unspecified, Huge):
            continue
        except Outside:
            # may be a matter of rounding (e.g. sqrt of a tiny negative number): needs to fail nearby, too
            bad = 0
            for _ in range(4):
                e2 = {v: x * (1 + r.uniform(-1e-3, 1e-3)) for v, x in env.items()}
                try:
                    value(orig, e2, intpow=intpow)
                    if extra:
                        extra(e2)
                except (Outside, Unspecified):
                    continue
                try:
                    value(new, e2, positive=False)
                except (Unspecified, Huge):
                    pass
                except Outside:
                    bad += 1
            if bad >= 3:
                return used, 'at %s the original is %.12g, but the result has no value' % (env, a)
            continue
        if db > 1e-4 * max(1.0, abs(b)):
            continue
        used += 1
        if abs(a - b) > 1e-8 * scale + 50 * da + 50 * db:
            # steps (floor, mod, ...) are hit by rounding, 5 perturbations may all be on the same side
            try:
                da = spread(orig, env, seed + k, 1e-9, n=300, oj=1e-11, intpow=intpow)[1]
                db = spread(new, env, seed + k, 1e-9, n=300, oj=1e-11, positive=False)[1]
            except (Outside, Unspecified):
                continue
            if abs(a - b) <= 1e-8 * scale + 3 * da + 3 * db:
                continue
            return used, 'at %s the original is %.12g, the result is %.12g' % (env, a, b)
    return used, None


# ---------------------------------------------------------------- differentiation
def c(v):
    return ['c', float(v)]


def op(n, a, b):
    return ['o', 'infix', n, [a, b]]


def fn(n, *a):
    return ['o', 'function', n, list(a)]


def neg(a):
    return ['o', 'prefix', '-', [a]]


class NoRule(Exception):
    pass


ZERO, ONE = c(0), c(1)


def is0(t):
    return t[0] == 'c' and t[1] == 0


def mul(a, b):
    return ZERO if is0(a) or is0(b) else op('*', a, b)


def add(a, b):
    return b if is0(a) else a if is0(b) else op('+', a, b)


def diff(t, x):
    """derivative with respect to x; t contains no derivatives"""
    if t[0] == 'c':
        return ZERO
    if t[0] == 'v':
        return ONE if t[1] == x else ZERO
    p, n, a = t[1], t[2], t[3]
    if x not in ref.variables(t):
        return ZERO
    d = [diff(k, x) for k in a]
    if p == 'prefix' and n in '$+':
        return d[0]
    if p == 'prefix' and n == '-':
        return ZERO if is0(d[0]) else neg(d[0])
    if p == 'postfix' and n == '%':
        return mul(d[0], c(0.01))
    if p == 'infix':
        if n == '+':
            return add(d[0], d[1])
        if n == '-':
            return d[0] if is0(d[1]) else add(d[0], neg(d[1]))
        if n == '*':
            return add(mul(d[0], a[1]), mul(a[0], d[1]))
        if n == '/':
            num = add(mul(d[0], a[1]), mul(mul(c(-1), a[0]), d[1]))
            return ZERO if is0(num) else op('/', num, op('*', a[1], a[1]))
        if n == '^':
            r = ZERO
            if not is0(d[0]):
                r = mul(mul(a[1], d[0]), op('^', a[0], op('-', a[1], c(1))))
            if not is0(d[1]):
                r = add(r, mul(mul(d[1], fn('ln', a[0])), t))
            return r
    if p == 'function':
        u = a[0] if a else None
        one = {'sin': lambda: fn('cos', u), 'cos': lambda: neg(fn('sin', u)), 'tan': lambda: op('/', ONE, op('*', fn('cos', u), fn('cos', u))),
               'asin': lambda: op('/', ONE, fn('sqrt', op('-', c(1), op('*', u, u)))),
               'acos': lambda: op('/', c(-1), fn('sqrt', op('-', c(1), op('*', u, u)))),
               'atan': lambda: op('/', ONE, op('+', c(1), op('*', u, u))), 'ln': lambda: op('/', ONE, u), 'exp': lambda: t,
               'sqrt': lambda: op('/', c(.5), t)}
        if n in one:
            return mul(one[n](), d[0])
        if n == 'root':
            return diff(op('^', a[0], op('/', c(1), a[1])), x)
        if n == 'sum':
            r = ZERO
            for k in d:
                r = add(r, k)
            return r
        if n == 'avg':
            return mul(diff(fn('sum', *a), x), c(1 / len(a))) if a else ZERO
        if n == 'prod':
            r = ZERO
            for i in range(len(a)):
                f = d[i]
                for j in range(len(a)):
                    if j != i:
                        f = mul(f, a[j])
                r = add(r, f)
            return r
    raise NoRule(n)
