"""Derivatives are correct."""
import pbt, gen, ref, calc
import c06
from pbt import Sub, Discard, Violation

RULE = ("non-trivial: the differentiated expression has at least two operators and contains the variable, and the result has been compared "
        "with the reference derivative at two or more points; misuse: every case")
ASSUMPTIONS = ['comparison at up to 6 points with variables in (0.2, 3); points where a subexpression of the base of a power is not positive, '
               'or where rounding decides, are excluded', 'differentiated expressions of up to about 8 operators']

SMOOTH = ['sin', 'cos', 'tan', 'exp', 'ln', 'sqrt', 'asin', 'acos', 'atan', 'root', 'sum', 'prod', 'avg']
OTHER = ['log', 'abs', 'sinh', 'floor', 'max', 'gamma', 'ld', 'sgn', 'min', 'cosh', 'lg']
UNKNOWN = {'C', 'mod', '!', 'asinh', 'acosh', 'atanh', 'tanh', 'ceil', 'round', 'trunc', 'frac', 'gcd', 'lcm', 'fib', 'var'}
AR = ref.FUNCS


def tree(s, n, vs, other=False, depth=0):
    if n <= 0:
        return c06.leaf(s, vs)
    k = s.raw(20)
    if k <= 8:
        o = s.choice(['+', '-', '*', '*', '*', '/'])
        l = s.raw(n)
        return ['o', 'infix', o, [tree(s, l, vs, other, depth + 1), tree(s, n - 1 - l, vs, other, depth + 1)]]
    if k <= 11:
        m = s.raw(4)
        if m <= 1:
            e = s.choice([['c', 2.0], ['c', 3.0], ['c', 0.5], ['o', 'prefix', '-', [['c', 1.0]]], ['c', 1.0], ['c', 4.0]])
            return ['o', 'infix', '^', [tree(s, n - 1, vs, other, depth + 1), e]]
        if m == 2:
            return ['o', 'infix', '^', [['o', 'function', 'e', []] if s.flip() else ['c', float(s.int(2, 4))], tree(s, n - 1, vs, other, depth + 1)]]
        l = s.raw(n)
        return ['o', 'infix', '^', [tree(s, l, vs, other, depth + 1), tree(s, n - 1 - l, vs, other, depth + 1)]]
    if k == 12:
        return ['o', 'prefix', s.choice(['-', '-', '+', '$']), [tree(s, n - 1, vs, other, depth + 1)]]
    if k == 13:
        return ['o', 'postfix', '%', [tree(s, n - 1, vs, other, depth + 1)]]
    f = s.choice(OTHER if other and s.flip(1, 3) else SMOOTH)
    ar = AR[f]
    if ar == ref.DYN:
        ar = s.choice([2, 1, 3])
    if f == 'log' and s.flip():
        return ['o', 'function', f, [tree(s, n - 1, vs, other, depth + 1), ['o', 'function', 'e', []]]]
    return ['o', 'function', f, [tree(s, (n - 1) // ar, vs, other, depth + 1) for _ in range(ar)]]


def expected(t):
    """tree without derivatives; raises NoRule / Misuse"""
    if t[0] != 'o':
        return t
    if t[1:3] == ['postfix', "'"]:
        f = expected(t[3][0])
        vs = ref.variables(t[3][0])
        if len(vs) > 1:
            raise Misuse()
        return calc.diff(f, vs[0] if vs else 'z')
    if t[1:3] == ['function', 'deriv']:
        f = expected(t[3][0])
        if t[3][1][0] != 'v':
            raise Misuse()
        return calc.diff(f, t[3][1][1])
    return ['o', t[1], t[2], [expected(k) for k in t[3]]]


class Misuse(Exception):
    pass


def gen_deriv(src):
    out = []
    for _ in range(src.int(1, 4)):
        vs = src.choice([['x'], ['x'], ['x', 'y'], ['x', 'y', 'z'], ['z'], ['y', 'cx'], ['z', 'xs', 'cy'], ['long_var_a', 'long_var_b'], ['a', 'aa']])
        other = src.flip(1, 6)
        n = src.choice([1, 2, 3, 4, 6])
        f = tree(src, n, vs, other)
        k = src.raw(8)
        if k <= 1 and len(ref.variables(f)) <= 1:
            t = ['o', 'postfix', "'", [f]]
        elif k == 2 and n <= 3:
            g = ['o', 'function', 'deriv', [f, ['v', src.choice(vs)]]]
            t = ['o', 'function', 'deriv', [g, ['v', src.choice(vs)]]] if src.flip() or len(ref.variables(g)) > 1 else ['o', 'postfix', "'", [g]]
        else:
            t = ['o', 'function', 'deriv', [f, ['v', src.choice(vs + ['w'])]]]
        k = src.raw(8)
        if k == 0:
            t = ['o', 'infix', src.choice('+-*/'), [tree(src, 1, vs), t]]
        elif k == 1:
            t = ['o', 'infix', src.choice('+-*'), [t, tree(src, 1, vs)]]
        elif k == 2:
            t = ['o', 'prefix', '-', [t]]
        elif k == 3 and n <= 3:
            u = tree(src, 2, vs)
            t = ['o', 'infix', src.choice('+-*'), [t, ['o', 'function', 'deriv', [u, ['v', src.choice(vs)]]]]]
        out.append(ref.full_text(t))
    return {'texts': out}


def judge(t, line, got, ctx):
    ok, out, err = got
    orig = ref.parse_text(t)
    vs = ref.variables(orig)
    seed = pbt._seed(t) % 1000003
    norule = any(n[0] == 'o' and (n[2] in OTHER or n[2] in UNKNOWN) and ref.variables(n) for n in ref.walk(orig))
    try:
        want = expected(orig)
    except calc.NoRule:
        norule = True
        want = None
    if ref.size(want) > 3000 if want else False:
        raise Discard()
    if not ok:
        if out != '':
            raise Violation('%r fails (%r), but prints %r' % (line, err, out))
        if norule:
            if 'not continuously differentiable' not in err and 'Division by zero' not in err and 'Complex' not in err:
                raise Violation('%r cannot be differentiated, but the error is %r' % (line, err))
            ctx.item(line, True)
            ctx.label('not differentiable')
            return
        r = __import__('random').Random(seed)
        good = 0
        for _ in range(4):
            try:
                env = {v: r.uniform(0.2, 3) for v in vs}
                v, d = calc.spread(want, env, seed, 0.0)
                v2 = inner_defined(orig, env)
                good += d < 1e-9 * max(1, abs(v))
            except (calc.Outside, ref.Unspecified):
                pass
        if good >= 3:
            raise Violation('%r is refused (%r), but the derivative is defined' % (line, err))
        ctx.item(line, False)
        ctx.label('error')
        return
    res = out.strip('\n')
    if any(x in res for x in ('inf', 'nan', 'e+', 'e-')):
        ctx.item(line, False)
        return
    new = ref.parse_text(res)
    for n in ref.walk(new):
        if n[0] == 'o' and (n[2] == 'deriv' or n[2] == "'"):
            raise Violation('%r gives %r' % (line, res))
    extra = set(ref.variables(new)) - set(vs)
    if extra:
        raise Violation('%r gives %r with new variables %s' % (line, res, sorted(extra)))

    if want is None:
        ctx.item(line, False)
        ctx.label('result without reference')
        return
    used, msg = compare(orig, want, new, vs, seed)
    if msg:
        raise Violation('%r gives %r: %s' % (line, res, msg))
    ctx.item(line, used >= 2 and ref.size(orig) > 4)
    ctx.label('compared at %d points' % used)


def inner_defined(orig, env):
    """the differentiated expressions themselves have to be defined with positive bases, too"""
    for n in ref.walk(orig):
        if n[0] == 'o' and (n[1:3] == ['function', 'deriv'] or n[1:3] == ['postfix', "'"]):
            calc.value(expected(n[3][0]), env, intpow=True)


def compare(orig, want, new, vs, seed):
    def check_env(env):
        inner_defined(orig, env)
    return calc.compare(want, new, vs, seed, extra=check_env, intpow=True)


def check_deriv(case, ctx):
    texts = [t for t in case['texts'] if len(t) < 300]
    if not texts:
        raise Discard()
    got = gen.simplifying(ctx, ['L' + t for t in texts], [ref.size(ref.parse_text(t)) for t in texts], warm=gen.rules_cmd())
    for t, g in zip(texts, got):
        if g is None:
            ctx.item(t, False)
            ctx.label('not simplified within CPU limit')
            continue
        judge(t, t, g, ctx)


# ---------------------------------------------------------------- user definitions
NAMES = ['x', 'y', 'z', 'f', 'g', 'k', 'cx', 'cy', 'h', 'xs']


def gen_defs(src):
    """functions and constants defined before or after the rules are loaded, named like variables of the rules, too"""
    names = src.perm(NAMES)
    defs, lines = {}, []
    var = [n for n in names[4:]] + ['u', 'v']
    for n in names[:src.int(1, 3)]:
        if src.flip():
            v = src.int(1, 9)
            defs[n] = ([], ['c', float(v)])
            lines.append('%s = %d' % (n, v))
        else:
            ps = [p for p in src.perm(['u', 'v', 'q', 'z', 'x']) if p not in defs][:src.int(1, 2)]
            b = tree(src, src.choice([1, 2, 3]), ps)
            if any(v not in ps for v in ref.variables(b)):
                continue
            try:
                calc.value(b, {p: 1.3 for p in ps}, positive=False)
            except (calc.Outside, ref.Unspecified):
                continue
            defs[n] = (ps, b)
            lines.append('%s(%s) = %s' % (n, ', '.join(ps), ref.full_text(b)))
    vs = src.choice([var[:1], var[:2]])
    t = tree(src, src.choice([1, 2, 3]), vs)

    def use(t):
        if t[0] == 'o':
            t = ['o', t[1], t[2], [use(k) for k in t[3]]]
        if defs and src.flip(1, 3):
            n = src.choice(sorted(defs))
            ps = defs[n][0]
            if not ps:
                return ['o', 'infix', src.choice('*+'), [['o', 'function', n, []], t]]
            return ['o', 'function', n, [t if i == 0 else c06.leaf(src, vs) for i in range(len(ps))]]
        return t
    t = use(t)
    v = src.choice(vs)
    t = ['o', 'function', 'deriv', [t, ['v', v]]] if src.flip(2, 3) or len(ref.variables(t)) != 1 else ['o', 'postfix', "'", [t]]
    return {'defs': lines, 'late': src.flip(1, 3), 'expr': t}


def plain_text(t, consts):
    if t[0] == 'o' and t[1] == 'function' and not t[3] and t[2] in consts:
        return t[2]
    if t[0] == 'o':
        x = ['o', t[1], t[2], [['v', plain_text(k, consts)] for k in t[3]]]
        return ref.full_text(x)
    return ref.full_text(t)


def check_defs(case, ctx):
    import model
    m = model.Model(rules=True)
    for l in case['defs']:
        try:
            if not m.line(l).ok:
                raise Discard()
        except ref.Unspecified:
            raise Discard()
    text = plain_text(case['expr'], {n for n, d in m.defs.items() if not d[0]})
    if len(text) > 300:
        raise Discard()
    try:
        t = m.expand(m.parse(text))
    except (model.Fail, ref.Unspecified):
        raise Discard()
    if ref.size(t) > 40:
        raise Discard()
    load = gen.rules_cmd()
    lines = case['defs'] + [load, text] if not case['late'] else [load] + case['defs'] + [text]
    got = gen.session(ctx, ['L' + l for l in lines], size=ref.size(t), cpu_ms=20000)
    for l, g in zip(lines[:-1], got):
        if not g[0]:
            if l == load:
                raise Violation('%r fails after %r: %r' % (l, case['defs'], g))
            raise Discard()
    if t[1:3] == ['postfix', "'"] and len(ref.variables(t)) > 1:
        raise Discard()
    judge(ref.full_text(t), '; '.join(lines), got[-1], ctx)


# ---------------------------------------------------------------- misuse
def depends_on(f, vs):
    """variables on which the value of f certainly depends"""
    import random
    r = random.Random(5)
    dep = set()
    for _ in range(4):
        env = {v: r.uniform(0.4, 2) for v in vs}
        try:
            a, d = calc.spread(f, env, 7, 0.0, positive=False)
        except (calc.Outside, ref.Unspecified):
            continue
        for v in vs:
            e2 = dict(env)
            e2[v] *= 1.1
            try:
                b, d2 = calc.spread(f, e2, 7, 0.0, positive=False)
            except (calc.Outside, ref.Unspecified):
                continue
            if abs(a - b) > 1e-5 * max(1, abs(a)) + 100 * (d + d2):
                dep.add(v)
    return dep


def gen_misuse(src):
    k = src.raw(4)
    vs = ['x', 'y']
    if k <= 1:  # ' with several variables
        f = tree(src, src.choice([1, 2, 4]), vs)
        t, kind = ['o', 'postfix', "'", [f]], 'variables'
        need = f
    elif k == 2:
        f = tree(src, src.choice([0, 1, 3]), vs)
        by = src.choice([['c', 3.0], ['o', 'infix', '*', [['c', 2.0], ['v', 'x']]], ['o', 'infix', '^', [['v', 'x'], ['c', 2.0]]], ['o', 'function', 'pi', []],
                         calc.fn('sin', ['v', 'x']), ['o', 'infix', '+', [['v', 'x'], ['v', 'y']]], ['o', 'infix', '*', [['v', 'x'], ['v', 'y']]],
                         ['o', 'prefix', '-', [['v', 'x']]], ['c', 0.0]])
        t, kind = ['o', 'function', 'deriv', [f, by]], 'variable'
        need = None
    else:
        g = src.choice(OTHER[:1] + OTHER)
        ar = AR[g] if AR[g] != ref.DYN else 2
        f = ['o', 'function', g, [['o', 'infix', '+', [['v', 'x'], tree(src, src.raw(2), ['x'])]] for _ in range(ar)]]
        if src.flip():
            f = ['o', 'infix', src.choice('*+'), [f, ['v', 'x']]]
        t, kind = ['o', 'function', 'deriv', [f, ['v', 'x']]], 'rule'
        need = f
    w = src.raw(5)
    if w == 0:
        t = ['o', 'infix', '+', [['v', 'x'], t]]
    elif w == 1:
        t = ['o', 'infix', '*', [t, ['c', 3.0]]]
    elif w == 2:
        t = ['o', 'prefix', '-', [t]]
    return {'text': ref.full_text(t), 'kind': kind, 'need': need}


def check_misuse(case, ctx):
    t, kind, need = case['text'], case['kind'], case['need']
    if len(t) > 300:
        raise Discard()
    if need is not None:
        core = need
        if kind == 'rule':
            core = need if need[1] == 'function' else need[3][0]
            if any(len(ref.variables(a)) == 0 for a in core[3]):
                raise Discard()
        dep = depends_on(core, ref.variables(core))
        if len(dep) < (2 if kind == 'variables' else 1):
            raise Discard()
        if kind == 'rule' and not any(n[0] == 'o' and n[2] in OTHER for n in ref.walk(need)):
            raise Discard()
    got = gen.session(ctx, ['L7', 'L' + t, 'Lans'], warm=gen.rules_cmd(), size=ref.size(ref.parse_text(t)), cpu_ms=20000)
    ok, out, err = got[1]
    if kind == 'rule' and ok:
        # the function may have been simplified away, e.g. max(u, u)
        new = ref.parse_text(out.strip('\n')) if not any(x in out for x in ('inf', 'nan', 'e+', 'e-')) else None
        if new is None or not any(n[0] == 'o' and (n[2] == 'deriv' or n[2] == "'") for n in ref.walk(new)):
            g = need if need[1] == 'function' else need[3][0]
            if g[2] in ('max', 'min', 'abs', 'floor', 'sgn'):
                raise Discard()
            raise Violation('%r has no rule, but gives %r' % (t, out))
    if ok or out != '' or err.strip() == '':
        raise Violation('%r has to be refused (%s), but gives %r' % (t, kind, (ok, out, err)))
    if got[2][1] != '7\n':
        raise Violation('%r changes the last result to %r' % (t, got[2]))
    ctx.label('refused: ' + kind)


SUBS = [Sub('derivatives', gen_deriv, check_deriv, quick=2500, thorough=40000, need=['session']),
        Sub('definitions', gen_defs, check_defs, quick=1500, thorough=20000, need=['session']),
        Sub('misuse', gen_misuse, check_misuse, quick=2000, thorough=20000, need=['session'])]
