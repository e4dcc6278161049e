"""Expressions are read with the documented precedence and grouping."""
import pbt, gen, ref
from pbt import Sub, Violation

RULE = ("non-trivial: the expression has at least two operators and differs from its fully parenthesised form (every "
        "operand in parentheses) not only in blanks")


def gen_struct(src):
    return {'texts': src.list(1, 24, lambda s: gen.expr_text(s, ref.ARITH_SET, budget=s.choice([4, 8, 14, 22]),
                                                             special=s.flip(1, 10)))}


def check_struct(case, ctx):
    ops = ['ctx', 'arith']
    for t in case['texts']:
        ops += ['parse', '0', t]
    r = ctx.driver('engine').run(ops)
    gen.need_ok(r, case['texts'])
    for i, t in enumerate(case['texts']):
        try:
            want = ref.parse_text(t)
        except ref.Reject as e:
            continue  # decided by C03
        nodes = [n for n in ref.walk(want) if n[0] == 'o' and n[1] != 'function']
        ctx.item(t, len(nodes) >= 2)
        for p in {n[1] + ':' + n[2] for n in nodes}:
            ctx.label(p)
        if r.fields[3 * i] != b'1':
            raise Violation('well-formed expression is rejected: %r' % t)
        got = gen.from_dump(r.fields[3 * i + 2])
        if not ref.same(got, want):
            raise Violation('%r is read as %s, but means %s' % (t, ref.show(got), ref.show(want)))


PRE = ['L3', 'L5', 'L7.5']


def gen_value(src):
    vs = [] if src.flip(2, 3) else ['x', 'y', 'ab']
    t = gen.expr_text(src, ref.ARITH_SET, budget=src.choice([3, 6, 10]), vars_=vs,
                      funcs=['sum', 'max', 'abs', 'sgn', 'prod', 'floor', 'pi', 'e', 'ans', 'sqrt', 'gcd', 'fib', 'ln'],
                      postfix=['!', '%'])
    return {'text': t, 'blanks': src.raw(1 << 12)}


def check_value(case, ctx):
    """result of a line equals the result of its fully parenthesised form, and of the form with other spacing"""
    t = case['text']
    try:
        want = ref.parse_text(t)
    except ref.Reject as e:
        raise pbt.Discard('not well-formed: %s' % e)
    toks = [k for k in ref.tokenize(t, ref.ARITH_SET.keywords) if k[0] != ' ']
    bits = case['blanks']
    spaced = ''
    for i, k in enumerate(toks):
        spaced += ' ' * (1 + ((bits >> (i % 12)) & 1)) + k
    full = ref.full_text(want)
    if sum(1 for n in ref.walk(want) if n[0] == 'o' and n[1] != 'function') < 2:
        ctx.trivial()
    outs = [gen.session(ctx, PRE + ['L' + s, 'Lans'])[3:] for s in (t, full, spaced)]
    a = outs[0]
    for s, b in zip((full, spaced), outs[1:]):
        if (a[0][0], a[0][1]) != (b[0][0], b[0][1]) or a[1] != b[1] or a[0][2] != b[0][2]:
            raise Violation('%r gives %r, but %r gives %r' % (t, a, s, b))
    ctx.label('value' if a[0][0] else 'error')


SUBS = [Sub('structure', gen_struct, check_struct, quick=12000, need=['engine']),
        Sub('value', gen_value, check_value, quick=6000, need=['session'])]
