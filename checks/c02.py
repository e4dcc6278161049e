"""Built-in operators, functions and constants have their documented values."""
import math
import pbt, gen, ref
from pbt import Sub, Violation, Discard

RULE = ("non-trivial: the reference determines the outcome (a value, or an error) and at least one operator other than "
        "+ - * / is applied")

SPECIAL = [0, 1, 2, 3, 0.5, 1.5, 2.5, 3.5, 10, 0.1, 4, 5, 6, 7, 9, 12, 18, 20, 25, 99.99, 100, 101, 21, 30, 64, 78, 79, 170, 171, 172,
           1000, 0.999999, 1.000001, 1e-9, 1e-20, 1e10, 1e15, 9007199254740993, 1e16, 2147483647, 2147483648, 4294967296,
           4294967297, 1e100, 1e300, 1.7e308, 3.14159265359, 1.57079632679, 0.3333333333, 2.71828182846, 92, 93, 1476, 1477,
           math.inf, math.nan]
HIST = [2.5, -7.0, 0.1, 13.0]


def num(src):
    k = src.raw(10)
    if k <= 3:
        v = float(src.int(0, 30))
    elif k <= 6:
        v = float(src.choice(SPECIAL))
    else:
        v = src.int(0, 200000) / src.choice([1, 10, 100, 1000, 7, 64])
    if src.flip(1, 3):
        v = -v
    return ['c', v]


OPS = [(o.place, o.name, o.arity) for o in ref.ARITH if o.name not in ("deriv", "'", 'rand')]


def pick(src):
    return src.choice(OPS)


def flat(src):
    place, name, ar = pick(src)
    if ar == ref.DYN:
        ar = src.choice([1, 2, 3, 0, 4, 7, 12])
    if place == 'prefix' and name == '@':
        return ['o', place, name, [['c', float(src.choice([0, 1, 2, 3, 4, 5, 0.5, 2.99, 1e10, -1, math.nan, math.inf, 1e30]))]]]
    if name in ('C', 'gcd', 'lcm', '!', 'fib', 'mod') and src.flip(2, 3):
        return ['o', place, name, [['c', float(src.int(-60, 60))] for _ in range(ar)]]
    return ['o', place, name, [num(src) for _ in range(ar)]]


def nested(src, d=3):
    if d == 0 or src.flip(1, 4):
        return num(src)
    place, name, ar = pick(src)
    if ar == ref.DYN:
        ar = src.choice([1, 2, 3, 0, 4])
    return ['o', place, name, [nested(src, d - 1) for _ in range(ar)]]


def one(src):
    return flat(src) if src.flip(2, 3) else nested(src)


def outcome(t, hist, tol):
    """('v', value) | ('e', kinds) | None"""
    try:
        return ('v', ref.eval_conditioned(t, None, hist, tol=tol))
    except ref.EvalError:
        return ('e', ref.error_kinds(t, None, hist))
    except (ref.Unspecified, OverflowError):
        return None


def interesting(t):
    return any(n[0] == 'o' and not (n[1] == 'infix' and n[2] in '+-*/') for n in ref.walk(t))


def gen_exact(src):
    return {'trees': src.list(1, 24, one)}


def check_exact(case, ctx):
    """full precision of the value"""
    ops = ['ctx', 'arith']
    for h in HIST:
        ops += ['exec', ref.num_text(h) if h >= 0 else '-' + ref.num_text(-h)]
    texts = [ref.full_text(t) for t in case['trees']]
    for x in texts:
        ops += ['parse', '0', x, 'reduce', '0']
    r = ctx.driver('engine').run(ops)
    gen.need_ok(r, texts)
    f = r.fields[3 * len(HIST):]
    for i, t in enumerate(case['trees']):
        want = outcome(t, HIST, 1e-12)
        if want is None:
            ctx.label('unspecified')
            continue
        ctx.item(texts[i], interesting(t))
        if t[0] == 'o':
            ctx.label(t[2])
        g = f[6 * i:6 * i + 6]
        if g[0] != b'1':
            raise Violation('rejected: %s' % texts[i])
        err = g[3] != b'0'
        if want[0] == 'e':
            if not err:
                raise Violation('%s gives %s instead of an error (%s)' % (texts[i], g[4], '/'.join(want[1])))
            continue
        if err:
            raise Violation('%s gives an error instead of %r' % (texts[i], want[1]))
        s = g[4].decode()
        got = float(s) if 'n' in s else float.fromhex(s)
        if not ref.close(got, want[1], 1e-11, 1e-320):
            raise Violation('%s gives %r instead of %r' % (texts[i], got, want[1]))


def gen_line(src):
    return {'trees': src.list(1, 6, one)}


def check_line(case, ctx):
    """what the user sees: result on stdout or error on stderr"""
    lines = ['L' + (ref.num_text(h) if h >= 0 else '-' + ref.num_text(-h)) for h in HIST]
    for t in case['trees']:
        out = gen.session(ctx, lines + ['L' + ref.full_text(t)])[-1]
        want = outcome(t, HIST, 1e-10)
        if want is None:
            continue
        x = ref.full_text(t)
        ctx.item(x, interesting(t))
        if want[0] == 'e':
            ctx.label('error:' + '/'.join(sorted(want[1])))
            ok = (not out[0] and out[1] == '' and out[2].startswith('Error: ')
                  and any(ref.ERRTEXT[k] in out[2] for k in want[1]))
            if not ok:
                raise Violation('%s gives %r instead of an error (%s)' % (x, out, '/'.join(want[1])))
        else:
            ctx.label('value')
            if not out[0] or out[2] != '' or not out[1].endswith('\n') or not ref.printed_number_ok(out[1][:-1], want[1]):
                raise Violation('%s gives %r instead of %r' % (x, out, want[1]))


def gen_rand(src):
    lo = src.int(-5, 30)
    w = src.int(1, 6)
    fr = src.choice([(0, 0), (0, 0), (1, 1), (0, 3), (7, 0)])
    return {'lo': lo, 'hi': lo + w, 'fr': fr}


def check_rand(case, ctx):
    lo, hi = case['lo'], case['hi']
    a = lo + (case['fr'][0] / 10.0 if lo >= 0 else -case['fr'][0] / 10.0)
    b = hi + (case['fr'][1] / 10.0 if hi >= 0 else -case['fr'][1] / 10.0)
    n = 60 * (hi - lo)
    lit = ref.full_text(['o', 'function', 'rand', [['c', float(a)], ['c', float(b)]]])
    outs = gen.session(ctx, ['L' + lit] * n)
    seen = set()
    for o in outs:
        try:
            v = float(o[1])
        except ValueError:
            raise Violation('%s gives %r' % (lit, o))
        if v != math.floor(v) or not lo <= v < hi:
            raise Violation('%s gives %r' % (lit, o[1]))
        seen.add(v)
    if len(seen) != hi - lo:
        raise Violation('%s gives only %s in %d evaluations' % (lit, sorted(seen), n))
    if hi - lo < 2:
        ctx.trivial()


SUBS = [Sub('exact', gen_exact, check_exact, quick=20000, need=['engine']),
        Sub('line', gen_line, check_line, quick=3000, need=['session']),
        Sub('rand', gen_rand, check_rand, quick=150, need=['session'])]
