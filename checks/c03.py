"""Malformed expressions are rejected, well-formed ones are accepted."""
import pbt, gen, ref
from pbt import Sub, Violation

RULE = "non-trivial: the input is malformed according to the reference grammar (accepted ones are checked, too)"

SOUP = ['1', '2.5', 'x', 'y', 'pi', 'ans', 'sin', 'sum', 'max', 'gcd', 'log', 'root', '+', '-', '*', '/', '^', 'C', 'mod', '!', '%', "'",
        '@', '$', '(', ')', '{', '}', ',', ' ', '.', '1.2.3', '&', ';', '"', '\\', '~', '|', ':', '?', '<', '>', '\t', 'deriv',
        '\x7f', '\xe9', '[', ']', '_', '1..2', 'inf', 'e', 'var', 'rand', '((', '))', '()', ',,', 'fib']
COMMANDS = ('table ', 'load ', 'clear', 'help', 'license', 'quit', '#')


def one(src):
    k = src.raw(8)
    if k == 0:
        return gen.expr_text(src, ref.ARITH_SET, budget=src.choice([3, 8]))
    if k <= 5:
        g = gen.TextGen(src, ref.ARITH_SET, budget=src.choice([2, 4, 8, 14]))
        toks = g.expr()
        for _ in range(src.choice([1, 1, 1, 2, 3])):
            if not toks:
                break
            m = src.raw(5)
            i = src.raw(len(toks))
            if m == 0:
                del toks[i]
            elif m == 1:
                toks.insert(i, src.choice(SOUP))
            elif m == 2:
                toks[i] = src.choice(SOUP)
            elif m == 3:
                j = src.raw(len(toks))
                toks[i], toks[j] = toks[j], toks[i]
            else:
                toks = toks[:i + 1]
        return gen.join(src, toks, ref.ARITH_SET.keywords) if src.flip(3, 4) else ''.join(toks)
    toks = [src.choice(SOUP) for _ in range(src.int(1, 7))]
    return ''.join(toks)


def one_line(src):
    t = one(src)
    while t.startswith(COMMANDS) or '=' in t or '\n' in t or t == '':
        t = '(' + t
    return t


def gen_parse(src):
    return {'texts': src.list(1, 24, one)}


def classify(t):
    try:
        return ref.parse_text(t), None
    except ref.Reject as e:
        return None, str(e)


def check_parse(case, ctx):
    ops = ['ctx', 'arith']
    for t in case['texts']:
        ops += ['parse', '0', t]
    r = ctx.driver('engine').run(ops)
    gen.need_ok(r, case['texts'])
    for i, t in enumerate(case['texts']):
        want, why = classify(t)
        ctx.item(t, want is None)
        ctx.label('accepted' if want else why.split(' ')[0] + ' ' + why.split(' ')[-1][:12])
        got = r.fields[3 * i] == b'1'
        if got and want is None:
            raise Violation('malformed expression is accepted: %r (%s), read as %s'
                            % (t, why, ref.show(gen.from_dump(r.fields[3 * i + 2]))))
        if not got and want is not None:
            raise Violation('well-formed expression is rejected: %r' % t)
        if got and not ref.same(gen.from_dump(r.fields[3 * i + 2]), want):
            raise Violation('%r is read as %s, but means %s' % (t, ref.show(gen.from_dump(r.fields[3 * i + 2])), ref.show(want)))


def gen_line(src):
    return {'texts': src.list(1, 10, one_line)}


EVAL_ERRORS = tuple(ref.ERRTEXT.values())


def check_line(case, ctx):
    lines = ['L42.5', 'Lans']
    for t in case['texts']:
        lines += ['L' + t, 'Lans']
    out = gen.session(ctx, lines)
    prev = out[1][1]
    for i, t in enumerate(case['texts']):
        (ok, so, se), ans = out[2 + 2 * i], out[3 + 2 * i]
        want, why = classify(t)
        ctx.item(t, want is None)
        if want is None:
            ctx.label('rejected')
            if ok or so != '' or not se.startswith('Error: ') or se.count('\n') != 1:
                raise Violation('malformed line %r (%s) gives %r' % (t, why, (ok, so, se)))
            if any(k in se for k in EVAL_ERRORS):
                raise Violation('malformed line %r (%s) is evaluated: %r' % (t, why, se))
            if ans[1] != prev:
                raise Violation('malformed line %r changes the last result from %r to %r' % (t, prev, ans[1]))
        elif ok:
            ctx.label('accepted')
            if so.strip() == '' or se != '':
                raise Violation('well-formed line %r gives %r' % (t, (ok, so, se)))
        else:
            ctx.label('evaluation error')
            if so != '' or not any(k in se for k in EVAL_ERRORS):
                raise Violation('well-formed line %r gives %r' % (t, (ok, so, se)))
            if ans[1] != prev:
                raise Violation('failing line %r changes the last result from %r to %r' % (t, prev, ans[1]))
        if not ans[0]:
            raise Violation('ans fails after %r: %r' % (t, ans))
        prev = ans[1]


SUBS = [Sub('parse', gen_parse, check_parse, quick=16000, need=['engine']),
        Sub('line', gen_line, check_line, quick=4000, need=['session'])]
