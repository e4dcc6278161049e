"""No session leaks memory."""
import os
import pbt, gen, ref
from model import Model
import c03, c09, c10, c11, c12
from pbt import Sub, Discard, Violation

RULE = "non-trivial: the session has at least three lines, of which one fails and one succeeds"


def generate(src):
    m = Model(maxsize=200)
    out = []
    for _ in range(src.choice([2, 5, 9, 14])):
        k = src.raw(12)
        if k <= 2:
            l = c10.definition(src, m)
        elif k <= 4 and m.defs:
            l = c10.use(src, m)
        elif k == 5:
            l = c09.line(src, m, False)
        elif k <= 8:
            l = c11.failing(src, m)
        elif k == 9:
            l = c12.malformed(src) if src.flip() else c12.command(src)
        elif k == 10:
            l = c03.one_line(src)
        else:
            l = src.choice(['help', 'help operators', 'license', 'clear', 'load simplification @RULES@', 'load @DIR@/cmds', "(x^2)'", 'x + x*2',
                            "deriv(sin(x)*y, x)", 'load simplification @DIR@/good', 'sin(x)^2+cos(x)^2', "gamma(x)'", 'table x;1;3;1 fold x+y;0'])
        if l == 'quit':
            continue
        if not l.startswith(('load', 'help', 'license', '#')):
            try:
                m.line(l)
            except ref.Unspecified:
                continue
        out.append(l)
        if src.flip(1, 12):
            out.append(src.choice(['@i1', '@i0', '@Z']))
    return {'lines': out}


def ops_of(lines, ctx):
    import build
    ops = []
    for l in lines:
        if l in ('@i1', '@i0', '@Z'):
            ops.append(l[1:])
        else:
            ops.append('L' + l.replace('@DIR@', ctx.scratch).replace('@RULES@', build.REPO + '/simplification.ruleset'))
    return ops


def prepare(ctx):
    os.makedirs(ctx.scratch, exist_ok=True)
    if not os.path.exists(os.path.join(ctx.scratch, 'few')):
        for n, t in list(c11.BADFILES.items()) + [('good', c11.GOODRULES), ('cmds', '# c\nff(x)=x^2\n\n1/0\nff(3)\nff(\nload /nonexistent-dir/x\nclear ff')]:
            with open(os.path.join(ctx.scratch, n), 'w') as f:
                f.write(t)


def check(case, ctx):
    prepare(ctx)
    ops = ops_of(case['lines'], ctx) + ['Z']
    d = ctx.driver('session')
    r = d.run(['session'] + ops)
    gen.need_ok(r, 'session %r' % (case['lines'],))
    f = r.fields[:-1]
    oks = set()
    for i, o in enumerate(ops):
        a = gen.text(f[3 * i])
        if o == 'Z':
            if a != '0':
                raise Violation('%s bytes are still allocated after the session %r' % (a, case['lines']))
        elif o[0] == 'L':
            oks.add(a)
            if a != '1':
                ctx.label('failing lines')
    if len(oks) < 2 or len(ops) < 4:
        ctx.trivial()


SUBS = [Sub('sessions', generate, check, quick=7000, need=['session'])]
