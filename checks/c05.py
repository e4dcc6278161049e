"""A printed expression parses back to the same expression."""
import re
import pbt, gen, ref
from pbt import Sub, Violation
from ref import Op, OpSet, DYN

RULE = "non-trivial: the tree nests at least two operators of infix, prefix or postfix placement"

SYMS = ['+', '-', '*', '/', '^', '!', '%', "'", ';', '&', '|', '<', '>', '<=', '==', '!!', '-->', ':', '?', '$', '@', '+-']
WORDS = ['C', 'mod', 'AND', 'or_', 'x_op', 'divides']
FUNCS = ['f', 'g', 'sin', 'longfunctionname', 'h']
CONSTS = ['pi', 'K', 'unit']
VARS = ['x', 'y', 'ab', 'n_', 'a[b]', 'Z']
ANSI = re.compile('\x1b\\[[0-9;]*m')


def opset(src):
    """[name, place, prec, assoc, arity] in order of addition"""
    n = src.choice([3, 6, 10, 16])
    hi = src.choice([2, 4, 9, 200])
    assoc = {}
    ops, used = [], set()
    for _ in range(n):
        place = src.weighted([(5, 'infix'), (3, 'prefix'), (3, 'postfix'), (2, 'function')])
        prec = src.int(0, hi)
        if place == 'function':
            if src.flip(1, 3):
                o = [src.choice(CONSTS), place, 0, 'left', 0]
            else:
                o = [src.choice(FUNCS), place, 0, 'left', src.choice([1, 2, DYN, 3])]
        elif place == 'infix':
            if prec not in assoc:
                assoc[prec] = 'right' if src.flip(2, 5) else 'left'
            o = [src.choice(SYMS + WORDS), place, prec, assoc[prec], 2]
        else:
            o = [src.choice(SYMS), place, prec, 'left', 1]
        if (o[0], o[1]) in used:
            continue
        if o[1] == 'function' and any(q[0] == o[0] for q in ops):
            continue
        used.add((o[0], o[1]))
        ops.append(o)
    return ops


def usable(ops):
    """An infix and a postfix operator of the same name: the parser can not know, infix wins (documented order of
    lookup); such postfix operators are not used in trees. A symbol that starts another one is not ambiguous since
    operators are never printed side by side."""
    infix = {o[0] for o in ops if o[1] == 'infix'}
    return [o for o in ops if not (o[1] == 'postfix' and o[0] in infix)]


def const(src):
    k = src.raw(6)
    if k <= 2:
        return ['c', float(src.int(0, 20))]
    if k == 3:
        return ['c', src.int(0, 999) / 8.0]
    if k == 4:
        return ['c', float(src.choice([100, 12345, 1234567890, 9999999999, 1000000]))]
    return ['c', src.choice([0.5, 0.25, 0.0625, 0.001953125, 0.0001220703125, 2.75, 1234.5])]


def gen_tree(src, ops, vars_=VARS):
    us = usable(ops)
    leaves = [['o', 'function', o[0], []] for o in us if o[1] == 'function' and o[4] == 0]

    def leaf(s):
        k = s.raw(5)
        if k <= 1:
            return ['v', s.choice(vars_)]
        if k <= 3 or not leaves:
            return const(s)
        return s.choice(leaves)
    return gen.tree(src, src.choice([2, 4, 7, 12, 20]), leaf,
                    unary=[(o[1], o[0]) for o in us if o[1] in ('prefix', 'postfix')],
                    binary=[o[0] for o in us if o[1] == 'infix'],
                    funcs=[(o[0], o[4]) for o in us if o[1] == 'function' and o[4] != 0])


def add_fields(ops):
    out = []
    for o in ops:
        out += ['addop', o[0], o[1], str(o[2]), o[3], str(o[4])]
    return out


def gen_custom(src):
    ops = opset(src)
    glue = None
    infix = [o[0] for o in ops if o[1] == 'infix']
    if infix and src.flip(1, 3):
        glue = src.choice(infix)
    names = {o[0] for o in ops}
    vars_ = [v for v in VARS if v not in names]
    return {'ops': ops, 'glue': glue, 'trees': src.list(1, 12, lambda s: gen_tree(s, ops, vars_))}


ARITH_OPS = [[o.name, o.place, o.prec, o.assoc, o.arity] for o in ref.ARITH]


def gen_arith(src):
    return {'trees': src.list(1, 12, lambda s: gen_tree(s, ARITH_OPS))}


def run(ctx, head, nhead, trees, what):
    f = list(head)
    for t in trees:
        f += ['build', '0', gen.to_dump(t), 'str', '0', '0', 'str', '0', '1']
    d = ctx.driver('engine')
    r = d.run(f)
    gen.need_ok(r, what)
    out = r.fields[nhead:]
    f2 = list(head)
    strs = []
    for i, t in enumerate(trees):
        s, c = gen.text(out[2 * i]), gen.text(out[2 * i + 1])
        strs.append(s)
        if ANSI.sub('', c) != s:
            raise Violation('%s is printed as %r in color, but as %r without' % (ref.show(t), c, s))
        f2 += ['parse', '0', s]
    r2 = d.run(f2)
    gen.need_ok(r2, what)
    out2 = r2.fields[nhead:]
    for i, t in enumerate(trees):
        nn = sum(1 for n in ref.walk(t) if n[0] == 'o' and n[1] != 'function')
        ctx.item([t] + ([head] if nhead else []), nn >= 2)
        if out2[3 * i] != b'1':
            raise Violation('%s is printed as %r, which is rejected by the parser' % (ref.show(t), strs[i]))
        got = gen.from_dump(out2[3 * i + 2])
        if not ref.same(got, t):
            raise Violation('%s is printed as %r, which is read as %s' % (ref.show(t), strs[i], ref.show(got)))


def check_custom(case, ctx):
    head = ['ctx', 'custom'] + add_fields(case['ops'])
    n = len(case['ops'])
    if case['glue']:
        head += ['glue', case['glue'], 'infix']
        n += 1
    run(ctx, head, n, case['trees'], 'operators %s' % case['ops'])


def check_arith(case, ctx):
    run(ctx, ['ctx', 'arith'], 0, case['trees'], '')


SUBS = [Sub('arith', gen_arith, check_arith, quick=9000, need=['engine']),
        Sub('custom', gen_custom, check_custom, quick=14000, need=["engine"])]
