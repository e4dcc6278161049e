"""Tree operations agree with their definition on every tree: model-based sequences over a set of trees."""
import math
import pbt, gen, ref
from pbt import Sub, Discard, Violation

RULE = "non-trivial: the sequence contains an operation that changes a tree of at least two operators in which the concerned variable, child or constant subtree occurs"

NREG = 5
VARS = ['x', 'y', 'ab', 'n_', 'a[b]', 'Z', 'xx', 'x_', 'q', 'w', 't', 'quitealongname', 'quitealongnamf', 'quitealongname2', 'quitealongnam', 'v1', 'v2']
DYN = ['sum', 'prod', 'max', 'min', 'avg', 'gcd']
UN = [('prefix', '-'), ('prefix', '+'), ('postfix', '!'), ('postfix', '%'), ('postfix', "'")]
BI = ['+', '-', '*', '/', '^', 'C', 'mod']
FN = [(n, -1) for n in DYN] + [('sin', 1), ('abs', 1), ('log', 2), ('sum', -1), ('root', 2)]
# operations that are computed exactly
XUN = [('prefix', '-'), ('prefix', '+'), ('prefix', '-')]
XBI = ['+', '-', '*', '/', '+', '*']
XFN = [('max', -1), ('min', -1), ('abs', 1), ('sqrt', 1), ('floor', 1), ('ceil', 1), ('max', -1)]


def leaf(nv):
    def f(s):
        k = s.raw(7)
        if k <= 3:
            return ['v', VARS[s.raw(nv)]]
        if k <= 5:
            return ['c', float(s.int(0, 9))]
        if s.flip(1, 4):
            return ['c', s.choice([math.inf, 1e300, 5e-324, 1e-13, 2.0**53, 4294967297.0, 1e17, 0.1])]
        return ['c', s.int(0, 64) / 16.0] if s.flip(3, 4) else ['o', 'function', s.choice(['pi', 'e']), []]
    return f


def xleaf(nv):
    def f(s):
        k = s.raw(6)
        if k <= 1 and nv:
            return ['v', VARS[s.raw(nv)]]
        return ['c', float(s.int(0, 4))]
    return f


def any_tree(s, exact):
    if s.flip(1, 6):  # many operands
        f = xleaf(3) if exact else leaf(s.choice([4, 4, len(VARS)]))
        return ['o', 'function', s.choice(['max', 'min'] if exact else DYN), [f(s) if s.flip(3, 4) else narrow_tree(s, exact) for _ in range(s.int(4, 12))]]
    return narrow_tree(s, exact)


def narrow_tree(s, exact):
    n = s.choice([0, 2, 4, 8, 14])
    if exact:
        return gen.tree(s, n, xleaf(s.choice([0, 1, 3])), XUN, XBI, XFN)
    return gen.tree(s, n, leaf(s.choice([1, 2, 4, 11, len(VARS)])), UN, BI, FN)


def op(s, exact):
    k = s.raw(24)
    r, q = s.raw(NREG), s.raw(NREG)
    if k <= 2:
        return ['build', r, any_tree(s, exact)]
    if k <= 5:
        return ['copy', r, q]
    if k <= 8:
        return ['eq', r, q]
    if k <= 10:
        return ['vars', r, s.choice([20, 12, 1, 2, 3, 0, 4])]
    if k == 11:
        return ['count', r]
    if k == 12:
        return ['varcount', r, VARS[s.raw(s.choice([5, 5, len(VARS)]))]]
    if k <= 16:
        return ['replace', r, VARS[s.raw(s.choice([5, 5, len(VARS)]))], q]
    if k <= 19:
        return ['splice', r, s.raw(8), [s.raw(NREG) for _ in range(s.choice([0, 1, 2, 3, 5]))]]
    if k == 20:
        return ['findop', r, s.choice(BI + DYN + ['sin']), ]
    if k == 21:
        return ['reduce', r]
    return ['redconst', r]


def generate(src):
    exact = src.flip()
    return {'init': [any_tree(src, exact) for _ in range(NREG)], 'exact': exact, 'ops': src.list(1, 24, lambda s: op(s, exact))}


def mutate(s, t):
    """tree that differs in at most one place"""
    nodes = list(ref.walk(t))
    k = s.raw(len(nodes))
    import copy
    box = [0]

    def go(n):
        i = box[0]
        box[0] += 1
        if i != k:
            return ['o', n[1], n[2], [go(c) for c in n[3]]] if n[0] == 'o' else n
        m = s.raw(6)
        if n[0] == 'v':
            return ['v', s.choice(VARS)]
        if n[0] == 'c':
            return ['c', s.choice([n[1] + 1.0, n[1] * 1.0, n[1] - 1.0, n[1] + 1e-9, n[1] + 1e-13, n[1] * (1 + 1e-12),
                                   math.nextafter(n[1], math.inf), math.nextafter(n[1], -math.inf), -n[1], n[1] * 2**32 + 0.0])]
        if m == 0 and n[3]:
            return n[3][s.raw(len(n[3]))]
        if m == 1 and n[2] in DYN:
            return ['o', n[1], s.choice(DYN), n[3]]
        if m == 2 and n[1] == 'infix':
            return ['o', n[1], s.choice(BI), n[3]]
        if m == 3 and n[2] in DYN:
            return ['o', n[1], n[2], n[3] + [['c', 1.0]]] if s.flip() or not n[3] else ['o', n[1], n[2], n[3][:-1]]
        if m == 4:
            return ['o', n[1], n[2], n[3][::-1]]
        return n
    return go(t)


def gen_eq(src):
    out = []
    for _ in range(src.int(1, 10)):
        t = any_tree(src, src.flip())
        out.append([t, mutate(src, t)])
    return {'pairs': out}


def check_eq(case, ctx):
    f = ['ctx', 'arith']
    for a, b in case['pairs']:
        f += ['build', '0', gen.to_dump(a), 'build', '1', gen.to_dump(b), 'eq', '0', '1', 'eq', '1', '0', 'copy', '2', '0', 'eq', '0', '2',
              'eq', '2', '1']
    r = ctx.driver('engine').run(f)
    gen.need_ok(r, 'comparing %s' % case)
    for i, (a, b) in enumerate(case['pairs']):
        w = b'1' if ref.same(a, b) else b'0'
        g = r.fields[4 * i:4 * i + 4]
        if g != [w, w, b'1', w]:
            raise Violation('%s and %s: equality is %s (both directions, copy of first with first, with second), expected %s' % (ref.show(a), ref.show(b), g, w))
        ctx.item([a, b], ref.size(a) >= 3)
        ctx.label('equal' if w == b'1' else 'different')


def fold(t):
    """constant folding by definition: every maximal variable-free subtree that has a value"""
    if not ref.variables(t):
        try:
            return ['c', ref.evaluate(t)], None
        except ref.EvalError as e:
            err = True
    else:
        err = None
    if t[0] != 'o':
        return t, err
    kids = []
    for c in t[3]:
        k, e = fold(c)
        kids.append(k)
        err = err or e
    return ['o', t[1], t[2], kids], err


def replace(t, v, by):
    if t[0] == 'v':
        return (by, 1) if t[1] == v else (t, 0)
    if t[0] == 'c':
        return t, 0
    kids, n = [], 0
    for c in t[3]:
        k, m = replace(c, v, by)
        kids.append(k)
        n += m
    return ['o', t[1], t[2], kids], n


MAXSIZE = 400


def check(case, ctx):
    regs = list(case['init'])
    clean = [True] * NREG
    f = ['ctx', 'arith', 'mark']
    want = []      # (number of fields, judge(fields) -> None or message)
    strong = False
    for i, t in enumerate(regs):
        f += ['build', str(i), gen.to_dump(t)]

    def need_vars(r):
        n = len(ref.variables(regs[r]))
        f.extend(['vars', str(r), '60'])
        vs = [v.encode() for v in ref.variables(regs[r])]
        want.append((2 + n, [b'%d' % n, b'1'] + vs, 'variables of %s' % ref.show(regs[r])))
        clean[r] = False

    for o in case['ops']:
        k, r = o[0], o[1]
        t = regs[r]
        big = ref.size(t) >= 4
        if k == 'build':
            f += ['build', str(r), gen.to_dump(o[2])]
            regs[r], clean[r] = o[2], True
        elif k == 'copy':
            if r == o[2]:
                continue
            f += ['copy', str(r), str(o[2])]
            regs[r], clean[r] = regs[o[2]], clean[o[2]]
            f += ['eq', str(r), str(o[2])]
            want.append((1, [b'1'], 'equality of %s and its copy' % ref.show(regs[r])))
        elif k == 'eq':
            if not (clean[r] and clean[o[2]]):
                need_vars(r)
                need_vars(o[2])
            f += ['eq', str(r), str(o[2])]
            want.append((1, [b'1' if ref.same(t, regs[o[2]]) else b'0'], 'equality of %s and %s' % (ref.show(t), ref.show(regs[o[2]]))))
        elif k == 'vars':
            vs = [v.encode() for v in ref.variables(t)]
            f += ['vars', str(r), str(o[2])]
            clean[r] = False
            if len(vs) <= o[2]:
                want.append((2 + len(vs), [b'%d' % len(vs), b'1'] + vs, 'variables of %s' % ref.show(t)))
                strong |= len(vs) > 1
                for v in ref.variables(t):
                    f += ['ids', str(r), v]
                    n = sum(1 for m in ref.walk(t) if m == ['v', v])
                    want.append((3, [b'%d' % n, b'1', b'%d' % vs.index(v.encode())], 'ids of %s in %s' % (v, ref.show(t))))
            else:
                want.append((2 + o[2], [b'%d' % o[2], b'0'] + [b'?'] * o[2], 'variables of %s, too small buffer' % ref.show(t)))
        elif k == 'count':
            f += ['count', str(r)]
            want.append((1, [b'%d' % sum(1 for m in ref.walk(t) if m[0] == 'v')], 'variable occurrences of %s' % ref.show(t)))
        elif k == 'varcount':
            f += ['varcount', str(r), o[2]]
            want.append((1, [b'%d' % sum(1 for m in ref.walk(t) if m == ['v', o[2]])], 'occurrences of %s in %s' % (o[2], ref.show(t))))
        elif k == 'replace':
            if r == o[3]:
                continue
            nt, n = replace(t, o[2], regs[o[3]])
            if ref.size(nt) > MAXSIZE:
                continue
            f += ['replace', str(r), o[2], str(o[3])]
            want.append((1, [b'%d' % n], 'replacing %s in %s' % (o[2], ref.show(t))))
            strong |= n > 0 and big
            regs[r] = nt
            clean[r] = clean[r] and clean[o[3]]
        elif k == 'splice':
            if t[0] != 'o' or not t[3] or r in o[3] or (t[2] not in DYN and len(o[3]) != 1):
                continue
            i = o[2] % len(t[3])
            nt = ['o', t[1], t[2], t[3][:i] + [regs[q] for q in o[3]] + t[3][i + 1:]]
            if ref.size(nt) > MAXSIZE:
                continue
            f += ['replace_by_list', str(r), str(i), str(len(o[3]))] + [str(q) for q in o[3]]
            strong |= len(t[3]) > 1
            regs[r] = nt
            clean[r] = clean[r] and all(clean[q] for q in o[3])
        elif k == 'findop':
            place = 'infix' if o[2] in BI else 'function'
            hit = next((m for m in ref.walk(t) if m[0] == 'o' and m[1] == place and m[2] == o[2]), None)
            f += ['findop', str(r), o[2], place]
            want.append((1, hit, 'search for %s in %s' % (o[2], ref.show(t))))
        elif k in ('reduce', 'redconst') and case['exact']:
            try:
                nt, err = fold(t)
            except (ref.Unspecified, OverflowError):
                continue
            if any(m[0] == 'c' and m[1] != m[1] for m in ref.walk(nt)):
                continue
            if k == 'redconst':
                f += ['redconst', str(r)]
                want.append((2, (not err, nt), 'constant folding of %s' % ref.show(t)))
                strong |= not ref.same(nt, t) and bool(ref.variables(t))
                regs[r] = nt
            else:
                ok = nt[0] == 'c'
                f += ['reduce', str(r)]
                want.append((3, ('value', ok, nt), 'value of %s' % ref.show(t)))
        f += ['dump', str(r)]
        want.append((1, regs[r], 'tree %d after %s of %s' % (r, o, ref.show(t))))
    for i in range(NREG):
        f += ['dump', str(i)]
        want.append((1, regs[i], 'tree %d at the end' % i))
    for i in range(NREG):
        f += ['free', str(i)]
    f += ['balance']
    r = ctx.driver('engine').run(f)
    gen.need_ok(r, 'operations %s' % case)
    g = r.fields
    i = 0
    for n, w, what in want:
        got = g[i:i + n]
        i += n
        if n == 1 and (w is None or w[0] in ('o', 'v', 'c') and not isinstance(w[0], bytes)):
            tr = gen.from_dump(got[0])
            if (tr is None) != (w is None) or (w is not None and not ref.same(tr, w)):
                raise Violation('%s: is %s, expected %s' % (what, tr and ref.show(tr), w and ref.show(w)))
        elif isinstance(w, tuple) and w[0] == 'value':
            ok = got[0] == b'0'
            if ok != w[1] or (ok and float.fromhex(gen.text(got[1])) != w[2][1]):
                raise Violation('%s: success %s, %s instead of %s' % (what, ok, gen.text(got[1]), ref.show(w[2])))
        elif isinstance(w, tuple):
            tr = gen.from_dump(got[1])
            if (got[0] == b'0') != w[0] or not ref.same(tr, w[1]):
                raise Violation('%s: success %s, %s instead of %s, %s' % (what, got[0] == b'0', ref.show(tr), w[0], ref.show(w[1])))
        elif got != w:
            raise Violation('%s: %s instead of %s' % (what, got, w))
    if g[i] != b'0':
        raise Violation('%s bytes are left after releasing all trees (%s)' % (gen.text(g[i]), case['ops']))
    if not strong:
        ctx.trivial()
    for o in case['ops']:
        ctx.label(o[0])


SUBS = [Sub('sequences', generate, check, quick=9000, need=['engine']), Sub('equality', gen_eq, check_eq, quick=6000, need=['engine'])]
