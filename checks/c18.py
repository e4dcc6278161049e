"""Pattern matching finds exactly the valid assignments."""
import pbt, gen, ref, rewrite
from pbt import Sub, Discard, Violation

RULE = "non-trivial: the pattern contains a variable and an operator, and there are several assignments or one that binds at least two variables, or none although the operators at the root agree"

OPS = [('function', 'sum', ref.DYN), ('function', 'prod', ref.DYN), ('infix', '+', 2), ('infix', '*', 2), ('infix', '^', 2), ('prefix', '-', 1), ('function', 'sin', 1),
       ('function', 'max', ref.DYN), ('postfix', '!', 1), ('function', 'log', 2), ('infix', '-', 2), ('prefix', '+', 1)]
LISTS = ['[a]', '[b]', '[c]', '[d]']
VARS = ['p', 'q', 'r', 's']


def tree(s, n, leaves):
    if n <= 0 or s.flip(1, 6):
        return s.choice(leaves)
    place, name, ar = s.choice(OPS[:2] if s.flip(2, 3) else OPS)
    if ar == ref.DYN:
        ar = s.choice([2, 3, 1, 0, 4, 5])
    m = (n - 1) // max(1, ar) + s.raw(2)
    return ['o', place, name, [tree(s, min(n - 1, m), leaves) for _ in range(ar)]]


LEAVES = [['v', 'x'], ['v', 'y'], ['c', 1.0], ['c', 2.0], ['v', 'x'], ['c', 0.0], ['v', 'z']]


def abstract(s, t, names, prob):
    """pattern derived from a tree: subtrees become variables (often consistently), runs of operands become lists"""
    if s.flip(*prob):
        key = ref.show(t)
        if key in names and s.flip(2, 3):
            return ['v', names[key]]
        v = s.choice(VARS)
        names[key] = v
        return ['v', v]
    if t[0] != 'o':
        return t if s.flip(4, 5) else s.choice(LEAVES)
    kids = []
    i = 0
    dyn = t[2] in ('sum', 'prod', 'max')
    while i < len(t[3]):
        if dyn and s.flip(1, 3):
            n = s.raw(min(3, len(t[3]) - i) + 1)
            run = ref.show(['o', 'function', 'list', t[3][i:i + n]])
            if run in names and s.flip(2, 3):
                kids.append(['v', names[run]])
            else:
                v = s.choice(LISTS)
                names[run] = v
                kids.append(['v', v])
            i += n
            if n == 0 and s.flip():
                continue
        if i < len(t[3]):
            kids.append(abstract(s, t[3][i], names, prob))
            i += 1
    if dyn and s.flip(1, 4):
        kids.append(['v', s.choice(LISTS)])
    return ['o', t[1], t[2], kids]


def constraint(s, vs, lists=()):
    if not vs or s.flip(1, 6):
        if lists and s.flip(2, 3):
            kids = s.list(0, 3, lambda s: ['v', s.choice(list(lists) + [s.choice(vs or lists)])])
            f = s.choice(['count', 'count', 'sum', 'max'])
            return ['o', 'infix', s.choice(['==', '>', '<=', '!=']), [['o', 'function', f, kids], ['c', float(s.raw(4))]]]
        t = ['o', 'function', s.choice(['TRUE', 'FALSE', 'TRUE', 'CONST']), []]
        k = s.raw(3)
        return t if k == 0 else ['o', 'prefix', '!', [t]] if k == 1 else ['o', 'infix', s.choice(['||', '==']), [constraint(s, vs, lists), t]]
    a, b = ['v', s.choice(vs)], ['v', s.choice(vs)]
    typ = ['o', 'function', 'type', [a]]
    k = s.raw(9)
    if k <= 2:
        return ['o', 'infix', s.choice(['==', '!=']), [typ, ['o', 'function', s.choice(['CONST', 'VAR', 'OP']), []]]]
    if k == 3:
        return ['o', 'function', 'equal', [a, b]]
    if k == 4:
        return ['o', 'prefix', '!', [['o', 'function', 'equal', [a, b]]]]
    if k == 5:
        return ['o', 'infix', s.choice(['<', '>', '<=', '>=', '==', '!=']), [a, s.choice([['c', 1.0], ['c', 0.0], b])]]
    if k == 6:
        return ['o', 'infix', '==', [['o', 'infix', 'mod', [a, ['c', 2.0]]], ['c', 0.0]]]
    if k == 7:
        return ['o', 'infix', '||', [['o', 'function', 'equal', [b, ['o', 'prefix', '-', [a]]]], ['o', 'function', 'equal', [a, ['o', 'prefix', '-', [b]]]]]]
    return ['o', 'infix', '||', [constraint(s, vs, lists), constraint(s, vs, lists)]]


def pair(s):
    t = tree(s, s.choice([2, 4, 7, 10]), LEAVES)
    k = s.raw(4)
    if k <= 2:
        base = t
        if k == 2 and t[0] == 'o':
            subs = [n for n in ref.walk(t)]
            base = s.choice(subs)
        p = abstract(s, base, {}, s.choice([(1, 3), (1, 2), (1, 6)]))
    else:
        p = tree(s, s.choice([1, 2, 3]), [['v', 'p'], ['v', 'q'], ['v', 'p'], ['v', 'r'], ['c', 1.0], ['c', 2.0]])
        p = abstract(s, p, {}, (0, 1))
    if p[0] == 'v' and rewrite.is_list(p[1]):
        p = ['o', 'function', 'sum', [p]]
    vs = [v for v in ref.variables(p) if not rewrite.is_list(v)]
    lists = sorted({v for v in ref.variables(p) if rewrite.is_list(v)})
    cs = [constraint(s, vs, lists) for _ in range(s.choice([0, 1, 0, 2, 3]))]
    if s.flip(1, 8):  # names that only differ in the end
        pre = s.choice(['long_', 'same_beginning_', 'a_name_of_more_than_thirty_two_characters_'])
        p, t, cs = renamed(p, pre), renamed(t, pre), [renamed(c, pre) for c in cs]
    return [p, cs, t]


def renamed(t, pre):
    if t[0] == 'v':
        return ['v', '[%s%s' % (pre, t[1][1:]) if rewrite.is_list(t[1]) else pre + t[1]]
    return ['o', t[1], t[2], [renamed(c, pre) for c in t[3]]] if t[0] == 'o' else t


def generate(src):
    return {'pairs': [pair(src) for _ in range(src.int(1, 8))]}


def pattern_text(p, cs):
    return rewrite.text(p) + (' WHERE ' + ' ; '.join(rewrite.text(c) for c in cs) if cs else '')


def read_matching(f, i, vs):
    env = {}
    for v in vs:
        n = int(f[i])
        env[v] = [gen.from_dump(x) for x in f[i + 1:i + 1 + n]]
        i += 1 + n
    return env, i


def key(env):
    return repr(sorted((v, [ref.show(t) for t in ts]) for v, ts in env.items()))


def usable(p, t):
    for n in list(ref.walk(p)) + list(ref.walk(t)):
        if n[0] == 'o' and n[1] == 'function' and n[2] in ('sin', 'log') and len(n[3]) != {'sin': 1, 'log': 2}[n[2]]:
            raise Discard()
        if n[0] == 'o' and n[1] != 'function' and any(c[0] == 'v' and rewrite.is_list(c[1]) for c in n[3]):
            raise Discard()
    if ref.size(p) > 60 or len(ref.variables(p)) > 10:
        raise Discard()


def check(case, ctx):
    ops = ['ctx', 'prop']
    todo = []
    for p, cs, t in case['pairs']:
        try:
            usable(p, t)
            want = rewrite.matchings(p, cs, t)
            pos = rewrite.first_position(p, cs, t)
        except (Discard, rewrite.TooMany, ref.Unspecified):
            continue
        pt = pattern_text(p, cs)
        ops += ['build', '0', gen.to_dump(t), 'match', pt, '0', 'findmatch', pt, '0']
        todo.append((p, cs, t, pt, want, pos))
    if not todo:
        raise Discard()
    r = ctx.driver('engine').run(ops)
    gen.need_ok(r, 'matching %s' % [(x[3], ref.show(x[2])) for x in todo])
    f = r.fields
    i = 0
    for p, cs, t, pt, want, pos in todo:
        what = 'pattern %s on %s' % (pt, ref.show(t))
        pv = ref.variables(p)
        if f[i] != b'1':
            raise Violation('pattern %s is rejected' % pt)
        nv = int(f[i + 1])
        vs = [gen.text(x) for x in f[i + 2:i + 2 + nv]]
        i += 2 + nv
        if sorted(vs) != sorted(pv):
            raise Violation('%s: variables are %s' % (what, vs))
        k = int(f[i])
        i += 1
        got = []
        for _ in range(k):
            e, i = read_matching(f, i, vs)
            got.append(e)
        wk, gk = sorted(key(e) for e in want), sorted(key(e) for e in got)
        if wk != gk:
            missing = [x for x in wk if x not in gk]
            more = [x for x in gk if x not in wk]
            raise Violation('%s: %d assignments instead of %d; missing: %s; not valid: %s' % (what, len(gk), len(wk), missing[:3], more[:3] or 'duplicates' if len(gk) > len(wk) else more[:3]))
        one = f[i] == b'1'
        i += 1
        if one != bool(want):
            raise Violation('%s: get_matching returns %s' % (what, one))
        if one:
            e, i = read_matching(f, i, vs)
            if key(e) not in wk:
                raise Violation('%s: get_matching gives invalid assignment %s' % (what, key(e)))
        if int(f[i]) != len(want):
            raise Violation('%s: %s assignments are counted instead of %d' % (what, gen.text(f[i]), len(want)))
        i += 1
        # findmatch
        if f[i] != b'1' or int(f[i + 1]) != nv:
            raise Violation('pattern %s is rejected' % pt)
        i += 2 + nv
        hit = f[i] == b'1'
        i += 1
        if hit != (pos is not None):
            raise Violation('%s: find_matching returns %s' % (what, hit))
        if hit:
            ht = gen.from_dump(f[i])
            e, i = read_matching(f, i + 1, vs)
            if not ref.same(ht, pos[1]):
                raise Violation('%s: first match is %s, but found %s' % (what, ref.show(pos[1]), ref.show(ht)))
            if key(e) not in [key(x) for x in pos[2]]:
                raise Violation('%s: find_matching gives invalid assignment %s' % (what, key(e)))
        nontriv = p[0] == 'o' and pv and (len(want) > 1 or (want and len(pv) > 1) or (not want and t[0] == 'o' and p[1:3] == t[1:3]))
        ctx.item([pt, ref.show(t)], bool(nontriv))
        ctx.label('no assignment' if not want else 'one assignment' if len(want) == 1 else 'several assignments', 'with constraints' if cs else 'without constraints')


SUBS = [Sub('matchings', generate, check, quick=12000, need=['engine'])]
