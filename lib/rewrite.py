"""Reference model of pattern matching and rewriting: assignments by brute force."""
import ref
from ref import EvalError, Unspecified


def is_list(v):
    return v.startswith('[')


def bind(env, var, trees):
    if var in env:
        old = env[var]
        if len(old) == len(trees) and all(ref.same(a, b) for a, b in zip(old, trees)):
            yield env
        return
    e = dict(env)
    e[var] = trees
    yield e


class TooMany(Exception):
    pass


def match(p, t, env):
    """all extensions of env under which p becomes t"""
    if p[0] == 'v':
        yield from bind(env, p[1], [t])
    elif p[0] == 'c':
        if t[0] == 'c' and ref.same(p, t):
            yield env
    elif t[0] == 'o' and p[1] == t[1] and p[2] == t[2]:
        yield from match_list(p[3], t[3], env)


def match_list(ps, ts, env):
    if not ps:
        if not ts:
            yield env
        return
    p = ps[0]
    if p[0] == 'v' and is_list(p[1]):
        for n in range(len(ts) + 1):
            for e in bind(env, p[1], ts[:n]):
                yield from match_list(ps[1:], ts[n:], e)
    elif ts:
        for e in match(p, ts[0], env):
            yield from match_list(ps[1:], ts[1:], e)


def subst(t, env):
    """list of trees that t becomes"""
    if t[0] == 'v':
        return env[t[1]]
    if t[0] == 'o':
        kids = []
        for c in t[3]:
            kids += subst(c, env)
        return [['o', t[1], t[2], kids]]
    return [t]


TYPES = {'CONST': 2.0, 'VAR': 3.0, 'OP': 4.0, 'TRUE': 1.0, 'FALSE': 0.0}


def holds(constraint, env):
    def go(t):
        if t[0] == 'c':
            return t[1]
        if t[0] == 'v':
            raise EvalError('variable')
        p, n, a = t[1], t[2], t[3]
        if p == 'function' and n == 'type':
            return {'c': 2.0, 'v': 3.0, 'o': 4.0}[a[0][0]]
        if p == 'function' and n == 'equal':
            return 1.0 if ref.same(a[0], a[1]) else 0.0
        if p == 'function' and n in TYPES:
            return TYPES[n]
        v = [go(k) for k in a]
        if p == 'function' and n == 'count':
            return float(len(v))
        if p == 'infix' and n in ('==', '!=', '<', '>', '<=', '>='):
            return float({'==': v[0] == v[1], '!=': v[0] != v[1], '<': v[0] < v[1], '>': v[0] > v[1], '<=': v[0] <= v[1], '>=': v[0] >= v[1]}[n])
        if p == 'infix' and n == '||':
            return float(v[0] != 0 or v[1] != 0)
        if p == 'prefix' and n == '!':
            return float(v[0] == 0)
        return ref.apply_op(p, n, v)
    try:
        return go(subst(constraint, env)[0]) != 0
    except EvalError:
        return False


def matchings(p, constraints, t, limit=3000):
    out = []
    for e in match(p, t, {}):
        if all(holds(c, e) for c in constraints):
            out.append(e)
            if len(out) > limit:
                raise TooMany()
    return out


def positions(t):
    yield t
    if t[0] == 'o':
        for c in t[3]:
            yield from positions(c)


def first_position(p, constraints, t):
    """-> (index in pre-order, subtree, matchings) or None"""
    for i, s in enumerate(positions(t)):
        m = matchings(p, constraints, s)
        if m:
            return i, s, m
    return None


def replace_at(t, index, new):
    box = [0]

    def go(n):
        i = box[0]
        box[0] += 1
        if i == index:
            box[0] += ref.size(n) - 1
            return new
        if n[0] == 'o':
            return ['o', n[1], n[2], [go(c) for c in n[3]]]
        return n
    return go(t)


PROP_SET = ref.OpSet(ref.ARITH + ref.PROP_EXTRA)


def text(t):
    """rendering with all parentheses; constants of the rule language have no argument list"""
    if t[0] == 'o' and t[1] == 'function' and not t[3] and (t[2] in TYPES):
        return t[2]
    if t[0] == 'o':
        return ref.full_text(['o', t[1], t[2], [['v', text(c)] for c in t[3]]])
    return ref.full_text(t)
