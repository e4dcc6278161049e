"""Any consistent operator set is tokenized and parsed by the same rules: histories of additions, removals and glue changes."""
import pbt, gen, ref
from ref import Op, OpSet, DYN
from pbt import Sub, Discard, Violation

RULE = "non-trivial: the history contains a refused addition or a removal followed by an addition or a glue operator, and an accepted input with at least two operators"

SYM = ['+', '-', '*', '/', '^', '!', '%', "'", ';', '&', '|', '<', '>', '<=', '<<', '==', '=', '!!', '-->', '->', '--', ':', '?', '$', '@', '+-', '+-+', '!=', '&&', '||', ':=', '+a', '..', '.', '<a>',
       '2x', '"', '#', '\\', '^^', '-x', ';;']
WORD = ['C', 'mod', 'AND', 'or_', 'x_op', 'f', 'g', 'sin', 'longfunctionname', 'pi', 'K', 'foo', 'foobar', 'fo', '[x]', 'C_']
PLACES = ['infix', 'prefix', 'postfix', 'function']
VARS = ['x', 'y', 'ab', 'foob', 'si', 'pie', 'CC', 'k']


def new_op(s, hi):
    place = s.weighted([(5, 'infix'), (3, 'prefix'), (3, 'postfix'), (4, 'function')])
    name = s.choice(WORD if (place == 'function') == s.flip(5, 6) else SYM)
    assoc = 'right' if place == 'infix' and s.flip() else 'left'
    arity = {'infix': 2, 'prefix': 1, 'postfix': 1}.get(place)
    if arity is None:
        arity = s.choice([0, 1, 2, DYN, 3])
    return [name, place, s.int(0, hi) if place != 'function' else 0, assoc, arity]


def generate(src):
    hi = src.choice([2, 4, 9, 250])
    steps = []
    ops = []            # generator's own book-keeping steers the inputs; the check recomputes it
    huge = src.flip(1, 40)
    for _ in range(src.int(3, 30) if not huge else 110):
        k = src.raw(20) if not huge or src.flip(1, 4) else 7
        if k <= 7 or not ops:
            o = new_op(src, hi)
            if k == 0 and ops:
                o[:2] = list(src.choice(ops)[:2])     # clash
                o[3], o[4] = 'left', {'infix': 2, 'prefix': 1, 'postfix': 1}.get(o[1], o[4])
            steps.append(['add', o])
            apply_add(ops, o)
        elif k <= 10:
            o = src.choice(ops) if src.flip(5, 6) else new_op(src, hi)
            steps.append(['del', o[0], o[1]])
            ops = [q for q in ops if (q[0], q[1]) != (o[0], o[1])]
        elif k == 11:
            inf = [o[0] for o in ops if o[1] == 'infix']
            steps.append(['glue', src.choice(inf) if inf and src.flip(4, 5) else ''])
        elif k == 12:
            o = src.choice(ops) if src.flip() else new_op(src, hi)
            steps.append(['lookup', o[0], src.choice(PLACES) if src.flip(1, 3) else o[1]])
        else:
            os = opset(ops)
            g = gen.TextGen(src, os, vars_=VARS, budget=src.choice([3, 6, 10]), glue=src.flip(1, 4))
            toks = g.expr()
            j = src.raw(6)
            if j == 0 and toks:
                toks.insert(src.raw(len(toks)), src.choice(SYM + WORD + ['(', ')', ',', '7']))
            if j == 1:
                toks = ''.join(toks)
            steps.append(['text', toks if isinstance(toks, str) else gen.join(src, toks, os.keywords)])
    return {'steps': steps}


def opset(ops, glue=None):
    s = OpSet([Op(o[0], o[1], o[2] if o[1] != 'function' else 1000, o[3], arity=o[4]) for o in ops])
    s.glue = s.get(glue, 'infix') if glue else None
    return s


def apply_add(ops, o):
    """-> is the addition consistent?"""
    if any(q[0] == o[0] and q[1] == o[1] for q in ops):
        return False
    if o[1] == 'infix' and any(q[1] == 'infix' and q[2] == o[2] and q[3] != o[3] for q in ops):
        return False
    ops.append(o)
    return True


def check(case, ctx):
    f = ['ctx', 'custom']
    want = []
    ops, glue = [], None
    refused = removed = again = parsed = False
    hist = []
    for st in case['steps']:
        k = st[0]
        if k == 'add':
            o = st[1]
            ok = apply_add(ops, o)
            refused |= not ok
            again |= ok and removed
            f += ['addop', o[0], o[1], str(o[2]), o[3], str(o[4]), 'lookup', o[0], o[1]]
            cur = next((q for q in ops if q[0] == o[0] and q[1] == o[1]), None)
            want.append((st, [b'1' if ok else b'0', describe(cur)]))
        elif k == 'del':
            had = any(q[0] == st[1] and q[1] == st[2] for q in ops)
            ops = [q for q in ops if not (q[0] == st[1] and q[1] == st[2])]
            removed |= had
            if st[2] == 'infix' and glue == st[1] and had:
                glue = None
            f += ['delop', st[1], st[2], 'lookup', st[1], st[2]]
            want.append((st, [b'1' if had else b'0', b'']))
        elif k == 'glue':
            present = any(q[0] == st[1] and q[1] == 'infix' for q in ops)
            if st[1] and not present:
                continue
            glue = st[1] or None
            f += ['glue', st[1], 'infix' if st[1] else '']
            want.append((st, [b'1']))
        elif k == 'lookup':
            cur = next((q for q in ops if q[0] == st[1] and q[1] == st[2]), None)
            f += ['lookup', st[1], st[2]]
            want.append((st, [describe(cur)]))
        else:
            if not st[1]:
                continue
            os = opset(ops, glue)
            toks = ref.tokenize(st[1], os.keywords)
            try:
                t = ref.Parser(os, toks).parse()
                parsed |= sum(1 for n in ref.walk(t) if n[0] == 'o') >= 2
            except ref.Reject:
                t = None
            f += ['tok', st[1], 'parse', '0', st[1]]
            want.append((st, ('text', toks, t, list(ops), glue)))
    if not want:
        raise Discard()
    # every operator is what it was declared to be, and has an identity of its own
    for o in ops:
        f += ['lookup', o[0], o[1], 'opid', o[0], o[1]]
    r = ctx.driver('engine').run(f)
    gen.need_ok(r, 'history %s' % case['steps'])
    g = r.fields
    i = 0
    for st, w in want:
        if isinstance(w, list):
            if [described(x) for x in g[i:i + len(w)]] != w:
                raise Violation('step %s gives %s instead of %s; history %s' % (st, g[i:i + len(w)], w, case['steps']))
            i += len(w)
            continue
        _, toks, t, cur, gl = w
        n = int(g[i])
        got = [gen.text(x) for x in g[i + 1:i + 1 + n]]
        i += 1 + n
        what = '%r with operators %s and glue %s' % (st[1], cur, gl)
        if got != toks:
            raise Violation('%s: tokens are %s instead of %s' % (what, got, toks))
        ok, dump = g[i] == b'1', g[i + 2]
        i += 3
        if ok != (t is not None):
            raise Violation('%s is %s' % (what, 'accepted' if ok else 'rejected'))
        if ok and not ref.same(gen.from_dump(dump), t):
            raise Violation('%s is read as %s instead of %s' % (what, ref.show(gen.from_dump(dump)), ref.show(t)))
        ctx.label('accepted' if ok else 'rejected')
    ids = set()
    for o in ops:
        if described(g[i]) != describe(o):
            raise Violation('at the end, operator %s is %r; history %s' % (o, g[i], case['steps']))
        if g[i + 1] in ids:
            raise Violation('identity of operator %s is not unique; history %s' % (o, case['steps']))
        ids.add(g[i + 1])
        i += 2
    if not (parsed and (refused or again or glue)):
        ctx.trivial()


def describe(o):
    if o is None:
        return b''
    if o[1] == 'function':
        return ('%s function %d' % (o[0], o[4])).encode()
    return ('%s %s %d %s %d' % tuple(o)).encode()


def described(b):
    w = b.split(b' ')
    return b' '.join([w[0], w[1], w[-1]]) if len(w) == 5 and w[1] == b'function' else b


SUBS = [Sub('histories', generate, check, quick=14000, need=['engine'])]
