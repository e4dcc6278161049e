"""Generators of expressions shared by the checks."""
import math
import ref

VARS = ['x', 'y', 'z', 'ab', 'k_', 'n', 'X', 'a[b]', 'ee', 'pix', 'modx', 'Cx', 'sinx', 'w', 'a_long_name_xa', 'a_long_name_xb', 'a_name_of_more_than_thirty_two_characters_x', 'a_name_of_more_than_thirty_two_characters_y']
SPACES = ['', ' ', '', '  ']


def number(src, special=False):
    k = src.raw(10 if not special else 12)
    if k <= 4:
        return str(src.int(0, 12))
    if k <= 6:
        return '%d.%d' % (src.int(0, 30), src.choice([5, 25, 0, 1, 75, 125, 333, 9]))
    if k == 7:
        return '.%d' % src.choice([5, 25, 1, 75, 0])
    if k == 8:
        return '%d.' % src.int(0, 20)
    if k == 9:
        return str(src.choice([100, 0, 1, 2, 17, 20, 64, 170, 171, 1000, 65536, 4294967296, 9007199254740993]))
    return src.choice(['inf', 'nan', 'INF', 'infinity', 'NaN'])


class TextGen:
    """Builds the token list of a well-formed expression (the reference parser decides what it means)."""

    def __init__(self, src, ops, vars_=VARS, funcs=None, budget=14, glue=None, special=False, postfix=None, prefix=None,
                 braces=True):
        self.s, self.ops, self.vars = src, ops, vars_
        self.budget = budget
        by = ops.by
        self.infix = sorted(by['infix'])
        self.prefix = sorted(by['prefix']) if prefix is None else prefix
        self.postfix = sorted(by['postfix']) if postfix is None else postfix
        fs = [o for o in by['function'].values()] if funcs is None else [by['function'][f] for f in funcs]
        self.funcs = sorted([o.name for o in fs if o.arity != 0])
        self.consts = sorted([o.name for o in fs if o.arity == 0])
        self.glue = (ops.glue is not None) if glue is None else glue
        self.special = special
        self.braces = braces

    def paren(self):
        s = self.s
        return (s.choice(['(', '(', '{']) if self.braces else '('), (s.choice([')', ')', '}']) if self.braces else ')')

    def leaf(self):
        s = self.s
        k = s.raw(8)
        if k <= 3 or (k <= 5 and not self.vars):
            return [number(s, self.special)]
        if k <= 5:
            return [s.choice(self.vars)]
        if k == 6 and self.consts:
            return [s.choice(self.consts)]
        return [number(s, self.special)]

    def operand(self):
        s = self.s
        out = []
        if self.budget <= 0:
            out = self.leaf()
        else:
            self.budget -= 1
            k = s.raw(12)
            if k <= 4:
                out = self.leaf()
            elif k <= 6 and self.prefix:
                out = [s.choice(self.prefix)] + self.operand()
                return out
            elif k <= 8:
                a, b = self.paren()
                out = [a] + self.expr() + [b]
            elif k <= 10 and self.funcs:
                f = s.choice(self.funcs)
                ar = self.ops.by['function'][f].arity
                if ar == ref.DYN:
                    ar = s.choice([1, 2, 0, 3, 4])
                a, b = self.paren()
                out = [f, a]
                for i in range(ar):
                    if i:
                        out.append(',')
                    out += self.expr()
                out.append(b)
            else:
                out = self.leaf()
        while self.postfix and s.flip(1, 7):
            out = out + [s.choice(self.postfix)]
        return out

    def expr(self):
        s = self.s
        out = self.operand()
        while self.budget > 0 and s.flip(4, 7):
            self.budget -= 1
            if self.glue and s.flip(1, 5):
                o = self.operand()
                if o[0] in self.ops.by['infix'] or o[0] in self.ops.by['postfix']:
                    out += [s.choice(self.infix)] if self.infix else []
                    if not self.infix:
                        continue
                out += o
            elif self.infix:
                out += [s.choice(self.infix)] + self.operand()
            else:
                break
        return out


def join(src, toks, keywords=()):
    """Joins tokens; blank where two tokens would melt together."""
    out = ''
    prev = ''
    for t in toks:
        sep = src.choice(SPACES)
        if prev and sep == '':
            a, b = prev[-1], t[0]
            la, lb = ref.is_letter(a), ref.is_letter(b)
            da, db = ref.is_digit(a), ref.is_digit(b)
            if (la and lb) or (da and db):
                sep = ' '
            elif not (la or da or lb or db) and not (a in '(){},' or b in '(){},'):
                # symbol next to symbol: keep apart if there is a longer keyword
                if any(k.startswith(prev) and len(k) > len(prev) and k.startswith((prev + t)[:len(k)]) for k in keywords):
                    sep = ' '
        out += sep + t
        prev = t
    if src.flip(1, 8):
        out = out + ' '
    return out


def expr_text(src, ops=ref.ARITH_SET, **kw):
    g = TextGen(src, ops, **kw)
    toks = g.expr()
    return join(src, toks, ops.keywords)


# ---------------------------------------------------------------- trees
def tree(src, budget, leaf, unary=(), binary=(), funcs=()):
    """Random tree as list; unary: [(place,name)], binary: [name], funcs: [(name, arity|DYN)]"""
    box = [budget]

    def go():
        if box[0] <= 0:
            return leaf(src)
        box[0] -= 1
        k = src.raw(10)
        if k <= 1:
            return leaf(src)
        if k <= 6 and binary:
            n = src.choice(binary)
            return ['o', 'infix', n, [go(), go()]]
        if k == 7 and unary:
            p, n = src.choice(unary)
            return ['o', p, n, [go()]]
        if funcs:
            n, ar = src.choice(funcs)
            if ar == ref.DYN:
                ar = src.choice([1, 2, 0, 3])
            return ['o', 'function', n, [go() for _ in range(ar)]]
        return leaf(src)
    return go()


# ---------------------------------------------------------------- tree <-> driver
def to_dump(t):
    out = []
    for n in ref.walk(t):
        if n[0] == 'c':
            v = float(n[1])
            out.append('c ' + (v.hex() if math.isfinite(v) else repr(v)))
        elif n[0] == 'v':
            out.append('v ' + n[1])
        else:
            out.append('o %s %s %d' % (n[1], n[2], len(n[3])))
    return '\n'.join(out) + '\n'


def from_dump(b):
    lines = b.decode('latin-1').split('\n')
    pos = [0]

    def go():
        l = lines[pos[0]]
        pos[0] += 1
        if l[0] == 'c':
            s = l[2:]
            return ['c', float(s) if 'n' in s else float.fromhex(s)]
        if l[0] == 'v':
            return ['v', l[2:]]
        if l == 'NULL':
            return None
        _, place, name, n = l.split(' ')
        return ['o', place, name, [go() for _ in range(int(n))]]
    return go()


def text(b):
    return b.decode('latin-1')


def need_ok(r, what=''):
    """A run that crashed is a violation of whatever was being checked; one cut off by the wall clock is no answer."""
    import pbt
    if r.inconclusive:
        raise pbt.Inconclusive('wall clock')
    if not r.ok or not r.fields or r.fields[-1] != b'DONE':
        raise pbt.Violation('%s: the program %s' % (what or 'run', r.describe()))


def session(ctx, lines, warm=None, size=None, **kw):
    """Runs lines ('L...' ops) -> list of (ok, out, err). size: number of nodes that are simplified, more than 20 may take long"""
    d = ctx.driver('session', warm=warm, **kw) if warm else ctx.driver('session', **kw)
    r = d.run(['session'] + lines)
    if size is not None and r.status == 'T':
        import pbt
        if size > 20:
            raise pbt.Inconclusive('CPU limit')
        return session(ctx, lines, warm, cpu_ms=120000)
    if warm and r.status == 'T' and not kw:
        import pbt
        r = ctx.driver('session', warm=warm, cpu_ms=60000).run(['session'] + lines)
        if r.status == 'T':
            raise pbt.Inconclusive('CPU limit')  # rewriting a big expression; hanging is decided by C04
    return _answers(r, lines)


def _answers(r, lines):
    need_ok(r, 'session %r' % (lines,))
    f = r.fields[:-1]
    return [(f[i] == b'1', text(f[i + 1]), text(f[i + 2])) for i in range(0, len(f), 3)]


def simplifying(ctx, lines, sizes, warm=None, pre=0):
    """Like session, for lines that are simplified: rewriting big expressions may legitimately take long, so a line of
    more than 20 nodes that exceeds the CPU limit gives None instead of a violation. Lines have to be independent."""
    d = ctx.driver('session', warm=warm, cpu_ms=20000) if warm else ctx.driver('session', cpu_ms=20000)
    r = d.run(['session'] + lines)
    if r.status != 'T':
        return _answers(r, lines)
    out = []
    for i in range(pre, len(lines)):
        ls = lines[:pre] + [lines[i]]
        r = d.run(['session'] + ls)
        if r.status == 'T':
            if sizes[i] <= 20:
                session(ctx, ls, warm, cpu_ms=120000)
            out.append(None)
            continue
        out.append(_answers(r, ls)[-1])
    return [None] * pre + out


RULES = 'load simplification %s/simplification.ruleset'


def rules_cmd():
    import build
    return RULES % build.REPO


def ruleset_path():
    import build
    return build.REPO + '/simplification.ruleset'
