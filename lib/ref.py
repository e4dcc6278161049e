"""Reference models written from the documentation: operator table, tokenizer, Pratt parser, evaluator, printer.
Trees: ['c', value] | ['v', name] | ['o', placement, name, [children]]  (placement: prefix infix postfix function)"""
import ctypes, math, re, random

PLACES = ['prefix', 'infix', 'postfix', 'function']
DYN = -1


class Op:
    __slots__ = ('name', 'place', 'prec', 'assoc', 'arity')

    def __init__(self, name, place, prec=255, assoc='left', arity=None):
        self.name, self.place, self.prec, self.assoc = name, place, prec, assoc
        self.arity = arity if arity is not None else {'prefix': 1, 'postfix': 1, 'infix': 2}[place]


# documented operator table (README)
ARITH = [
    Op('$', 'prefix', 0), Op('@', 'prefix', 8), Op('+', 'prefix', 7), Op('-', 'prefix', 7),
    Op('!', 'postfix', 6), Op('%', 'postfix', 6), Op("'", 'postfix', 7),
    Op('+', 'infix', 2), Op('-', 'infix', 2), Op('*', 'infix', 4), Op('/', 'infix', 3),
    Op('^', 'infix', 5, 'right'), Op('C', 'infix', 1), Op('mod', 'infix', 1),
]
FUNCS = {'deriv': 2, 'exp': 1, 'root': 2, 'sqrt': 1, 'log': 2, 'ln': 1, 'ld': 1, 'lg': 1, 'sin': 1, 'cos': 1, 'tan': 1,
         'asin': 1, 'acos': 1, 'atan': 1, 'sinh': 1, 'cosh': 1, 'tanh': 1, 'asinh': 1, 'acosh': 1, 'atanh': 1,
         'max': DYN, 'min': DYN, 'abs': 1, 'ceil': 1, 'floor': 1, 'round': 1, 'trunc': 1, 'frac': 1, 'sgn': 1,
         'sum': DYN, 'prod': DYN, 'avg': DYN, 'gcd': 2, 'lcm': 2, 'rand': 2, 'fib': 1, 'gamma': 1, 'var': DYN}
CONSTS = {'pi': 3.14159265359, 'e': 2.71828182846, 'phi': 1.61803398874, 'clight': 299792458.0, 'csound': 343.2}
for _n, _a in FUNCS.items():
    ARITH.append(Op(_n, 'function', arity=_a))
for _n in list(CONSTS) + ['ans']:
    ARITH.append(Op(_n, 'function', arity=0))

# additional operators of the rule language
PROP_EXTRA = [Op('type', 'function', arity=1), Op('equal', 'function', arity=2), Op('==', 'infix', 1), Op('!=', 'infix', 1),
              Op('CONST', 'function', arity=0), Op('VAR', 'function', arity=0), Op('OP', 'function', arity=0),
              Op('>', 'infix', 1), Op('<', 'infix', 1), Op('>=', 'infix', 1), Op('<=', 'infix', 1), Op('||', 'infix', 0),
              Op('TRUE', 'function', arity=0), Op('FALSE', 'function', arity=0), Op('!', 'prefix', 4),
              Op('count', 'function', arity=DYN)]


class OpSet:
    def __init__(self, ops, glue=None):
        self.ops = list(ops)
        self.glue = glue
        self.index()

    def index(self):
        self.by = {p: {} for p in PLACES}
        for o in self.ops:
            self.by[o.place][o.name] = o
        self.keywords = sorted({o.name for o in self.ops}, key=lambda k: (-len(k), k))

    def get(self, name, place):
        return self.by[place].get(name)

    def with_ops(self, more):
        return OpSet(self.ops + more, self.glue)


ARITH_SET = OpSet(ARITH)
ARITH_SET.glue = ARITH_SET.get('*', 'infix')


def is_letter(c):
    return ('A' <= c <= 'Z') or ('a' <= c <= 'z') or c in '_[]'


def is_digit(c):
    return ('0' <= c <= '9') or c == '.'


def tokenize(s, keywords):
    """Letter runs are tokens; elsewhere the longest keyword wins; digit runs; everything else single characters."""
    kws = [k for k in keywords if k]
    out = []
    i, n = 0, len(s)

    def kw_at(i):
        best = 0
        for k in kws:
            if len(k) > best and s.startswith(k, i):
                best = len(k)
        return best
    while i < n:
        if is_letter(s[i]):
            j = i
            while j < n and is_letter(s[j]):
                j += 1
        else:
            k = kw_at(i)
            if k:
                j = i + k
            elif is_digit(s[i]):
                j = i + 1
                while j < n and is_digit(s[j]) and not kw_at(j):
                    j += 1
            else:
                j = i + 1
        out.append(s[i:j])
        i = j
    return out


_NUM = re.compile(r'^(\d+\.?\d*|\.\d+)$')
_SPECIAL = {'inf': math.inf, 'infinity': math.inf, 'nan': math.nan}


def constant(tok):
    if _NUM.match(tok):
        return float(tok)
    v = _SPECIAL.get(tok.lower())
    return v


class Reject(Exception):
    at = None        # index of the offending token, number of tokens at the end of input


class Parser:
    """Pratt parser. An operator t whose operand is being read leaves an arriving infix/postfix operator q to its
    operand unless prec(q) < prec(t), or both are equal and q associates to the left."""

    def __init__(self, ops, tokens):
        self.ops = ops
        self.toks = [(i, t) for i, t in enumerate(tokens) if t[0] != ' ']
        self.count = len(tokens)
        self.i = 0
        self.fault = None    # position in toks if it is not the current one
        self.where = {}      # id of node -> index of its token
        self.keep = []

    def mark(self, i, node):
        self.where[id(node)] = self.toks[i][0]
        self.keep.append(node)
        return node

    def peek(self):
        return self.toks[self.i][1] if self.i < len(self.toks) else None

    def parse(self):
        try:
            if not self.toks:
                raise Reject('empty')
            t = self.expr(None)
            if self.peek() is not None:
                raise Reject('trailing %r' % self.peek())
            return t
        except Reject as e:
            i = self.fault if self.fault is not None else self.i
            e.at = self.toks[i][0] if i < len(self.toks) else self.count
            raise

    @staticmethod
    def takes(q, binder):
        """does q bind inside the operand of binder?"""
        if binder is None:
            return True
        return not (q.prec < binder.prec or (q.prec == binder.prec and q.assoc == 'left'))

    def expr(self, binder):
        lhs = self.operand()
        while True:
            t = self.peek()
            if t is None or t in (')', '}', ','):
                return lhs
            q = self.ops.get(t, 'infix')
            if q is not None:
                if not self.takes(q, binder):
                    return lhs
                at = self.i
                self.i += 1
                rhs = self.expr(q)
                lhs = self.mark(at, ['o', 'infix', q.name, [lhs, rhs]])
                continue
            q = self.ops.get(t, 'postfix')
            if q is not None:
                if not self.takes(q, binder):
                    return lhs
                lhs = self.mark(self.i, ['o', 'postfix', q.name, [lhs]])
                self.i += 1
                continue
            g = self.ops.glue
            if g is None:
                raise Reject('expected infix')
            if not self.takes(g, binder):
                return lhs
            at = self.i
            rhs = self.expr(g)
            lhs = self.mark(at, ['o', 'infix', g.name, [lhs, rhs]])

    def operand(self):
        t = self.peek()
        if t is None:
            raise Reject('unexpected end')
        if t in ('(', '{'):
            self.i += 1
            e = self.expr(None)
            if self.peek() not in (')', '}'):
                raise Reject('missing )')
            self.i += 1
            return e
        if t in (')', '}', ','):
            raise Reject('unexpected %s' % t)
        f = self.ops.get(t, 'function')
        if f is not None:
            at = self.i
            self.i += 1
            if f.arity == 0:
                return self.mark(at, ['o', 'function', f.name, []])
            if self.peek() not in ('(', '{'):
                raise Reject('expected parameter list')
            self.i += 1
            args = []
            if self.peek() in (')', '}'):
                self.i += 1
            else:
                while True:
                    args.append(self.expr(None))
                    d = self.peek()
                    if d == ',':
                        self.i += 1
                        continue
                    if d in (')', '}'):
                        self.i += 1
                        break
                    raise Reject('missing )')
            if f.arity != DYN and f.arity != len(args):
                self.fault = at
                raise Reject('arity')
            return self.mark(at, ['o', 'function', f.name, args])
        p = self.ops.get(t, 'prefix')
        if p is not None:
            at = self.i
            self.i += 1
            return self.mark(at, ['o', 'prefix', p.name, [self.expr(p)]])
        v = constant(t)
        if v is not None:
            self.i += 1
            return ['c', v]
        if self.ops.get(t, 'infix') or self.ops.get(t, 'postfix'):
            raise Reject('unexpected infix')
        if not is_letter(t[0]):
            raise Reject('unexpected character')
        self.i += 1
        return ['v', t]


def parse_text(s, ops=ARITH_SET):
    return Parser(ops, tokenize(s, ops.keywords)).parse()


# ------------------------------------------------------------------ evaluation
_libm = ctypes.CDLL('libm.so.6')


def _fn(name, n):
    f = getattr(_libm, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f


L = {n: _fn(n, 1) for n in ('exp log log2 log10 sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh ceil floor '
                            'round trunc tgamma sqrt').split()}
pow_, fmod = _fn('pow', 2), _fn('fmod', 2)
INF, NAN = math.inf, math.nan


class EvalError(Exception):
    """kind: div0 complex history deriv variable"""


class Unspecified(Exception):
    """The documentation does not determine the result (e.g. gcd of NaN)."""


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return NAN
        s = math.copysign(1, a) * math.copysign(1, b)
        return s * INF
    try:
        return a / b
    except OverflowError:
        return INF


def _int(x):
    if not math.isfinite(x):
        raise Unspecified('integer of non-finite')
    return math.trunc(x)


def _big(x):
    try:
        return float(x)
    except OverflowError:
        return INF


def apply_op(place, name, a, hist=None):
    if place == 'prefix':
        if name in '$+':
            return a[0]
        if name == '-':
            return -a[0]
        if name == '@':
            i = _int(a[0])
            h = hist or []
            if i < 0 or i >= len(h):
                raise EvalError('history')
            return h[len(h) - 1 - i]
    if place == 'postfix':
        if name == "'":
            raise EvalError('deriv')
        if name == '%':
            return a[0] / 100
        if name == '!':
            if a[0] != a[0]:
                raise Unspecified('nan!')
            if math.isinf(a[0]):
                if a[0] < 0:
                    raise Unspecified('(-inf)!')
                return INF
            n = math.trunc(a[0])
            if n <= 1:
                return 1.0
            return _big(math.factorial(n)) if n <= 200 else INF
    if place == 'infix':
        x, y = a
        if name == '+':
            return x + y
        if name == '-':
            return x - y
        if name == '*':
            return x * y
        if name == '/':
            if y == 0:
                raise EvalError('div0')
            return fdiv(x, y)
        if name == '^':
            if x == 0 and y <= 0:
                raise EvalError('div0')
            if x < 0 and not math.isfinite(y):
                raise Unspecified('negative^nonfinite')
            if x < 0 and math.trunc(y) != y:
                raise EvalError('complex')
            return pow_(x, y)
        if name == 'C':
            n, k = abs(_int(x)), abs(_int(y))
            if n > 10**15:
                raise Unspecified('huge')
            if k > n:
                return 0.0
            k = min(k, n - k)
            if k > 1100:
                return INF  # n >= 2k, hence at least 2^1100
            r = _big(math.comb(n, k))
            if 1e285 < r < INF:
                raise Unspecified('may overflow in between')
            return r
        if name == 'mod':
            return fmod(x, y)
    # functions
    n = len(a)
    if name in CONSTS:
        return CONSTS[name]
    if name == 'ans':
        if not hist:
            raise EvalError('history')
        return hist[-1]
    if name == 'deriv':
        raise EvalError('deriv')
    if name == 'root':
        if a[0] != a[0]:
            raise Unspecified('root(nan)')
        if a[0] < 0:
            raise EvalError('complex')
        return pow_(a[0], fdiv(1.0, a[1]))
    if name == 'sqrt':
        if a[0] != a[0]:
            raise Unspecified('sqrt(nan)')
        if a[0] < 0:
            raise EvalError('complex')
        return L['sqrt'](a[0])
    if name == 'log':
        return fdiv(L['log'](a[0]), L['log'](a[1]))
    one = {'ln': 'log', 'ld': 'log2', 'lg': 'log10', 'gamma': 'tgamma'}
    if name in one:
        return L[one[name]](a[0])
    if name in ('exp sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh ceil floor round trunc'.split()):
        return L[name](a[0])
    if name == 'abs':
        return abs(a[0])
    if name == 'frac':
        return a[0] - L['floor'](a[0])
    if name == 'sgn':
        if a[0] != a[0]:
            raise Unspecified('sgn(nan)')
        return -1.0 if a[0] < 0 else (1.0 if a[0] > 0 else 0.0)
    if name in ('max', 'min'):
        if any(x != x for x in a):
            raise Unspecified('max(nan)')
        if name == 'max':
            return max([-INF] + a)
        return min([INF] + a)
    if name == 'sum':
        r = 0.0
        for x in a:
            r += x
        return r
    if name == 'prod':
        r = 1.0
        for x in a:
            r *= x
        return r
    if name == 'avg':
        if n == 0:
            return 0.0
        r = 0.0
        for x in a:
            r += x
        return r / n
    if name == 'var':
        if n == 0:
            raise Unspecified('var()')
        m = 0.0
        for x in a:
            m += x
        m /= n
        r = 0.0
        for x in a:
            r += pow_(x - m, 2.0)
        return r / n
    if name == 'gcd':
        return _big(math.gcd(_int(a[0]), _int(a[1])))
    if name == 'lcm':
        x, y = _int(a[0]), _int(a[1])
        if x == 0 and y == 0:
            raise Unspecified('lcm(0,0)')
        if abs(x * y) > 10 ** 300:
            raise Unspecified('product may overflow')
        return _big(abs(x * y) // math.gcd(x, y))
    if name == 'fib':
        k = _int(a[0])
        m = abs(k)
        if m > 1500:
            return INF if (k >= 0 or m % 2 == 1) else -INF
        x, y = 0, 1
        for _ in range(m):
            x, y = y, x + y
        return _big(x) if (k >= 0 or m % 2 == 1) else -_big(x)
    if name == 'rand':
        raise Unspecified('rand')
    raise Unspecified(name)


INEXACT = {'exp', 'root', 'sqrt', 'log', 'ln', 'ld', 'lg', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh',
           'tanh', 'asinh', 'acosh', 'atanh', 'avg', 'var', 'gamma', '^', '%', 'frac'}


INEXACT_BIG = INEXACT | {'C', '!', 'fib', 'lcm', 'prod', 'sum'}


def evaluate(t, env=None, hist=None, jitter=None, funcs=None):
    """jitter: random.Random to perturb inexact results relatively by 1e-14 (conditioning estimate)"""
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'v':
        if env is None or t[1] not in env:
            raise EvalError('variable')
        return env[t[1]]
    args = [evaluate(c, env, hist, jitter, funcs) for c in t[3]]
    if funcs and t[1] == 'function' and t[2] in funcs:
        params, body, h = funcs[t[2]]
        return evaluate(body, dict(zip(params, args)), h, jitter, funcs)
    if jitter is not None and t[2] in ('gcd', 'lcm', 'mod', 'C', 'sin', 'cos', 'tan', 'frac', '^', 'gamma', '!', 'fib') and any(
            c[0] == 'o' and math.isfinite(a) and abs(a) > 2.0 ** 42 for c, a in zip(t[3], args)):
        raise Unspecified('depends on the last digits')
    r = apply_op(t[1], t[2], args, hist)
    if jitter is not None and math.isfinite(r) and (t[2] in INEXACT and r != math.floor(r)
                                                    or t[2] in INEXACT_BIG and abs(r) > 2.0 ** 52):
        r *= 1 + jitter.uniform(-1, 1) * 1e-13
    if jitter is not None and r == 0:
        r = jitter.choice((0.0, -0.0))  # the sign of zero is not specified
    return r


def close(x, y, rel=2e-9, ab=0.0):
    if x != x or y != y:
        return x != x and y != y
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= ab + rel * max(abs(x), abs(y))


def eval_conditioned(t, env=None, hist=None, funcs=None, tol=1e-10):
    """value, or raises EvalError/Unspecified; Unspecified if ill-conditioned (last digits of libm decide the outcome)"""
    def once(j):
        try:
            return ('v', evaluate(t, env, hist, j, funcs))
        except EvalError as e:
            return ('e', str(e))
    r = once(None)
    for s in (1, 2, 3, 4, 5, 6):
        q = once(random.Random(s))
        if q[0] != r[0] or (r[0] == 'v' and not close(q[1], r[1], tol)) or (r[0] == 'e' and q[1] != r[1]):
            raise Unspecified('ill-conditioned')
    if r[0] == 'e':
        raise EvalError(r[1])
    return r[1]


def error_kinds(t, env=None, hist=None):
    """kinds of all errors whose operands have values (which of them is reported first is not specified)"""
    kinds = set()

    def go(n):
        if n[0] == 'c':
            return n[1]
        if n[0] == 'v':
            if env is None or n[1] not in env:
                kinds.add('variable')
                return None
            return env[n[1]]
        args = [go(c) for c in n[3]]
        if any(a is None for a in args):
            return None
        try:
            return apply_op(n[1], n[2], args, hist)
        except EvalError as e:
            kinds.add(str(e))
            return None
        except (Unspecified, OverflowError):
            return None
    go(t)
    return kinds


ERRTEXT = {'div0': 'Division by zero', 'complex': 'Complex solution',
           'history': 'This part of the history is not set yet', 'deriv': 'Expression not continuously differentiable'}


def fmt(v):
    return '%.10g' % v


def printed_number_ok(text, want, rel=2e-9):
    """text must be the %.10g rendering of a value close to want"""
    try:
        got = float(text)
    except ValueError:
        return False
    if text.strip() != text:
        return False
    if got != got:
        return text in ('nan', '-nan') and want != want
    if fmt(got) != text and text != '-0':
        return False
    return close(got, want, rel, 1e-300)


# ------------------------------------------------------------------ helpers on trees
def walk(t):
    yield t
    if t[0] == 'o':
        for c in t[3]:
            yield from walk(c)


def variables(t):
    out = []
    for n in walk(t):
        if n[0] == 'v' and n[1] not in out:
            out.append(n[1])
    return out


def size(t):
    return sum(1 for _ in walk(t))


def depth(t):
    return 1 + max([0] + [depth(c) for c in t[3]]) if t[0] == 'o' else 1


def subst(t, env):
    if t[0] == 'v':
        return env.get(t[1], t)
    if t[0] == 'o':
        return ['o', t[1], t[2], [subst(c, env) for c in t[3]]]
    return t


def num_text(v):
    """decimal literal (the input syntax has no exponents); v finite and >= 0"""
    s = repr(float(v))
    if 'e' in s:
        from decimal import Decimal
        s = format(Decimal(s), 'f')
    if s.endswith('.0'):
        s = s[:-2]
    return s


def full_text(t):
    """fully parenthesised rendering: structure does not depend on precedences"""
    if t[0] == 'c':
        if t[1] != t[1]:
            return 'nan'
        if math.isinf(t[1]):
            return 'inf' if t[1] > 0 else '(0-inf)'
        return num_text(t[1]) if t[1] >= 0 and math.copysign(1, t[1]) > 0 else '(-%s)' % num_text(-t[1])
    if t[0] == 'v':
        return t[1]
    p, n, a = t[1], t[2], t[3]
    if p == 'function':
        o = None
        if n in CONSTS or n == 'ans':
            return n
        return '%s(%s)' % (n, ','.join(full_text(c) for c in a))
    if p == 'prefix':
        return '(%s(%s))' % (n, full_text(a[0]))
    if p == 'postfix':
        return '((%s)%s)' % (full_text(a[0]), n)
    return '((%s) %s (%s))' % (full_text(a[0]), n, full_text(a[1]))


def show(t):
    """s-expression"""
    if t[0] == 'c':
        return fmt(t[1])
    if t[0] == 'v':
        return t[1]
    return '(%s:%s%s)' % (t[1], t[2], ''.join(' ' + show(c) for c in t[3]))


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'c':
        return a[1] == b[1] or (a[1] != a[1] and b[1] != b[1])
    if a[0] == 'v':
        return a[1] == b[1]
    return a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and all(same(x, y) for x, y in zip(a[3], b[3]))


def from_json(t):
    return t
