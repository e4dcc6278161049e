"""Reference model of a session (without or with simplification rules): definitions, history, commands."""
import math
import ref
from ref import Op, OpSet, Parser, Reject, EvalError, Unspecified


class Fail(Exception):
    """The line has to be rejected; args[0]: reason"""


MAXPAR = 10
_BASE = list(ref.ARITH)
_BUILTIN_FUNCS = {o.name for o in _BASE if o.place == 'function'}


class Res:
    """Expected reaction. kind: none | number | tree | table | help | unknown"""
    __slots__ = ('ok', 'kind', 'value', 'rows', 'fold', 'why')

    def __init__(self, ok, kind='none', value=None, rows=None, fold=None, why=''):
        self.ok, self.kind, self.value, self.rows, self.fold, self.why = ok, kind, value, rows, fold, why


class Model:
    def __init__(self, rules=False, maxsize=1500, maxrows=400):
        self.defs = {}          # name -> (params, body); insertion order is order of definition
        self.hist = []
        self.rules = rules
        self.maxsize, self.maxrows = maxsize, maxrows
        self._ops = None

    def copy(self):
        m = Model(self.rules, self.maxsize, self.maxrows)
        m.defs, m.hist = dict(self.defs), list(self.hist)
        return m

    # ------------------------------------------------------------ parsing
    def opset(self, extra=None):
        if extra is None and self._ops is not None:
            return self._ops
        ops = _BASE + [Op(n, 'function', arity=len(p)) for n, (p, b) in self.defs.items()]
        if extra is not None:
            ops = ops + [extra]
        s = OpSet(ops)
        s.glue = s.get('*', 'infix')
        if extra is None:
            self._ops = s
        return s

    def parse(self, text, extra=None):
        try:
            return ref.parse_text(text, self.opset(extra))
        except Reject as e:
            raise Fail('syntax: %s' % e)

    def expand(self, t):
        if t[0] != 'o':
            return t
        args = [self.expand(c) for c in t[3]]
        if t[1] == 'function' and t[2] in self.defs:
            params, body = self.defs[t[2]]
            r = ref.subst(body, dict(zip(params, args)))
            if ref.size(r) > self.maxsize:
                raise Unspecified('too large')
            return r
        return ['o', t[1], t[2], args]

    def fold(self, t):
        """replaces constant subtrees by their value"""
        if t[0] != 'o':
            return t
        kids = [self.fold(c) for c in t[3]]
        if all(k[0] == 'c' for k in kids):
            return ['c', ref.apply_op(t[1], t[2], [k[1] for k in kids], self.hist)]
        return ['o', t[1], t[2], kids]

    def read(self, text):
        """parse, expand, fold"""
        t = self.expand(self.parse(text))
        try:
            return self.fold(t)
        except EvalError as e:
            raise Fail('evaluation: %s' % e)

    # ------------------------------------------------------------ commands
    def line(self, s):
        try:
            return self._line(s)
        except Fail as e:
            return Res(False, why=str(e))

    def _line(self, s):
        if s == '' or s.startswith('#'):
            return Res(True)
        if s in ('help', 'help operators', 'license'):
            return Res(True, 'help')
        if s.startswith('table '):
            return self.table(s)
        if '=' in s:
            return self.define(s)
        if s == 'clear':
            self.defs.clear()
            self._ops = None
            return Res(True)
        if s.startswith('clear '):
            n = s[6:]
            if n in self.defs:
                del self.defs[n]
                self._ops = None
                return Res(True)
            raise Fail('clear')
        if s.startswith('load '):
            raise Unspecified('load')
        t = self.read(s)
        if t[0] == 'c':
            self.hist.append(t[1])
            return Res(True, 'number', t[1])
        if self.rules:
            return Res(True, 'unknown', t)
        return Res(True, 'tree', t)

    def define(self, s):
        left, right = s.split('=', 1)
        toks = [t for t in ref.tokenize(left, self.opset().keywords) if t[0] != ' ']
        if not toks or not ref.is_letter(toks[0][0]):
            raise Fail('not a function')
        name = toks[0]
        if name in _BUILTIN_FUNCS:
            raise Fail('built-in')
        if name in self.defs:
            raise Fail('redefinition')
        const = len(toks) == 1
        l = self.parse(left, Op(name, 'function', arity=0 if const else ref.DYN))
        if l[0] != 'o' or l[1] != 'function':
            raise Fail('not a function')
        if any(a[0] != 'v' for a in l[3]):
            raise Fail('arguments')
        params = [a[1] for a in l[3]]
        if any(p.startswith('[') for p in params):
            raise Unspecified('list parameter')
        if len(set(params)) > MAXPAR:
            raise Fail('too many parameters')
        if len(set(params)) != len(params):
            raise Fail('not distinct')
        r = self.parse(right, Op(name, 'function', arity=len(params)))
        if any(n[0] == 'o' and n[1] == 'function' and n[2] == name for n in ref.walk(r)):
            raise Fail('recursive')
        try:
            body = self.fold(self.expand(r))
        except EvalError as e:
            raise Fail('evaluation: %s' % e)
        if any(v not in params for v in ref.variables(body)):
            raise Fail('unbound')
        self.defs[name] = (params, body)
        self._ops = None
        return Res(True)

    @staticmethod
    def split(s):
        parts = []
        rest = s[len('table '):]
        for d in (';', ';', ';', ' fold ', ';'):
            i = rest.find(d)
            if i < 0:
                break
            parts.append(rest[:i])
            rest = rest[i + len(d):]
        parts.append(rest)
        return parts

    def const(self, text):
        t = self.read(text)
        if t[0] != 'c':
            raise Fail('not constant')
        return t[1]

    def table(self, s):
        parts = self.split(s)
        if len(parts) not in (4, 6):
            raise Fail('table syntax')
        parts = [p.strip(' ') for p in parts]
        e = self.read(parts[0])
        vs = ref.variables(e)
        if len(vs) > 1:
            raise Fail('more than one variable')
        a, b, st = (self.const(p) for p in parts[1:4])
        if st == 0:
            raise Fail('step is zero')
        f = None
        if len(parts) == 6:
            f = self.read(parts[4])
            acc = None
            bad = [v for v in ref.variables(f) if v not in ('x', 'y')]
            init = self.read(parts[5])
            if bad or init[0] != 'c':
                raise Fail('fold')
            acc = init[1]
        if (a < b and st < 0) or (a > b and st > 0):
            st = -st
        if a + st == a or b + st == b:  # would never end
            raise Fail('step too small')
        if not all(map(math.isfinite, (a, b, st))):
            raise Unspecified('bounds')
        if abs(b - a) / abs(st) > self.maxrows:
            raise Unspecified('too many rows')
        rows = []
        v = a
        while (v <= b) if st > 0 else (v >= b):
            try:
                y = ref.evaluate(ref.subst(e, {vs[0]: ['c', v]}) if vs else e, hist=self.hist)
            except EvalError:
                y = None
            rows.append((v, y))
            if f is not None and y is not None:
                try:
                    acc = ref.evaluate(ref.subst(f, {'x': ['c', acc], 'y': ['c', y]}), hist=self.hist)
                except EvalError:
                    raise Unspecified('fold expression fails')
            if v + st == v:
                raise Unspecified('no progress')
            v += st
        if f is not None:
            self.hist.append(acc)
            return Res(True, 'table', rows=rows, fold=acc)
        return Res(True, 'table', rows=rows)


# ---------------------------------------------------------------- comparison with observed output
def norm(t):
    """negative constants are printed with a sign, which is read as operator"""
    if t[0] == 'c':
        if t[1] == t[1] and math.copysign(1, t[1]) < 0:
            return ['o', 'prefix', '-', [['c', -t[1]]]]
        return t
    if t[0] == 'o':
        return ['o', t[1], t[2], [norm(c) for c in t[3]]]
    return t


def similar(a, b, rel=2e-9):
    if a[0] != b[0]:
        return False
    if a[0] == 'c':
        return ref.close(a[1], b[1], rel)
    if a[0] == 'v':
        return a[1] == b[1]
    return a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and all(similar(x, y, rel) for x, y in zip(a[3], b[3]))


def number_text_ok(text, v, exact=True):
    if exact and v == v and v != 0:
        return text == ref.fmt(v)
    if v != v:
        return text in ('nan', '-nan')
    if v == 0:
        return text in ('0', '-0')
    return ref.printed_number_ok(text, v)


def table_out(out):
    """-> (rows [(arg, value|None)] as texts, fold text|None)"""
    lines = out.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    fold = None
    if lines and lines[-1].startswith('Fold result: '):
        fold = lines.pop()[len('Fold result: '):]
    rows = [tuple(l.split()) for l in lines]
    return rows, fold


def cell_ok(text, v, exact=True):
    if v is None:
        return text == 'Error'
    if v != v:
        return text in ('nan', '-nan')
    if v == 0 or abs(v) < 1e-9:
        try:
            return abs(float(text) - v) <= 2e-10
        except ValueError:
            return False
    if exact:
        return text == '%.10f' % v
    try:
        return ref.close(float(text), v, 2e-9, 2e-10)
    except ValueError:
        return False


def verify(line, want, got, exact=True, ops=None):
    """got: (ok, out, err); returns None or a description of the difference"""
    ok, out, err = got
    if not want.ok:
        if ok:
            return 'line %r should be rejected (%s) but gives %r' % (line, want.why, out)
        if out != '' or err.strip() == '':
            return 'rejected line %r (%s) gives output %r and error %r' % (line, want.why, out, err)
        return None
    if not ok or err != '':
        return 'line %r should succeed but fails: %r' % (line, (out, err))
    if want.kind == 'none' and out != '':
        return 'line %r should print nothing, prints %r' % (line, out)
    if want.kind == 'number':
        if not out.endswith('\n') or not number_text_ok(out[:-1], want.value, exact):
            return 'line %r should give %s, gives %r' % (line, ref.fmt(want.value), out)
    if want.kind == 'tree' and all(math.isfinite(n[1]) for n in ref.walk(want.value) if n[0] == 'c'):
        try:
            t = ref.parse_text(out.rstrip('\n'), ops or ref.ARITH_SET)
        except Reject as e:
            if 'e+' in out or 'e-' in out:
                return None
            return 'line %r gives %r, which is not an expression' % (line, out)
        if 'e+' not in out and 'e-' not in out and not similar(t, norm(want.value)):
            return 'line %r should give %s, gives %r' % (line, ref.show(want.value), out)
    if want.kind == 'table':
        rows, fold = table_out(out)
        if len(rows) != len(want.rows):
            return 'line %r should give %d rows, gives %d: %r' % (line, len(want.rows), len(rows), out[:1500])
        for (v, y), r in zip(want.rows, rows):
            if len(r) != 2 or not cell_ok(r[0], v, exact) or not cell_ok(r[1], y, exact):
                return 'line %r: row should show %r and %r, shows %r' % (line, v, 'Error' if y is None else y, r)
        if (fold is None) != (want.fold is None):
            return 'line %r: fold result %r expected %r' % (line, fold, want.fold)
        if fold is not None and not number_text_ok(fold, want.fold, exact):
            return 'line %r: fold result should be %s, is %s' % (line, ref.fmt(want.fold), fold)
    return None
