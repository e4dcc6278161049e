"""help lists all operators and exactly the current user definitions."""
import re
import pbt, gen, ref, model, calc
import c10
from pbt import Sub, Discard, Violation
from model import Model

RULE = "non-trivial: help is printed with at least two definitions after a removal, a redefinition or a rejected definition, or a definition uses another one"

ANSI = re.compile('\x1b\\[[0-9;]*m')
OPENTRY = re.compile('\x1b\\[47m\x1b\\[22;30m(.*?)\x1b\\[0m')
DESC = {'$': 'identity to parse', '@': 'history', "'": 'derivative', 'deriv': 'derivative', 'C': 'binomial', 'mod': 'modulo', '!': 'factorial', '%': 'division by 100', 'exp': 'natural exponential',
        'root': 'nth root', 'sqrt': 'square root', 'log': 'logarithm to base n', 'ln': 'natural logarithm', 'ld': 'binary logarithm', 'lg': 'logarithm to base 10', 'sin': 'sine', 'cos': 'cosine', 'tan': 'tangent',
        'asin': 'inverse sine', 'acos': 'inverse cosine', 'atan': 'inverse tang', 'sinh': 'hyperbolic sine', 'cosh': 'hyperbolic cosine', 'tanh': 'hyperbolic tangent',
        'asinh': 'inverse hyperbolic sine', 'acosh': 'inverse hyperbolic cosine', 'atanh': 'inverse hyperbolic tang', 'max': 'maximum', 'min': 'minimum', 'abs': 'absolute', 'ceil': 'round up', 'floor': 'round down',
        'round': 'round to nearest', 'trunc': 'round towards', 'frac': 'fractional', 'sgn': 'sign', 'sum': 'sum', 'prod': 'product', 'avg': 'arithmetic mean', 'gcd': 'greatest common', 'lcm': 'least common', 'rand': 'random',
        'fib': 'fibonacci', 'gamma': 'gamma', 'var': 'variance', 'pi': 'archimedes', 'e': 'euler', 'phi': 'golden', 'clight': 'speed of light', 'csound': 'speed of sound', 'ans': 'last result', '*': 'multiplication',
        '/': 'division', '^': 'exponentiation'}
DESC2 = {('+', 'infix'): 'addition', ('-', 'infix'): 'subtraction', ('+', 'prefix'): 'identity', ('-', 'prefix'): 'negation'}


def form(o):
    if o.place == 'prefix':
        return o.name + 'x'
    if o.place == 'postfix':
        return 'x' + o.name
    if o.place == 'infix':
        return 'x %s y' % o.name if ref.is_letter(o.name[0]) else 'x%sy' % o.name
    if o.arity == 0:
        return o.name
    return '%s(%s)' % (o.name, '*' if o.arity == ref.DYN else o.arity)


def section(o):
    if o.name in '$@\'' or o.name == 'deriv':
        return 'Pseudo operators'
    if o.arity == 0 and o.place == 'function':
        return 'Constants'
    if o.name.startswith(('sin', 'cos', 'tan', 'asin', 'acos', 'atan')):
        return 'Trigonometric functions'
    if o.place != 'function' or o.name in ('exp', 'root', 'sqrt', 'log', 'ln', 'ld', 'lg'):
        return 'Basic operators'
    return 'Miscellaneous functions'


EXPECT = {}
for _o in ref.ARITH:
    EXPECT.setdefault(section(_o), []).append(form(_o))

COMMANDS = ['table <expr>', 'load [simplification] <path>', 'clear [<func>]', 'help [operators]', 'license', 'quit', '<func|const> = <after>', '[fold <expr> ; <init>]']


def check_help(out, m, why):
    plain = ANSI.sub('', out)
    for c in COMMANDS:
        if c not in plain:
            raise Violation('%s: command %s is missing in help' % (why, c))
    secs = {}
    cur = None
    lines = out.split('\n')
    user = None
    for i, l in enumerate(lines):
        h = re.match('^([A-Z][A-Za-z -]*):$', l)
        if h:
            cur = h.group(1)
            if cur.startswith('User'):
                user = lines[i + 1:]
                break
            secs[cur] = []
        elif cur:
            secs[cur] += OPENTRY.findall(l)
            if ANSI.sub('', OPENTRY.sub('', l)).strip():
                raise Violation('%s: unexpected line %r in help' % (why, l))
            if sum(len(x) + 1 for x in OPENTRY.findall(l)[:-1]) >= 80:
                raise Violation('%s: line of operators is wider than the terminal: %r' % (why, l))
    got = {k: sorted(v) for k, v in secs.items()}
    want = {k: sorted(v) for k, v in EXPECT.items()}
    if got != want:
        for k in set(got) | set(want):
            a, b = got.get(k, []), want.get(k, [])
            if a != b:
                raise Violation('%s: help section %r lists %s additionally and not %s' % (why, k, [x for x in a if a.count(x) > b.count(x)], [x for x in b if b.count(x) > a.count(x)]))
    rows = [ANSI.sub('', l) for l in (user or []) if l.strip()]
    if len(rows) != len(m.defs):
        raise Violation('%s: help lists %d definitions, there are %d: %s' % (why, len(rows), len(m.defs), rows))
    for row, (name, (params, body)) in zip(rows, m.defs.items()):
        if ' = ' not in row:
            raise Violation('%s: row %r' % (why, row))
        left, right = row.split(' = ', 1)
        lt = '%s(%s)' % (name, ', '.join(params)) if params else name
        if left.replace(' ', '') not in (lt.replace(' ', ''), lt.replace(' ', '') + '()'):
            raise Violation('%s: help shows %r instead of %s' % (why, left, lt))
        if re.search(r'\de[+-]', right) or any(n[0] == 'c' and not abs(n[1]) < 1e300 for n in ref.walk(body)):
            continue
        try:
            t = ref.parse_text(right.strip(' '))
        except ref.Reject as e:
            raise Violation('%s: right side %r of %s is not an expression' % (why, right, lt))
        if m.rules:
            extra = [v for v in ref.variables(t) if v not in params]
            if extra:
                raise Violation('%s: right side %r of %s contains %s' % (why, right, lt, extra))
            _, d = calc.compare(body, t, sorted(set(ref.variables(body)) | set(ref.variables(t))), 5, npoints=3, lo=1.2)
            if d:
                raise Violation('%s: right side %r of %s is not equivalent to %s: %s' % (why, right, lt, ref.show(body), d))
        elif not model.similar(t, model.norm(body)):
            raise Violation('%s: right side of %s is shown as %r, but is %s' % (why, lt, right, ref.show(body)))


def check_operators(out, why):
    secs, cur = {}, None
    for l in out.split('\n'):
        h = re.match('^([A-Z][a-z]+ ?(?:operators)?):$', l)
        if h:
            cur = h.group(1)
            secs[cur] = []
        elif cur and l.strip():
            secs[cur].append(l)
    for place, head in (('infix', 'Infix operators'), ('prefix', 'Prefix operators'), ('postfix', 'Postfix operators'), ('function', 'Functions'), ('constant', 'Constants')):
        ops = {o.name: o for o in ref.ARITH if (o.place == place and not (place == 'function' and o.arity == 0)) or (place == 'constant' and o.place == 'function' and o.arity == 0)}
        rows = secs.get(head, [])[1:]
        names = [r.split()[0] for r in rows]
        if sorted(names) != sorted(ops):
            raise Violation('%s: %s lists %s' % (why, head, names))
        for r in rows:
            w = r.split()
            o = ops[w[0]]
            if place == 'infix':
                want, n = [str(o.prec), 'Left' if o.assoc == 'left' else 'Right'], 2
            elif place in ('prefix', 'postfix'):
                want, n = [str(o.prec)], 1
            elif place == 'function':
                want, n = ['*' if o.arity == ref.DYN else str(o.arity)], 1
            else:
                want = [ref.fmt(ref.CONSTS[o.name])] if o.name in ref.CONSTS else []
                n = len(want)
                # ans: the last result, if there is one
                if o.name == 'ans' and re.match(r'^ ans +-?[0-9in]', r) and not w[1].startswith('Last'):
                    want, n = [w[1]], 1
            if w[1:1 + n] != want:
                raise Violation('%s: help operators says %r, but %s applies' % (why, r, want))
            d = DESC2.get((o.name, o.place)) or DESC[o.name]
            text = ' '.join(w[1 + n:]).lower()
            if not text.startswith(d):
                raise Violation('%s: %s %s is described as %r' % (why, place, o.name, text))


def generate(src, rules):
    base = c10.generate(src, rules)['lines']
    out = []
    for l in base:
        out.append(l)
        if src.flip(1, 3):
            out.append('help operators' if src.flip(1, 6) else 'help')
    out.append('help')
    if src.flip(1, 5):
        out.append('help operators')
    return {'lines': out}


def check(case, ctx, rules):
    m = Model(rules=rules)
    got = gen.session(ctx, ['L' + l for l in case['lines']], warm=gen.rules_cmd() if rules else None)
    changed = strong = False
    for l, (ok, out, err) in zip(case['lines'], got):
        if l.startswith('help'):
            why = 'after %s' % [x for x in case['lines'] if not x.startswith('help')][:60]
            if not ok or err:
                raise Violation('%s fails: %r' % (l, err))
            if l == 'help':
                check_help(out, m, why)
                strong |= len(m.defs) >= 2 and changed
                ctx.label('%d definitions' % min(len(m.defs), 6))
            else:
                check_operators(out, why)
                if m.hist:
                    row = [r for r in out.split('\n') if r.startswith(' ans ')][0].split()
                    if not model.number_text_ok(row[1], m.hist[-1], False):
                        raise Violation('%s: value of ans is shown as %r, but is %s' % (why, row[1], ref.fmt(m.hist[-1])))
                elif not re.match('^ ans +Last', [r for r in out.split('\n') if r.startswith(' ans ')][0]):
                    raise Violation('%s: ans has a value: %r' % (why, out))
                ctx.label('operators')
            continue
        before = dict(m.defs)
        try:
            want = m.line(l)
        except ref.Unspecified:
            raise Discard()
        if want.ok != ok:
            raise Discard()      # reported by C10
        changed |= not want.ok or len(m.defs) < len(before) or (len(m.defs) > len(before) and any(n in l for n in before))
    if not strong:
        ctx.trivial()


def gen_many(src):
    lines = c10.gen_many(src)['lines'] + ['help']
    if src.flip():
        lines.insert(src.int(len(lines) // 2, len(lines)), 'help')
    return {'lines': lines}


SUBS = [Sub('many', gen_many, lambda c, x: check(c, x, False), quick=160, thorough=4000, need=['session']),
        Sub('plain', lambda s: generate(s, False), lambda c, x: check(c, x, False), quick=9000, need=['session']),
        Sub('rules', lambda s: generate(s, True), lambda c, x: check(c, x, True), quick=1500, thorough=15000, need=['session'])]
