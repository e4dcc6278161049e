"""No input crashes, corrupts memory or hangs the calculator."""
import os, re, subprocess, time
import pbt, gen, ref, build
from model import Model
import c03, c09, c10, c11, c12, c22
from pbt import Sub, Discard, Violation

RULE = ("non-trivial: the session has at least two lines, one of which is a definition, table, removal, load, malformed or mutated "
        "line (sessions), or contains at least one byte that is no letter, digit or blank (bytes); operators applied to extreme operands and deep nests of at least ten levels (operands, deep)")

ASSUMPTIONS = ['tables whose number of rows is not evidently small, and expressions nested deeper than 1500 operators are excluded',
               'a line that needs more than 20 s of CPU time under AddressSanitizer counts as hanging']
CAP = {'quick': 400, 'thorough': 800}
DRV = dict(cpu_ms=20000)

DICT = ['table ', ' fold ', ';', 'load ', 'load simplification ', 'clear ', 'clear', 'help', 'license', 'help operators', '=', 'f(x)', "'", '@',
        'ans', 'deriv(', '(', ')', '{', '}', ',', '1', 'x', 'sin', '^', '*', '+', '-', '!', '%', 'C', 'mod', '.', '#', 'f', 'x=1', '0', ' ', '\t', '\r',
        '\x80', '\xff', '\xc3\xa4', '~', '|', '[', ']', '[x]', '\x7f', '"', '\x1b[1;31m', '\x01', 'e', 'inf', 'nan', '1e5', '$', '%s%n', '99999999999999999999',
        '0x1F', '1.5.2', 'quit ', 'sum(', 'rand', 'log', '_']


def allowed(l):
    """Only tables with plain, near bounds: others may legitimately run for long. No access to other files."""
    if '@DIR@' not in l and '@RULES@' not in l and l.startswith('load'):
        if not (l.strip() in ('load', 'load simplification') or l.startswith(('load /nonexistent-dir', 'load simplification /nonexistent-dir'))):
            return False
    if not l.startswith('table '):
        return True
    p = l.split(';')
    if len(p) < 4:
        return True
    v = []
    for i in range(3):
        q = p[i + 1].strip(' ')
        if i == 2:
            q = q.split(' fold ')[0].strip(' ')
        if not re.fullmatch(r'-?[0-9.]{1,4}', q):
            return False
        try:
            v.append(float(q))
        except ValueError:
            return True
    return v[2] == 0 or abs(v[1] - v[0]) / abs(v[2]) < 60


def mutate(s, t, pool):
    t = list(t)
    for _ in range(s.choice([1, 1, 2, 4, 8])):
        k = s.raw(8)
        i = s.raw(len(t) + 1)
        if k <= 1:
            t[i:i + s.choice([1, 1, 2, 5])] = []
        elif k <= 4:
            t[i:i] = list(s.choice(DICT))
        elif k == 5:
            j = s.raw(len(t) + 1)
            t[i:i] = t[j:j + s.choice([1, 3, 10])]
        elif k == 6 and pool:
            o = s.choice(pool)
            j = s.raw(len(o) + 1)
            t = t[:i] + list(o[j:])
        else:
            t[i:i + 1] = [chr(s.int(1, 255))]
    return ''.join(t).replace('\n', '').replace('\0', '')[:400]


def rich(s, m, rules):
    """line of any kind"""
    k = s.raw(16)
    if k <= 2:
        return c10.definition(s, m)
    if k == 3 and m.defs:
        return c10.use(s, m)
    if k == 4:
        return c09.line(s, m, rules)
    if k <= 6:
        return c11.failing(s, m)
    if k == 7:
        return c12.malformed(s) if s.flip() else c12.command(s)
    if k == 8:
        return c03.one_line(s)
    if k == 9:
        return s.choice(['help', 'help operators', 'license', 'clear', 'load simplification @RULES@', 'load @DIR@/cmds',
                         'load simplification @DIR@/good', 'load @DIR@/few'])
    if k == 10:
        return gen.expr_text(s, m.opset(), budget=s.choice([4, 8, 16] if not rules else [2, 4, 6]))
    if k == 11:  # user functions within derivatives, tables, as names of parameters
        n = s.choice(list(m.defs)) if m.defs else 'sin'
        return s.choice(["deriv(%s(x),x)", "%s(x)'", "table %s(x);1;3;1", "table %s;1;3;1 fold %s+x;0", "%s'", "clear %s", "%s = 1", "%s(x) = x",
                         "q_(%s) = %s", "q_(x) = %s(x)", "q_ = %s", "load %s", "@%s", "%s%s", "2%s3", "%s(", "deriv(x, %s)"]).replace('%s', n)
    if k == 12:
        n = s.choice([10, 33, 100, 255, 257, 1000])
        return s.choice([lambda: 'sum(%s)' % ','.join(['1'] * n), lambda: 'v' * n, lambda: 'v' * n + '=2', lambda: '%s=1' % ('v' * n),
                         lambda: 'f%s(x)=x' % ('v' * n), lambda: '1' * n, lambda: '+'.join(['%dx' % i for i in range(min(n, 100))]),
                         lambda: 'f(%s)=1' % ','.join('v%s' % ('abcdefghij'[i % 10] * (i // 10 + 1)) for i in range(min(n, 60))), lambda: ' ' * n + '1',
                         lambda: '(' * n, lambda: 'sin(' * min(n, 100), lambda: "1+" * n + '1', lambda: 'table x;1;2;1' + ';' * n,
                         lambda: 'clear ' + 'v' * n, lambda: 'load /nonexistent-dir/' + 'v' * n, lambda: '&' * n, lambda: '0.' + '3' * n,
                         lambda: '*'.join('xyzuvw'[i % 6] for i in range(6)), lambda: '+'.join('(%s)' % ('abcdefghijklmno'[i % 15]) for i in range(min(n, 33)))])()
    if k == 13 and rules:
        g = gen.TextGen(s, ref.ARITH_SET, vars_=['x', 'y'], funcs=['sin', 'cos', 'exp', 'ln', 'sqrt', 'tan', 'abs', 'pi', 'e', 'root', 'log'],
                        prefix=['-', '+'], postfix=["'"] if s.flip(1, 4) else [], budget=s.choice([3, 5, 7]), glue=False)
        g.infix = ['+', '-', '*', '/', '^']
        t = gen.join(s, g.expr(), ref.ARITH_SET.keywords)
        return "deriv(%s, x)" % t if s.flip(1, 3) else t
    return mutate(s, rich(s, m, rules) if s.flip() else c10.definition(s, m), None)


def step(m, l):
    """model of the line; Unspecified if it may grow without bound"""
    if l.startswith(('load', 'help', 'license', '#')) or l == '':
        return True
    if not allowed(l):
        return False
    if m.rules and len(l) > 30:  # simplification of large expressions takes long
        for part in re.split('[;=]| fold ', l):
            try:
                if ref.size(m.expand(m.parse(part))) > 30:
                    return False
            except ref.Unspecified:
                return False
            except Exception:
                pass
    try:
        r = m.line(l)
    except ref.Unspecified:
        return False
    except RecursionError:
        return False
    return not (r.ok and r.kind == 'unknown' and r.value is not None and ref.size(r.value) > 25)


def gen_sessions(rules):
    def f(src):
        m = Model(rules=rules, maxsize=150 if not rules else 40, maxrows=100)
        out = []
        for _ in range(src.choice([1, 3, 6, 12, 25])):
            l = rich(src, m, rules)
            if src.flip(1, 5):
                l = mutate(src, l, out)
            if l == 'quit' or '\n' in l or (rules and l.startswith('load simplification @DIR@')):
                continue
            c = m.copy()
            if not step(c, l):
                continue
            if l.startswith('load simplification @RULES@') and not rules and src.flip(2, 3):
                continue
            if l.startswith('load simplification @RULES@'):
                c.rules = True
                c.maxsize = 40
                if any(ref.size(b) > 20 for _, b in c.defs.values()):
                    continue
            m = c
            out.append(l)
            if src.flip(1, 15):
                out.append(src.choice(['@i1', '@i0', '@Z']))
                if out[-1] == '@Z' and not rules:
                    m = Model(rules=False, maxsize=150, maxrows=100)
                elif out[-1] == '@Z':
                    out.pop()
        return {'lines': out}
    return f


PLAIN = re.compile(r'[A-Za-z0-9 ]*')


def check_sessions(rules):
    def f(case, ctx):
        c22.prepare(ctx)
        ops = c22.ops_of(case['lines'], ctx)
        kw = dict(warm=gen.rules_cmd()) if rules else {}
        r = ctx.driver('session', **DRV, **kw).run(['session'] + ops)
        gen.need_ok(r, 'session %r' % (case['lines'],))
        fl = r.fields[:-1]
        inter = False
        special = 0
        for i, o in enumerate(ops):
            ok, out, err = (gen.text(x) for x in fl[3 * i:3 * i + 3])
            if o in ('i1', 'i0', 'Z'):
                inter = o == 'i1' if o != 'Z' else False
                continue
            l = o[1:]
            if ok == '0' and err.strip() == '':
                raise Violation('line %r fails without an error message' % l)
            ctx.label('succeeds' if ok == '1' else 'fails')
            if 'oftware defect' in err:
                raise Violation('line %r: %r' % (l, err))
            special += ok == '0' or '=' in l or l.startswith(('table', 'clear', 'load')) or not PLAIN.fullmatch(l)
        if len(ops) < 2 or not special:
            ctx.trivial()
    return f


# ---------------------------------------------------------------- arbitrary bytes
def gen_bytes(src):
    n = src.choice([3, 8, 20, 60])
    out = []
    mode = src.raw(4)
    for _ in range(n):
        k = src.raw(10)
        if mode == 3 and k <= 6:
            out.append(chr(src.int(0, 255)))
        elif k <= 5:
            out.append(src.choice(DICT))
        elif k == 6:
            out.append('\n')
        elif k == 7:
            out.append(str(src.int(0, 12)))
        elif k == 8:
            out.append(src.choice(['\0', '\n\n', '\r\n', '\n#', '\n \n', '', '\x0b', '\x0c']))
        else:
            out.append(chr(src.int(32, 126)))
    t = ''.join(out)
    lines = t.split('\n')
    keep = []
    for l in lines:
        z = l.split('\0')[0]
        if z == 'quit' or not allowed(z) or l.startswith('load'):
            continue
        keep.append(l)
    return {'bytes': '\n'.join(keep), 'interactive': src.flip(1, 4), 'rules': False}


def check_bytes(case, ctx):
    r = ctx.driver('session', **DRV).run(['session', 'i%d' % case['interactive'], 'R' + case['bytes'], 'Z'])
    gen.need_ok(r, 'input %r' % case['bytes'])
    if 'oftware defect' in gen.text(r.fields[5]):
        raise Violation('input %r: %r' % (case['bytes'], gen.text(r.fields[5])))
    if gen.text(r.fields[6]) != '0':
        raise Violation('%s bytes are still allocated after input %r' % (gen.text(r.fields[6]), case['bytes']))
    if PLAIN.fullmatch(case['bytes']) or '\n' not in case['bytes']:
        ctx.trivial()


# ---------------------------------------------------------------- long and nested input
SHAPES = {
    'minus': lambda n: '-' * n + '1',
    'minus-x': lambda n: '-' * n + 'x',
    'parens': lambda n: '(' * n + '1' + ')' * n,
    'sin': lambda n: 'sin(' * n + '1' + ')' * n,
    'sin-x': lambda n: 'sin(' * n + 'x' + ')' * n,
    'power': lambda n: '1^' * n + '1',
    'sum': lambda n: '1+' * n + '1',
    'sum-x': lambda n: 'x' + '+x' * n,
    'glue': lambda n: 'x ' * n,
    'factorial': lambda n: '1' + '!' * n,
    'percent-x': lambda n: 'x' + '%' * n,
    'args': lambda n: 'sum(1' + ',1' * n + ')',
    'args-x': lambda n: 'sum(x' + ',x' * n + ')',
    'open': lambda n: '(' * n,
    'open-sum': lambda n: 'sum(1,' * n,
    'close': lambda n: '1' + ')' * n,
    'name': lambda n: 'v' * n,
    'digits': lambda n: '7' * n,
    'invalid': lambda n: '1 ' * n + '&',
    'define': lambda n: 'f(x) = ' + '-' * n + 'x',
    'define-name': lambda n: 'f' * n + '(x) = x',
    'params': lambda n: 'f(%s) = 1' % ','.join('p' + 'abcdefghij'[i % 10] * (1 + i // 10) for i in range(min(n, 150))),
    'table': lambda n: 'table %s;1;3;1' % ('x' + '+x' * n),
    'fold': lambda n: 'table x;1;3;1 fold %s;1' % ('x' + '+y' * n),
    'semicolons': lambda n: 'table ' + ';' * n,
    'blank': lambda n: ' ' * n + '1',
    'comment': lambda n: '#' * n,
    'clear': lambda n: 'clear ' + 'v' * n,
    'mixed': lambda n: '(-2^' * n + 'x' + ')!' * n,
}


def gen_deep(src):
    return {'shape': src.choice(sorted(SHAPES)), 'n': src.choice([1, 10, 64, 200, 500, 1000, 1500]) + src.int(-1, 1) if src.flip() else src.int(1, 1500), 'interactive': src.flip(1, 4)}


def check_deep(case, ctx):
    l = SHAPES[case['shape']](case['n'])
    r = ctx.driver('session', cpu_ms=60000).run(['session', 'i%d' % case['interactive'], 'L' + l, 'L1+1', 'Z'])
    gen.need_ok(r, 'line of shape %s (%d)' % (case['shape'], case['n']))
    f = [gen.text(x) for x in r.fields]
    if f[6] != '1' or f[7].strip('\n= ') != '2' or f[8] != '':
        raise Violation('1+1 gives %r after line of shape %s (%d)' % (f[6:9], case['shape'], case['n']))
    if f[3] == '0' and f[5] == '':
        raise Violation('line of shape %s (%d) fails without an error message' % (case['shape'], case['n']))
    if f[9] != '0':
        raise Violation('%s bytes are still allocated after line of shape %s (%d)' % (f[9], case['shape'], case['n']))
    ctx.label(case['shape'])
    if case['n'] < 10:
        ctx.trivial()


# ---------------------------------------------------------------- extreme operands
EXTREME = ['10^400', '(0-10^400)', '(0 mod 0)', '10^308', '10^(0-320)', '0', '(-0)', '1', '(-1)', '2', '(2^31)', '(2^31-1)', '(2^32)', '(2^53)', '(2^63)', '(2^64)',
           '(-(2^63))', '10^17', '10^19', '0.5', '(-0.5)', '170', '171', '1476', '1477', '(-1477)', '2000000', '(1/3)', '100', 'x', '(-x)', '10^9', '3', '7.5', '(10^15+1)']


def gen_operands(src):
    out = []
    for _ in range(src.int(1, 6)):
        a = lambda: src.choice(EXTREME)
        k = src.raw(12)
        if k <= 2:
            l = '%s %s %s' % (a(), src.choice(['mod', 'C', '^', '/', '*', '-', '+', 'mod', 'C']), a())
        elif k == 3:
            l = src.choice(['(%s)!', '(%s)%%', '@%s', '-%s', "(%s)'", '$ %s']) % a()
        elif k == 4:
            l = 'table %s;%s;%s;%s%s' % (a(), src.choice(['1', '(0 mod 0)', '-2', 'x']), src.choice(['3', '(0 mod 0)', '1', '-4']),
                                         src.choice(['1', '10^400', '-(10^400)', '10^308', '(0 mod 0)', '0', '2^63']), src.choice(['', ' fold x+y;' + a(), ' fold %s;%s' % (a(), a())]))
        elif k == 5:
            l = 'k_%s = %s' % (chr(97 + src.raw(26)), a())
        else:
            n, ar = src.choice(sorted(ref.FUNCS.items()))
            l = '%s(%s)' % (n, ', '.join(a() for _ in range(ar if ar != ref.DYN else src.choice([2, 1, 0, 3]))))
        out.append(l)
    return {'lines': out, 'rules': src.flip(1, 4)}


def check_operands(case, ctx):
    r = ctx.driver('session', **(dict(warm=gen.rules_cmd()) if case['rules'] else {})).run(['session'] + ['L' + l for l in case['lines']] + ['L1+1', 'Z'])
    gen.need_ok(r, 'session %r' % (case['lines'],))
    f = [gen.text(x) for x in r.fields]
    for i, l in enumerate(case['lines']):
        if f[3 * i] == '0' and f[3 * i + 2] == '':
            raise Violation('%r fails without an error message' % l)
        ctx.label('value' if f[3 * i] == '1' else 'error')
    i = 3 * len(case['lines'])
    if f[i] != '1' or f[i + 1].strip() != '2' or f[i + 2] != '':
        raise Violation('1+1 gives %r after %r' % (f[i:i + 3], case['lines']))


# ---------------------------------------------------------------- rulesets of one's own
def rule_side(s, n, names, special, lists=True, inside=True):
    """lists: list variables may occur anywhere"""
    k = s.raw(14)
    if n <= 0 or k <= 1:
        ns = [v for v in names if lists or inside or v[0] != '[']
        return s.choice(ns) if ns and s.flip(4, 5) else s.choice(['0', '1', '2', 'e', 'pi', '5', '0.5'] + (['TRUE', 'CONST'] if special else []))
    sub = lambda m, ins=False: rule_side(s, m, names, special, lists, ins)
    if k <= 5:
        return '(%s)%s(%s)' % (sub((n - 1) // 2), s.choice(['+', '*', '-', '/', '^', '+', '*', ' mod ', ' C '] + (['==', '<', '||'] if special else [])), sub((n - 1) // 2))
    if k <= 7:
        return '-(%s)' % sub(n - 1)
    if k <= 10:
        return '%s(%s)' % (s.choice(['sum', 'prod', 'max', 'sum', 'prod'] + (['count'] if special else [])), ','.join(sub(n // 2, True) for _ in range(s.choice([2, 1, 3, 0]))))
    if k == 11:
        return '%s(%s)' % (s.choice(['sin', 'ln', 'sqrt', 'abs'] + (['type'] if special else [])), sub(n - 1))
    if k == 12:
        return 'deriv(%s,%s)' % (sub(n // 2), s.choice([v for v in names if lists or v[0] != '['] or ['1']))
    return '(%s)%s' % (sub(n - 1), s.choice(["'", '%', '%'] + ([] if special else ['!'])))


def own_rule(s):
    names = ['x', 'y', 'x', 'z', 'cx', '[xs]', '[ys]', '[xs]']
    special = s.flip(1, 8)
    misuse = s.flip(1, 40)
    l = rule_side(s, s.choice([2, 3, 4, 6, 1]), names, special, s.flip(1, 8), False)
    have = [v for v in ('x', 'y', 'z', 'cx', '[xs]', '[ys]') if re.search(r'(?<![a-z])' + re.escape(v) + r'(?![a-z(])', l)]
    if misuse and s.flip():
        have.append(s.choice(['q', '[qs]']))
    r = rule_side(s, s.choice([0, 1, 2, 0, 3]), have or ['1'], special, misuse, False)
    # most rules make expressions smaller, so that there is an end
    measure = lambda t: len(re.findall(r'[a-zA-Z]+\(|[-+*/^%\'!,C=<|]|mod', t)) * 2 + len(re.findall(r'[a-z0-9.]+', t))
    occurs = lambda v, t: len(re.findall(r'(?<![a-z])' + re.escape(v) + r'(?![a-z(])', t))
    if not s.flip(1, 40) and (measure(r) >= measure(l) or any(occurs(v, r) > occurs(v, l) for v in have) or not re.search(r'[-(+*/^%!]', l)):
        if not re.search(r'[-(+*/^%!]', l):
            l, have = '0*' + l, have
        r = s.choice([v for v in have if v[0] != '['] or ['1'])
    cs = []
    for _ in range(s.choice([0, 0, 1, 2])):
        v = lambda: s.choice([v for v in have if v[0] != '[' or misuse] or ['1'])
        w = lambda: s.choice(have or ['1'])
        cs.append(s.choice([lambda: 'type(%s) %s %s' % (v(), s.choice(['==', '!=']), s.choice(['CONST', 'VAR', 'OP'])), lambda: 'equal(%s,%s)' % (v(), v()),
                            lambda: '!equal(%s,-%s)' % (v(), v()), lambda: 'count(%s) %s %d' % (w(), s.choice(['==', '>']), s.raw(3)), lambda: '(%s mod 2) == 0' % v(),
                            lambda: s.choice(['TRUE', 'FALSE', '1/0', 'TRUE || FALSE', '!FALSE', '@0', 'ans', 'CONST']), lambda: 'sum(%s,%s) > 1' % (v(), w()),
                            lambda: 'type(%s)' % v(), lambda: "%s' == 0" % v(), lambda: v()])())
    return l + ' -> ' + r + (' WHERE ' + ' ; '.join(cs) if cs else '')


def gen_rulesets(src):
    sets = [[own_rule(src) for _ in range(src.choice([0, 1, 2, 4]))] for _ in range(7)]
    exprs = []
    for _ in range(src.int(1, 5)):
        exprs.append(rule_side(src, src.choice([2, 4, 7, 10]), ['x', 'y', 'a', '1', '2'], False))
    return {'sets': sets, 'lines': exprs}


def check_rulesets(case, ctx):
    os.makedirs(ctx.scratch, exist_ok=True)
    p = os.path.join(ctx.scratch, 'own')
    with open(p, 'w') as f:
        for rs in case['sets']:
            f.write('RULESET\n' + ''.join('    %s\n' % r for r in rs))
    ops = ['Lload simplification ' + p] + ['L' + l for l in case['lines']] + ['L1+1', 'Z']
    r = ctx.driver('session', cpu_ms=600).run(['session'] + ops)
    if r.status == 'T':
        raise Discard()  # such rules may never come to an end
    what = 'with the rules %r the session %r' % (case['sets'], case['lines'])
    gen.need_ok(r, what)
    f = [gen.text(x) for x in r.fields]
    for i, o in enumerate(ops[:-1]):
        if 'oftware defect' in f[3 * i + 2]:
            raise Violation('%s reports %r' % (what, f[3 * i + 2]))
        if f[3 * i] == '0' and f[3 * i + 2] == '':
            raise Violation('%s: %r fails without an error message' % (what, o))
    ctx.label('rules accepted' if f[0] == '1' else 'rules refused')
    if f[0] != '1' or not any(case['sets']):
        ctx.trivial()


SCALE = (1, 1)
SUBS = [Sub('operands', gen_operands, check_operands, quick=8000, need=['session']),
        Sub('deep', gen_deep, check_deep, quick=600, thorough=6000, need=['session']),
        Sub('rulesets', gen_rulesets, check_rulesets, quick=3000, need=['session']),
        Sub('bytes', gen_bytes, check_bytes, quick=12000, need=['session']),
        Sub('sessions', gen_sessions(False), check_sessions(False), quick=7000, need=['session']),
        Sub('simplifying', gen_sessions(True), check_sessions(True), quick=2500, thorough=25000, need=['session', 'fuzzline'])]


# ---------------------------------------------------------------- coverage-guided
SEEDS = ['1+2*3', 'f(x)=x^2\nf(3)+ans\nclear f\nf(3)', 'table x^2;1;5;1 fold x+y;0', 'table 1/x;-1;1;0.5', "(x^3)'", 'deriv(sin(x)*y,x)', 'help\nhelp operators',
         'sum(1,2,3)\n@0+@1', 'a=5\nb=a+1\nhelp\nclear\na', 'i1\n1+\n2 3 C 1/0\nf(x)=y', '{1,2}', '#c\n\nlicense', 'max(1, -2!, 50%)', 'load /nonexistent-dir/x',
         'x+x*2-(y-x)', 'sin(x)^2+cos(x)^2', 'C(1)=2', 'k(x,y)=x mod y C 2\nk(7,4)']


def extra(tier, seed, base, deadline):
    t0 = time.time()
    exe = build.driver('fuzzline')
    total = min(30 if tier == 'quick' else 300, max(5, deadline - time.time() - 30))
    procs = []
    for i in range(8):
        d = os.path.join(base, 'fz%d' % i)
        os.makedirs(d + '/corpus')
        for k, s in enumerate(SEEDS):
            open('%s/corpus/s%d' % (d, k), 'w').write(s)
        with open(d + '/dict', 'w') as f:
            for k in DICT:
                f.write('"%s"\n' % ''.join('\\x%02x' % ord(c) for c in k))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=1500:exitcode=86',
                   UBSAN_OPTIONS='halt_on_error=1:exitcode=86')
        if i >= 5:
            env['CCALC_RULES'] = build.REPO + '/simplification.ruleset'
        cmd = [exe, d + '/corpus', '-seed=%d' % (seed * 100 + i + 1), '-max_total_time=%d' % total, '-timeout=60', '-rss_limit_mb=2500', '-max_len=%d' % (400 if i < 5 else 60),
               '-dict=' + d + '/dict', '-artifact_prefix=' + d + '/', '-print_final_stats=1', '-close_fd_mask=1', '-detect_leaks=0', '-reload=0']
        procs.append((d, i, subprocess.Popen(cmd, env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=open(d + '/log', 'wb'))))
    n = cov = corpus = 0
    viol, samples = [], []
    ctx = pbt.Ctx(os.path.join(base, 'fzc'))
    for d, i, p in procs:
        try:
            p.wait(total + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log = open(d + '/log', 'rb').read().decode('latin-1')
        m = re.findall(r'stat::number_of_executed_units: (\d+)', log)
        n += int(m[-1]) if m else 0
        c = re.findall(r'cov: (\d+)', log)
        cov = max([cov] + [int(x) for x in c[-1:]])
        fs = sorted(os.listdir(d + '/corpus'))
        corpus += len(fs)
        for f in fs[-1:]:
            samples.append(open(os.path.join(d, 'corpus', f), 'rb').read(300).decode('latin-1'))
        for f in sorted(os.listdir(d)):
            if f.startswith(('crash-', 'timeout-', 'oom-')):
                b = open(os.path.join(d, f), 'rb').read().decode('latin-1')
                case = confirm(ctx, b, i >= 5)
                if case is not None:
                    viol.append(case)
    ctx.close()
    return dict(name='coverage-guided', evaluations=n, distinct=corpus, wall=time.time() - t0, violations=viol[:1], samples=samples[:3],
                labels={'edges covered': cov, 'inputs that reached new coverage': corpus})


def gen_none(src):
    return {'lines': [], 'rules': False}


def check_fuzz(case, ctx):
    """same interpretation of the input as harness/fuzzline.c, in a fresh process"""
    ops = []
    for l in case['lines']:
        ops.append('i1' if l == 'i1' else 'E' + l)
    kw = dict(warm=gen.rules_cmd()) if case['rules'] else {}
    r = ctx.driver('session', **DRV, **kw).run(['session'] + ops)
    gen.need_ok(r, 'session %r' % (case['lines'],))


def confirm(ctx, b, rules):
    """reproduce in the session driver and minimise by lines and characters"""
    lines = [l.split('\0')[0] for l in b.split('\n')]
    lines = [l for l in lines if l and not l.startswith('#') and l != 'quit' and (allowed(l) or not l.startswith('table '))]
    lines = [l for l in lines if allowed(l)]
    sub = SUBS[-1]

    def bad(ls):
        o, m = pbt.run_one(sub, {'lines': ls, 'rules': rules}, ctx)
        return m if o == 'violation' else None
    msg = bad(lines)
    if not msg or not bad(lines) or not bad(lines):
        return None
    end = time.time() + 40
    i = 0
    while i < len(lines) and time.time() < end:
        c = lines[:i] + lines[i + 1:]
        if bad(c):
            lines = c
        else:
            i += 1
    for i in range(len(lines)):
        j = 0
        while j < len(lines[i]) and time.time() < end:
            c = lines[:i] + [lines[i][:j] + lines[i][j + 1:]] + lines[i + 1:]
            if c[i] and allowed(c[i]) and c[i] != 'quit' and bad(c):
                lines = c
            else:
                j += 1
    return ('fuzz', {'lines': lines, 'rules': rules}, bad(lines) or msg)


SUBS.append(Sub('fuzz', gen_none, check_fuzz, quick=1, thorough=1, need=['session']))
