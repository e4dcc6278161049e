"""Rewrite rules and ruleset files are read and applied as written."""
import os
import pbt, gen, ref, rewrite
import c18
from pbt import Sub, Discard, Violation

RULE = "non-trivial: a file with at least two rulesets, a comment and a constraint, or a malformed line; a rule whose right side uses a variable and that was applied, or a set of at least two rules applied at least twice"


# ---------------------------------------------------------------- rules
def right_side(s, p, env_lists):
    """right side over the variables of the pattern; lists only as operands of functions of dynamic arity"""
    vs = ref.variables(p)
    plain = [v for v in vs if not rewrite.is_list(v)]
    lists = [v for v in vs if rewrite.is_list(v)]

    def go(n):
        k = s.raw(7)
        if n <= 0 or k <= 1:
            if plain and s.flip(4, 5):
                return ['v', s.choice(plain)]
            return ['c', float(s.int(0, 3))]
        if k <= 4 or (lists and k == 5):
            kids = []
            for _ in range(s.choice([1, 2, 0, 3])):
                if lists and s.flip(3, 5):
                    kids.append(['v', s.choice(lists)])
                else:
                    kids.append(go(n - 2))
            return ['o', 'function', s.choice(['sum', 'prod', 'max']), kids]
        if k == 5:
            return ['o', 'prefix', '-', [go(n - 1)]]
        return ['o', 'infix', s.choice(['+', '*', '-', '^']), [go(n - 2), go(n - 2)]]
    return go(s.choice([1, 3, 5]))


def rule(s):
    p, cs, t = c18.pair(s)
    return p, cs[:3], right_side(s, p, None), t


def rule_ok(p, cs, after):
    try:
        c18.usable(p, after)
    except Discard:
        return False
    return p[0] == 'o'


def rule_text(s, p, cs, after):
    sp = lambda: s.choice(['', ' ', '  '])
    return rewrite.text(p) + sp() + '->' + sp() + rewrite.text(after) + (' WHERE ' + ' ; '.join(rewrite.text(c) for c in cs) if cs else sp())


# ---------------------------------------------------------------- files
BAD = ['x+', '-> 1', 'x', 'x -> ', 'x + y = 2', 'sin(x,y) -> x', '(x -> 1', 'x -> y', 'x+y -> x+z', 'x -> 1 WHERE ', 'x -> 1 WHERE type(', 'x -> 1 WHERE type(x) == CONST ; ',
       'a+b+c+d -> a WHERE type(a) == VAR ; type(b) == VAR ; type(c) == VAR ; type(d) == VAR', 'sum(a,b,c,d,f,g,h,i,j,k,l) -> a', 'x -> sum([xs])', 'x => y', 'foo(x) -> ',
       'x+y -> x WHERE type(z) == CONST', 'sin(x) -> x WHERE equal(y,-x)', 'sum([xs],x) -> x WHERE count([ys]) == 0', 'x*0 -> 0 WHERE TRUE ; y > 0',
       'sum([xs]) -> [xs]', 'sum(x,[xs]) -> sin([xs])', 'sum(x,[xs]) -> x+[xs]', 'sum([xs],x) -> x WHERE type([xs]) == OP', 'prod([xs],x) -> sum(x,-[xs])',
       'sum([xs],x) -> x WHERE equal(x,[xs])', 'sum([xs]) -> 0 WHERE [xs]', 'max(x,[xs]) -> max(x,min([xs])^[xs])']
COMMENTS = ['#', '# comment', '# RULESET', '# x -> 1', '#x->', '# y ## z', '#WHERE']


def indent(s):
    return ' ' * s.choice([0, 4, 1, 2, 0, 8, 9, 12, 17, 40])


def unbound(s):
    """right side or constraint with a variable (any of them) that is not on the left side"""
    vs = s.perm(['x', 'y', 'z', 'u', 'v', 'w'])
    k = s.int(1, 4)
    right = vs[:k] + [vs[k]]
    if s.flip():
        i = s.raw(len(right))
        right[i], right[-1] = right[-1], right[i]
    if s.flip(1, 3):
        return 'sum(%s) -> %s WHERE %s' % (', '.join(vs[:k]), vs[0], ' ; '.join(s.perm(['type(%s) != OP' % s.choice(vs[:k])] * s.raw(3) + ['sum(%s) > 0' % ','.join(right)])))
    return 'sum(%s) -> %s' % (', '.join(vs[:k]), s.choice([' + ', ' * ']).join(right))


def file_lines(s, bad):
    """-> [(kind, text, rule)]"""
    out = []
    for _ in range(s.choice([0, 0, 1, 2])):
        out.append(['skip', s.choice(['', '   ', '# Version: 1', '  # RULESET'])])
    if s.flip(1, 5):         # lines before the first header belong to no ruleset, whatever they are
        for _ in range(s.choice([1, 2])):
            out.insert(s.int(0, len(out)), ['stray', indent(s) + s.choice(['x -> 1', 'x + 0 -> x', 'x', 'sin(x) -> cos(x) WHERE type(x) == CONST', '-> x # 1', 'rules'] + BAD)])
    n = s.choice([2, 1, 3, 0, 5, 7])
    for _ in range(n):
        out.append(['head', indent(s) + 'RULESET' + s.choice(['', '', ' ', ' # first', '#x', ' Normal form', '1'])])
        for _ in range(s.choice([1, 2, 0, 4])):
            k = s.raw(8)
            if k <= 1:
                out.append(['skip', s.choice(['', '  ', '    '] + COMMENTS + [indent(s) + c for c in COMMENTS])])
            else:
                p, cs, after, _ = rule(s)
                if not rule_ok(p, cs, after):
                    continue
                out.append(['rule', indent(s) + rule_text(s, p, cs, after) + s.choice(['', '', '   ', ' # note', '# x -> y', ' ## RULESET']), [p, cs, after]])
    if bad and n:
        first = next(i for i, l in enumerate(out) if l[0] == 'head')
        for _ in range(s.choice([1, 1, 2])):
            i = s.int(first + 1, len(out))
            out.insert(i, ['bad', s.choice(['', '  ']) + (s.choice(BAD) if s.flip(3, 4) else unbound(s)) + s.choice(['', '', ' # why'])])
    return out


def gen_file(src):
    return {'lines': file_lines(src, src.flip(1, 3)), 'newline': src.flip(3, 4), 'buffer': src.choice([7, 10, 1, 2, 3, 0])}


def read(lines, buf):
    """reference reader -> (list of rulesets or None, number of the malformed line)"""
    sets = []
    for i, l in enumerate(lines):
        if l[0] == 'head':
            if len(sets) == buf:
                break
            sets.append([])
        elif l[0] == 'rule' and sets:
            sets[-1].append(l[2])
        elif l[0] == 'bad' and sets:
            return None, i + 1
    return sets, None


def content(case):
    s = '\n'.join(l[1] for l in case['lines'])
    return s + ('\n' if case['newline'] or not s.split('\n')[-1] else '')


def check_file(case, ctx):
    lines = case['lines']
    if not lines:
        raise Discard()
    want, bad = read(lines, case['buffer'])
    text = content(case)
    r = ctx.driver('engine').run(['ctx', 'prop', 'mark', 'rulesets', str(case['buffer']), text, 'balance'])
    gen.need_ok(r, 'file %r' % text)
    f = r.fields
    k, err = int(f[0]), gen.text(f[2])
    if want is None:
        if k != -1:
            raise Violation('malformed line %d is accepted (%d rulesets): %r' % (bad, k, text))
        if 'line %d:' % bad not in err:
            raise Violation('line %d is malformed, error is %r: %r' % (bad, err, text))
        i = 3
    else:
        if k != len(want):
            raise Violation('%d rulesets instead of %d are read (%s): %r' % (k, len(want), err, text))
        if bool(err) != any(l[0] == 'stray' for l in lines):
            raise Violation('messages are %r on file %r' % (err, text))
        i = 3
        for n, rs in enumerate(want):
            c = int(f[i])
            i += 1
            if c != len(rs):
                raise Violation('ruleset %d has %d rules instead of %d: %r' % (n + 1, c, len(rs), text))
            for p, cs, after in rs:
                gp, ga = gen.from_dump(f[i]), gen.from_dump(f[i + 1])
                nc = int(f[i + 2])
                gc = [gen.from_dump(x) for x in f[i + 3:i + 3 + nc]]
                i += 3 + nc
                what = 'rule %s -> %s WHERE %s' % (ref.show(p), ref.show(after), [ref.show(c) for c in cs])
                if not ref.same(gp, p) or not ref.same(ga, after):
                    raise Violation('%s is read as %s -> %s' % (what, ref.show(gp), ref.show(ga)))
                if sorted(map(ref.show, gc)) != sorted(map(ref.show, cs)):
                    raise Violation('%s is read with constraints %s' % (what, [ref.show(c) for c in gc]))
    if f[i] != b'0':
        raise Violation('%s bytes are lost reading %r' % (gen.text(f[i]), text))
    kinds = [l[0] for l in lines]
    if not ('bad' in kinds or (kinds.count('head') >= 2 and 'rule' in kinds and '#' in text and 'WHERE' in text)):
        ctx.trivial()
    ctx.label('malformed' if want is None else 'well-formed', *(['buffer full'] if kinds.count('head') > case['buffer'] else []), *(['lines before the first header'] if 'stray' in kinds else []))


# ---------------------------------------------------------------- loading in a session
def gen_load(src):
    lines = file_lines(src, src.flip(1, 3))
    heads = sum(1 for l in lines if l[0] == 'head')
    if src.flip(3, 4) and lines:
        lines += [['head', 'RULESET']] * max(0, src.choice([7, 7, 8, 6]) - heads)
        if src.flip(1, 4):
            lines.append(['bad', src.choice(BAD)])
    return {'lines': lines, 'newline': src.flip(3, 4)}


def check_load(case, ctx):
    want, bad = read(case['lines'], 7)
    path = os.path.join(ctx.scratch, 'rules')
    with open(path, 'w', encoding='latin-1') as f:
        f.write(content(case))
    probe = 'x+x+0'
    refused = want is None or len(want) < 7
    # generated rules need not terminate: an expression with operators is only evaluated if they are to be refused
    lines = gen.session(ctx, ['L' + probe, 'i1', 'Lload simplification ' + path, 'i0'] + (['L' + probe] if refused else []) + ['L1+2'])
    lines = [l for l in lines]
    if len(lines) == 4 + refused + 1:
        lines = [lines[0], lines[2]] + lines[4:]
    load = lines[1]
    ok, out, err = load
    text = content(case)
    if refused:
        if ok or not err:
            raise Violation('file with %s is accepted: %r' % ('malformed line %d' % bad if bad else 'too few rulesets', text))
        if bad and 'line %d:' % bad not in err:
            raise Violation('line %d is malformed, but error is %r: %r' % (bad, err, text))
        if lines[-2][1:] != lines[0][1:]:
            raise Violation('after the refused file %s gives %s instead of %s' % (probe, lines[-2][1:], lines[0][1:]))
        ctx.label('refused')
    else:
        n = sum(len(r) for r in want)
        if not ok or bool(err) != any(l[0] == 'stray' for l in case['lines']):
            raise Violation('well-formed file is refused (%r): %r' % (err, text))
        if '(%d rules)' % n not in out:
            raise Violation('%d rules are written, but reported are %r: %r' % (n, out, text))
        ctx.label('accepted')
    if lines[-1][1] != '3\n':
        raise Violation('1+2 gives %r' % (lines[-1],))
    if len(case['lines']) < 8:
        ctx.trivial()


# ---------------------------------------------------------------- application
def gen_apply(src):
    out = []
    for _ in range(src.int(1, 6)):
        p, cs, after, t = rule(src)
        if src.flip(1, 3):
            wrap = c18.tree(src, 4, [t, t] + c18.LEAVES)
            t = wrap
        out.append([p, cs, after, t])
    return {'rules': out}


def once(p, cs, after, t):
    """all results of one application at the first position, or None"""
    pos = rewrite.first_position(p, cs, t)
    if pos is None:
        return None
    out, seen = [], set()
    for env in pos[2]:
        r = rewrite.replace_at(t, pos[0], rewrite.subst(after, env)[0])
        k = ref.show(r)
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def valid_tree(t):
    for n in ref.walk(t):
        if n[0] == 'o' and n[1] == 'function' and n[2] in ('sin', 'log') and len(n[3]) != {'sin': 1, 'log': 2}[n[2]]:
            return False
    return True


def check_apply(case, ctx):
    f = ['ctx', 'prop', 'mark']
    todo = []
    k = 0
    for p, cs, after, t in case['rules']:
        if not rule_ok(p, cs, after):
            continue
        try:
            c18.usable(p, t)
            want = once(p, cs, after, t)
        except (Discard, rewrite.TooMany, ref.Unspecified):
            continue
        if want and max(ref.size(w) for w in want) > 300:
            continue
        text = rewrite.text(p) + ' -> ' + rewrite.text(after) + (' WHERE ' + ' ; '.join(rewrite.text(c) for c in cs) if cs else '')
        f += ['addrule', text, 'build', '0', gen.to_dump(t), 'applyrule', str(k), '0']
        k += 1
        todo.append((p, cs, after, t, want, text))
    if not todo:
        raise Discard()
    f += ['free', '0', 'freerules', 'balance']
    r = ctx.driver('engine').run(f)
    gen.need_ok(r, 'rules %s' % [(x[5], ref.show(x[3])) for x in todo])
    i = 0
    for p, cs, after, t, want, text in todo:
        what = 'rule %s on %s' % (text, ref.show(t))
        if r.fields[i] != b'1':
            raise Violation('rule %s is refused: %s' % (text, gen.text(r.fields[i + 2])))
        applied, got = r.fields[i + 3] == b'1', gen.from_dump(r.fields[i + 4])
        i += 5
        if applied != (want is not None):
            raise Violation('%s: applied %s' % (what, applied))
        if not any(ref.same(got, w) for w in (want or [t])):
            raise Violation('%s: result %s, expected %s' % (what, ref.show(got), ' or '.join(ref.show(w) for w in (want or [t])[:3])))
        ctx.item([text, ref.show(t)], bool(want) and bool(ref.variables(after)))
        ctx.label('applied' if want else 'not applicable')
    if r.fields[i] != b'0':
        raise Violation('%s bytes are lost applying %s' % (gen.text(r.fields[i]), [x[5] for x in todo]))


# ---------------------------------------------------------------- rulesets
SHRINK = ['x+0 -> x', '0+x -> x', 'x*1 -> x', '1*x -> x', 'x*0 -> 0', '0*x -> 0', '-(-x) -> x', 'x-y -> x+(-y)', 'sum() -> 0', 'prod() -> 1', 'sum(x) -> x', 'prod(x) -> x',
          'sum([a], sum([b]), [c]) -> sum([a],[b],[c])', 'prod([a], 1, [b]) -> prod([a],[b])', 'prod([a],0,[b]) -> 0', 'sum([a],x,[b],x,[c]) -> sum([a],2*x,[b],[c])',
          'x+y -> sum(x,y)', 'x*y -> prod(x,y)', 'max([a],x,[b],x,[c]) -> max([a],x,[b],[c])', 'max([a],x,y,[b]) -> max([a],y,[b]) WHERE type(x) == CONST ; type(y) == CONST ; x <= y',
          'max([a],x,y,[b]) -> max([a],y,x,[b]) WHERE type(x) == CONST ; type(y) == CONST ; x > y', 'x^1 -> x', 'x^0 -> 1', '(x^y)^z -> x^(y*z)', 'x -> 2 WHERE type(x) == CONST ; x > 2',
          'sum([a],x,y,[b]) -> sum([a],y,x,[b]) WHERE type(x) == OP ; type(y) == VAR', 'max(x) -> x', 'sin(0) -> 0', '+x -> x', 'sum([a],-x,[b],x,[c]) -> sum([a],[b],[c])', '!x -> x',
          'sum([a],x,[b],y,[c]) -> sum([a],0,[b],[c]) WHERE equal(x, -y) || equal(y, -x)']


def gen_sets(src):
    idx = src.list(1, 8, lambda s: s.raw(len(SHRINK)))
    leaves = [['v', 'x'], ['v', 'y'], ['c', 0.0], ['c', 1.0], ['c', 2.0], ['c', 3.0]]
    t = c18.tree(src, src.choice([3, 6, 10, 14]), leaves)
    return {'rules': [SHRINK[i] for i in idx], 'tree': t, 'cap': src.choice([-1, -1, 1, 2, 3])}


_parsed = {}


def parsed(text):
    if text not in _parsed:
        left, right = text.split('->', 1)
        cs = []
        if ' WHERE ' in right:
            right, w = right.split(' WHERE ')
            cs = [ref.parse_text(c, rewrite.PROP_SET) for c in w.split(' ; ')]
        _parsed[text] = (ref.parse_text(left, rewrite.PROP_SET), cs, ref.parse_text(right, rewrite.PROP_SET))
    return _parsed[text]


def check_sets(case, ctx):
    t = case['tree']
    if not valid_tree(t) or ref.size(t) > 60:
        raise Discard()
    rules = [parsed(x) for x in case['rules']]
    frontier = {ref.show(t): t}
    final = {}
    steps = 0
    cap = case['cap'] if case['cap'] > 0 else 40
    counts = {}
    try:
        while frontier and steps < cap:
            nxt = {}
            for k, u in frontier.items():
                for p, cs, after in rules:
                    res = once(p, cs, after, u)
                    if res is not None:
                        for w in res:
                            nxt[ref.show(w)] = w
                        break
                else:
                    final[(k, steps)] = u
            if len(nxt) > 60 or any(ref.size(w) > 120 for w in nxt.values()):
                raise Discard()
            frontier = nxt
            steps += bool(nxt)
    except (rewrite.TooMany, ref.Unspecified):
        raise Discard()
    if case['cap'] > 0:
        for k, u in frontier.items():
            final[(k, steps)] = u
    elif frontier:
        raise Discard()      # may not terminate
    f = ['ctx', 'prop', 'mark']
    for x in case['rules']:
        f += ['addrule', x]
    f += ['build', '0', gen.to_dump(t), 'applyset', '0', str(case['cap']), 'free', '0', 'freerules', 'balance']
    r = ctx.driver('engine').run(f)
    what = 'rules %s on %s with cap %d' % (case['rules'], ref.show(t), case['cap'])
    gen.need_ok(r, what)
    n = len(rules)
    for i in range(n):
        if r.fields[3 * i] != b'1':
            raise Violation('rule %s is refused' % case['rules'][i])
    cnt, got = int(r.fields[3 * n]), gen.from_dump(r.fields[3 * n + 1])
    if (ref.show(got), cnt) not in final:
        raise Violation('%s: %d applications give %s, expected %s' % (what, cnt, ref.show(got), ' or '.join('%s after %d' % k for k in list(final)[:3])))
    if r.fields[3 * n + 2] != b'0':
        raise Violation('%s: %s bytes are lost' % (what, gen.text(r.fields[3 * n + 2])))
    if len(rules) < 2 or cnt < 2:
        ctx.trivial()
    ctx.label('%s applications' % min(cnt, 6))


SUBS = [Sub('files', gen_file, check_file, quick=9000, need=['engine']), Sub('load', gen_load, check_load, quick=1500, need=['session']),
        Sub('apply', gen_apply, check_apply, quick=8000, need=['engine']), Sub('sets', gen_sets, check_sets, quick=9000, need=['engine'])]
