"""The string map finds exactly the strings that were added."""
import gen
from pbt import Sub, Violation

RULE = "non-trivial: the history contains at least two strings of which one is a prefix of another, a removal and a re-addition or a query after it"
ALPHA = ['a', 'b', 'ab', '!', '|', '+', 'zz', 'A']


def word(s):
    k = s.raw(12)
    if k == 0:
        return ''
    if k == 11:
        return (s.choice(ALPHA) * 28)[:s.choice([28, 27, 26, 20])]
    return ''.join(s.choice(ALPHA) for _ in range(s.int(1, 4)))


def sibling(s, words):
    """strings that differ in one character"""
    w = s.choice(words) if words else 'x'
    return (w[:-1] + chr(33 + s.raw(92))) if w else chr(33 + s.raw(92))


def query(s, words):
    k = s.raw(8)
    if words and k <= 4:
        w = s.choice(words)
        j = s.raw(4)
        if j == 0:
            return w
        if j == 1:
            return w + word(s)
        if j == 2:
            return w[:s.raw(len(w) + 1)]
        return w + s.choice([' ', '~', '}', '\x01', '\xff', '\x7f']) + word(s)
    return word(s)


def generate(src):
    ops, words = [], []
    wide = src.flip(1, 3)
    huge = wide and src.flip(1, 25)
    for _ in range(src.choice([6, 15, 40, 80]) * (3 if wide else 1) if not huge else 500):
        k = src.raw(16) if not huge or src.flip(1, 5) else 0
        if k <= 5:
            w = query(src, words) if src.flip() else sibling(src, words) if wide else word(src)
            if all('!' <= c <= '|' for c in w) and len(w) <= 28:
                words.append(w)
                ops.append(['add', w, src.int(0, 255)])
        elif k <= 8:
            ops.append(['rem', query(src, words)])
        elif k <= 10:
            ops.append(['has', query(src, words)])
        elif k <= 12:
            ops.append(['pre', query(src, words)])
        elif k == 13:
            ops.append(['iter', src.int(-1, 6)])
        elif k == 14:
            ops.append(['set', query(src, words), src.int(0, 255)])
        else:
            ops.append(['new'] if src.flip(1, 4) else ['count'])
    if huge:             # most of the many strings are looked up and some removed at the end
        for _ in range(60):
            ops.append([src.choice(['has', 'pre', 'rem']), src.choice(words) if words else 'a'])
        ops.append(['count'])
    ops.append(['iter', 2])
    return {'size': src.choice([8, 1, 0, 24]), 'ops': ops}


def check(case, ctx):
    es = case['size']
    f = ['trie', str(es)]
    want = []
    m = {}
    everything, removed, after, nested = set(), False, False, False
    for o in case['ops']:
        f += [str(x) for x in o]
        v = o[0]
        if v == 'add':
            want.append('0' if o[1] in m else '1')
            if o[1] not in m:
                m[o[1]] = o[2] if es else 0
                nested = nested or any(a != o[1] and (a.startswith(o[1]) or o[1].startswith(a)) for a in m)
                after = after or removed
        elif v == 'rem':
            removed = removed or o[1] in m
            m.pop(o[1], None)
            want.append('')
        elif v == 'has':
            c = o[1] in m
            want.append('%d %d %d' % (c, c, m.get(o[1], -1)))
        elif v == 'set':
            c = o[1] in m
            if c and es:
                m[o[1]] = o[2]
            want.append('%d' % c)
        elif v == 'pre':
            b = max([len(w) for w in m if w and o[1].startswith(w)] + [0])
            want.append('%d %d %d' % (b, b, m[o[1][:b]] if b else -1))
        elif v == 'count':
            want.append(str(len(m)))
        elif v == 'new':
            m = {}
            want.append('')
        elif v == 'iter':
            t = ''.join('%s %d\n' % (w, m[w]) for w in sorted(m)) + '--\n'
            want.append(t * 2)
        ctx.label(v)
    r = ctx.driver('structs').run(f)
    gen.need_ok(r, 'trie %r' % (case,))
    for o, w, g in zip(case['ops'], want, r.fields):
        if gen.text(g) != w:
            raise Violation('trie: %r gives %r instead of %r after %r' % (o, gen.text(g), w, case['ops']))
    if gen.text(r.fields[len(want)]) != '0':
        raise Violation('trie: %s bytes not released after %r' % (gen.text(r.fields[len(want)]), case['ops']))
    if not (nested and removed and after):
        ctx.trivial()


SUBS = [Sub('trie', generate, check, quick=40000, need=['structs'])]
