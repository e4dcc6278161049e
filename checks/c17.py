"""Vectors and string builders behave like sequences and strings."""
import gen
from pbt import Sub, Violation

RULE = "non-trivial: the content outgrows the initial size and the history has at least three kinds of operations"


def gen_vec(src):
    ops, n = [], 0
    for _ in range(src.choice([4, 10, 25, 60])):
        k = src.raw(14)
        v = src.int(0, 255)
        if k <= 2:
            ops.append(['push', v]); n += 1
        elif k <= 4:
            ops.append(['pushe', v]); n += 1
        elif k <= 6:
            vs = [src.int(0, 255) for _ in range(src.choice([2, 1, 0, 3, 7, 20]))]
            if not vs and n == 0:
                continue  # the buffer may have no memory at all then
            ops.append(['many', len(vs)] + vs); n += len(vs)
        elif k <= 8:
            ops.append(['pop']); n = max(0, n - 1)
        elif k == 9 and n:
            ops.append(['set', src.raw(n), v])
        elif k == 10:
            ops.append(['trim'])
        elif k == 11:
            ops.append(['ensure', src.choice([1, 2, 5, 17, 64, n or 1, n + 1])])
        elif k == 12 and src.flip(1, 3):
            ops.append(['clear']); n = 0
        elif k == 13 and src.flip(1, 4):
            ops.append(['new', src.choice([1, 0, 2, 10])]); n = 0
    return {'size': src.choice([8, 1, 4, 24, 16, 2, 3, 40, 32]), 'start': src.choice([1, 0, 2, 3, 10, 50]), 'ops': ops}


def check_vec(case, ctx):
    f = ['vec', str(case['size']), str(case['start'])]
    l, want = [], []
    big = False
    for o in case['ops']:
        f += [str(x) for x in o]
        v = o[0]
        ctx.label(v)
        pre = ''
        if v in ('push', 'pushe'):
            l = l + [o[1]]
        elif v == 'many':
            l = l + o[2:]
        elif v == 'pop':
            pre = '%s|' % (l[-1] if l else 'none')
            l = l[:-1]
        elif v == 'set':
            l = l[:o[1]] + [o[2]] + l[o[1] + 1:]
        elif v in ('clear', 'new'):
            l = []
        big = big or len(l) > case['start']
        t = ''.join('%d ' % x for x in l)
        want.append('%s%d:%s;%s;%s' % (pre, len(l), t, (t + ',') * 4, l[-1] if l else 'none'))
    r = ctx.driver('structs').run(f)
    gen.need_ok(r, 'vector %r' % (case,))
    for i, (o, w, g) in enumerate(zip(case['ops'], want, r.fields)):
        if gen.text(g) != w:
            raise Violation('vector: %r gives %s instead of %s after %r (start size %d)' % (o, gen.text(g), w, case['ops'][:i], case['start']))
    if gen.text(r.fields[len(want)]) != '0':
        raise Violation('vector: %s bytes not released after %r' % (gen.text(r.fields[len(want)]), case['ops']))
    if not big or len({o[0] for o in case['ops']}) < 3:
        ctx.trivial()


def piece(s):
    k = s.raw(5)
    if k == 0:
        return s.choice(['', 'a', 'xyz', '%s', '100%', '%n%d'])
    return ''.join(chr(33 + (i * 7 + s.log[-1]) % 90) for i in range(s.choice([1, 0, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 100, 255, 1000])))


def gen_sb(src):
    ops = []
    for _ in range(src.choice([3, 8, 20, 40])):
        k = src.raw(12)
        if k <= 3:
            ops.append(['s', piece(src)])
        elif k <= 5:
            ops.append(['c', src.choice(['a', ' ', '%', '\xff', 'Z'])])
        elif k == 6:
            ops.append(['mix', piece(src), src.int(-5, 100000)])
        elif k == 7:
            ops.append(['two', piece(src), piece(src)])
        elif k == 8:
            ops.append(['raw', piece(src).replace('%', '%%')])
        elif k == 9 and src.flip():
            ops.append(['clear'])
        elif k == 10:
            ops.append(['trim'])
        elif k == 11 and src.flip():
            ops.append(['heap', piece(src)] if src.flip() else ['new', src.choice([1, 0, 2, 3, 10, 100])])
    return {'start': src.choice([1, 0, 2, 3, 5, 10, 50]), 'ops': ops}


def check_sb(case, ctx):
    f = ['sb', str(case['start'])]
    t, want = '', []
    big = False
    for o in case['ops']:
        f += [str(x) for x in o]
        v = o[0]
        ctx.label(v)
        if v in ('s', 'c'):
            t += o[1]
        elif v == 'mix':
            t += '<%5s|%d%%|%.3f>' % (o[1], o[2], o[2] / 4)
        elif v == 'two':
            t += o[1] + o[2]
        elif v == 'raw':
            t += o[1].replace('%%', '%')
        elif v == 'heap':
            t = o[1]
        elif v in ('clear', 'new'):
            t = ''
        big = big or len(t) >= case['start']
        want.append('%d:%s' % (len(t) + 1, t))
    r = ctx.driver('structs').run(f)
    gen.need_ok(r, 'string builder %r' % (case,))
    for i, (o, w, g) in enumerate(zip(case['ops'], want, r.fields)):
        if gen.text(g) != w:
            raise Violation('string builder: %r gives %r instead of %r after %r (start size %d)' % (o, gen.text(g), w, case['ops'][:i], case['start']))
    if gen.text(r.fields[len(want)]) != '0':
        raise Violation('string builder: %s bytes not released after %r' % (gen.text(r.fields[len(want)]), case['ops']))
    if not big or len({o[0] for o in case['ops']}) < 3:
        ctx.trivial()


SUBS = [Sub('vector', gen_vec, check_vec, quick=30000, need=['structs']),
        Sub('strings', gen_sb, check_sb, quick=30000, need=['structs'])]
