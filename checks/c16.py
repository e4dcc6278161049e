"""The linked list behaves like a sequence."""
import gen
from pbt import Sub, Violation

RULE = "non-trivial: at least one insertion between two elements, one deletion, and a list of at least three elements at some time"


def generate(src):
    ops, n = [], 0
    huge = src.flip(1, 80)
    for _ in range(src.choice([5, 12, 30, 60]) if not huge else src.choice([150, 330])):
        k = src.raw(12) if not huge else src.raw(7) if src.flip(5, 6) else 7 + src.raw(4)
        v = src.int(0, 255)
        if k <= 1:
            ops.append(['app', v]); n += 1
        elif k == 2:
            ops.append(['appn', v]); n += 1
        elif k <= 4:
            ops.append(['at', src.raw(n + 1), v]); n += 1
        elif k <= 6:
            ops.append(['after', src.raw(n + 1) - 1, v]); n += 1
        elif k <= 8 and n:
            ops.append(['del', src.raw(n)]); n -= 1
        elif k == 9 and n:
            ops.append(['deln', src.raw(n)]); n -= 1
        elif k == 10 and n:
            ops.append(['set', src.raw(n), v])
        elif k == 11 and src.flip(1, 6):
            ops.append(['new']); n = 0
    return {'size': src.choice([8, 1, 3, 40, 16, 4, 24, 2, 32]), 'ops': ops}


def check(case, ctx):
    f = ['list', str(case['size'])]
    l, want = [], []
    mid = dele = big = False
    for o in case['ops']:
        f += [str(x) for x in o]
        v = o[0]
        ctx.label(v)
        if v in ('app', 'appn'):
            l.append(o[1])
        elif v in ('at', 'after'):
            i = o[1] + (v == 'after')
            mid = mid or 0 < i < len(l)
            l.insert(i, o[2])
        elif v in ('del', 'deln'):
            del l[o[1]]
            dele = True
        elif v == 'set':
            l[o[1]] = o[2]
        else:
            l = []
        big = big or len(l) >= 3
        t = ''.join('%d ' % x for x in l)
        want.append('%d:%s;%s;%s;%s;' % (len(l), (t + ',') * min(len(l) + 2, 6), ''.join('%d ' % x for x in l[:2]), t, t))
    r = ctx.driver('structs').run(f)
    gen.need_ok(r, 'list %r' % (case,))
    for i, (o, w, g) in enumerate(zip(case['ops'], want, r.fields)):
        if gen.text(g) != w:
            raise Violation('list: %r gives %s instead of %s after %r' % (o, gen.text(g), w, case['ops'][:i]))
    if gen.text(r.fields[len(want)]) != '0':
        raise Violation('list: %s bytes not released after %r' % (gen.text(r.fields[len(want)]), case['ops']))
    if not (mid and dele and big):
        ctx.trivial()


SUBS = [Sub('list', generate, check, quick=40000, need=['structs'])]
