"""Tables are laid out as a regular grid with all cell contents."""
import re
import gen
from pbt import Sub, Violation, Discard

RULE = ("non-trivial: the table has at least two rows and columns, a border, and a spanning cell, an alignment or a cell "
        "with several lines, color codes or multi-byte characters")
MAX = 11
ANSI = re.compile('\x1b[^m]*m')
LOOK = {0: ' ', 1: ' ', 2: ' ', 4: ' ', 8: ' ', 3: '└', 5: '│', 6: '┌', 7: '├', 9: '┘', 10: '─', 11: '┴', 12: '┐', 13: '┤', 14: '┬', 15: '┼'}
DOUBLE = dict(zip('└│┌├┘─┴┐┤┬┼ ', '╚║╔╠╝═╩╗╣╦╬ '))


class Cell:
    def __init__(self):
        self.set, self.text, self.parent, self.sx, self.sy = False, None, None, 1, 1
        self.left = self.above = self.h = self.v = None
        self.x = self.y = 0


class Table:
    """What the interface documents: a cursor over a grid of cells, per-column and per-row defaults, overrides per cell."""

    def __init__(self):
        self.rows = []
        self.rowline = []
        self.collines = [0] * MAX
        self.h, self.v = [0] * MAX, [0] * MAX
        self.ncols = 0
        self.x = self.y = 0
        self.append()

    def append(self):
        r = [Cell() for _ in range(MAX)]
        for i, c in enumerate(r):
            c.x, c.y = i, len(self.rows)
        self.rows.append(r)
        self.rowline.append(0)

    @property
    def cell(self):
        return self.rows[self.y][self.x]

    def add(self, text):
        c = self.cell
        c.set, c.text = True, text
        self.ncols = max(self.ncols, self.x + 1)
        while self.x < MAX and self.rows[self.y][self.x].set:
            self.x += 1

    def next(self):
        self.x = 0
        self.y += 1
        if self.y == len(self.rows):
            self.append()
        else:
            while self.x < MAX and self.rows[self.y][self.x].set:
                self.x += 1

    def pos(self, x, y):
        while y >= len(self.rows):
            self.append()
        self.x, self.y = x, y

    def span(self, sx, sy):
        c = self.cell
        for i in range(sy):
            while c.y + i >= len(self.rows):
                self.append()
            free = 1 if i == 0 else 0
            while free < sx and not self.rows[c.y + i][c.x + free].set:
                free += 1
            if free < sx:
                if i == 0:
                    sx = free
                else:
                    sy = i
                    break
            for j in range(sx):
                if i or j:
                    k = self.rows[c.y + i][c.x + j]
                    k.set, k.parent = True, c
                    if j:
                        k.left = 0
                    if i:
                        k.above = 0
        c.sx, c.sy = sx, sy
        self.ncols = max(self.ncols, c.x + sx)

    def vline(self, i, s):
        self.ncols = max(self.ncols, i + 1)
        self.collines[i] = s

    def box(self, s):
        self.vline(0, s)
        self.rowline[0] = s
        self.x, self.y = self.ncols, len(self.rows) - 1
        self.vline(self.ncols, s)
        self.rowline[-1] = s

    # ---------------------------------------------------------------- rendering
    @staticmethod
    def lines(text):
        return [] if text is None else text.split('\n')

    @staticmethod
    def distribute(n, demands):
        """demands: (from, count, need, gaps). Single cells first, then what is missing is split evenly from the left."""
        size = [0] * n
        for a, k, need in demands:
            if k == 1:
                size[a] = max(size[a], need)
        for a, k, need in demands:
            miss = need - sum(size[a:a + k])
            if miss > 0:
                for j in range(k):
                    size[a + j] += miss // k + (1 if j < miss % k else 0)
        return size

    def sizes(self, n, m, owners, vc, hr):
        w = self.distribute(n, [(c.x, c.sx, max([len(ANSI.sub('', l)) for l in self.lines(c.text)] + [0])
                                 - sum(vc[c.x + 1:c.x + c.sx])) for c in owners])
        h = self.distribute(m, [(c.y, c.sy, len(self.lines(c.text)) - sum(hr[c.y + 1:c.y + c.sy])) for c in owners])
        return w, h

    def render(self):
        n, m = self.ncols, len(self.rows)
        if n == 0:
            return ''
        left = [[self.collines[x] if c.left is None else c.left for x, c in enumerate(r)] for r in self.rows]
        above = [[self.rowline[y] if c.above is None else c.above for c in r] for y, r in enumerate(self.rows)]

        def vcols():
            return [bool(self.collines[x] or any(self.rows[y][x].left for y in range(m))) for x in range(MAX)]

        def hrows():
            return [bool(self.rowline[y] or any(c.above for c in self.rows[y])) for y in range(m)]
        owners = [c for r in self.rows for c in r[:n] if c.set and c.parent is None]
        w, h = self.sizes(n, m, owners, vcols(), hrows())
        # an empty last column or row only closes the border
        if w[-1] == 0:
            for y in range(m):
                above[y][n - 1] = 0
                self.rows[y][n - 1].above = 0
        if h[-1] == 0:
            for x in range(n):
                left[m - 1][x] = 0
                self.rows[m - 1][x].left = 0
        vc, hr = vcols(), hrows()
        w, h = self.sizes(n, m, owners, vc, hr)
        cx, cy, a = [], [], 0
        for x in range(n):
            a += vc[x]
            cx.append(a)
            a += w[x]
        width, a = a, 0
        for y in range(m):
            a += hr[y]
            cy.append(a)
            a += h[y]
        canvas = [[' '] * width for _ in range(a)]
        single, double = {0: ' ', 1: '─', 2: '═'}, {0: ' ', 1: '│', 2: '║'}
        for y in range(m):
            for x in range(n):
                if vc[x]:
                    for l in range(h[y]):
                        canvas[cy[y] + l][cx[x] - 1] = double[left[y][x]]
                if hr[y]:
                    for k in range(w[x]):
                        canvas[cy[y] - 1][cx[x] + k] = single[above[y][x]]
                if vc[x] and hr[y]:
                    arms = [left[y - 1][x] if y else 0, above[y][x], left[y][x], above[y][x - 1] if x else 0]
                    ch = LOOK[sum(1 << i for i, s in enumerate(arms) if s)]
                    if arms.count(2) > arms.count(1):
                        ch = DOUBLE[ch]
                    canvas[cy[y] - 1][cx[x] - 1] = ch
        for c in owners:
            if c.x >= n:
                continue
            x1, y1 = c.x + c.sx - 1, c.y + c.sy - 1
            W, H = cx[x1] + w[x1] - cx[c.x], cy[y1] + h[y1] - cy[c.y]
            ls = [ANSI.sub('', l) for l in self.lines(c.text)]
            va = self.v[c.x] if c.v is None else c.v
            ha = self.h[c.x] if c.h is None else c.h
            off = {0: 0, 1: H - len(ls), 2: (H - len(ls)) // 2}[va]
            for l in range(H):
                t = ls[l - off] if 0 <= l - off < len(ls) else ''
                t = {0: t.ljust(W), 1: t.rjust(W), 2: (' ' * ((W - len(t)) // 2) + t).ljust(W)}[ha]
                canvas[cy[c.y] + l][cx[c.x]:cx[c.x] + W] = list(t)
        return ''.join(''.join(l) + '\n' for l in canvas)


WORDS = ['a', '', 'bc', ' x ', 'hello', '0.25', '12345678', 'ä°', ' € ', 'Grüße', '%d%s', ' ', '-1', '\x1b[92mg\x1b[0m', '\x1b[1m\x1b[31mbold\x1b[0m',
         '\x1b[1;36m7\x1b[0m\x1b[33m8\x1b[0m', 'a b', '\x1b[0m', 'long text of a cell', '|', '\\', '"']


def text(s):
    n = s.weighted([(7, 1), (2, 2), (1, 3), (1, 4)])
    return '\n'.join(s.choice(WORDS) for _ in range(n))


def generate(src):
    ops = []
    t = Table()
    limit = src.choice([4, 6, MAX])
    feats = dict(span=src.flip(1, 2), border=src.flip(2, 3), over=src.flip(1, 3), align=src.flip(1, 2), jump=src.flip(1, 4))
    for _ in range(src.choice([6, 14, 30, 50])):
        if t.x >= limit or len(t.rows) > 9 and src.flip():
            if len(t.rows) > 12:
                break
            t.next()
            ops.append(['next'])
            continue
        k = src.raw(20)
        fresh = not t.cell.set
        if k <= 7:
            if fresh:
                x = text(src)
                v = src.choice(['cell', 'gc', 'fmt', 'cell'])
                ops.append([v, x])
                t.add(x)
        elif k == 8:
            if fresh:
                ops.append(['empty'])
                t.add(None)
        elif k <= 11:
            t.next()
            ops.append(['next'])
        elif k == 12 and feats['span'] and fresh:
            sx, sy = src.choice([2, 1, 3, 1, 4]), src.choice([1, 2, 1, 3])
            sx = min(sx, limit - t.x)
            if t.cell.sx == 1 and t.cell.sy == 1 and (sx, sy) != (1, 1):
                cov = [t.rows[y][x] for y in range(t.y, min(t.y + sy, len(t.rows))) for x in range(t.x, t.x + sx)][1:]
                if any((c.left is not None or c.above is not None) and not c.set for c in cov):
                    continue  # cells whose border has been set by hand are not spanned over
                ops.append(['span', sx, sy])
                t.span(sx, sy)
                if src.flip(7, 8):
                    x = text(src)
                    ops.append(['cell', x])
                    t.add(x)
                else:
                    ops.append(['empty'])
                    t.add(None)
        elif k == 13 and feats['border']:
            st = src.int(0, 2)
            if src.flip():
                ops.append(['hline', st])
                t.rowline[t.y] = st
            else:
                i = src.raw(max(1, min(limit, t.ncols + 1)))
                ops.append(['vline', i, st])
                t.vline(i, st)
        elif k == 14 and feats['over'] and fresh:
            st = src.int(0, 2)
            if src.flip():
                ops.append(['oleft', st])
                t.cell.left = st
            else:
                ops.append(['oabove', st])
                t.cell.above = st
        elif k == 15 and feats['align']:
            st = src.int(0, 2)
            j = src.raw(4)
            ops.append([['oh', 'ov', 'ohr', 'ovr'][j], st])
            for c in ([t.cell] if j < 2 else t.rows[t.y]):
                if j % 2 == 0:
                    c.h = st
                else:
                    c.v = st
        elif k == 16 and feats['align']:
            a = [src.int(0, 2) for _ in range(src.int(1, MAX))]
            v = src.choice(['haligns', 'valigns'])
            ops.append([v, len(a)] + a)
            if v == 'haligns':
                t.h[:len(a)] = a
            else:
                t.v[:len(a)] = a
        elif k == 17 and feats['jump']:
            x, y = src.raw(limit), src.raw(len(t.rows) + 2)
            if y >= len(t.rows) or not t.rows[y][x].set:
                ops.append(['pos', x, y])
                t.pos(x, y)
        elif k == 18 and t.x + 3 <= limit and not any(c.set for c in t.rows[t.y][t.x:t.x + 3]):
            xs = [text(src) for _ in range(3)]
            ops.append(['cells3'] + xs)
            for x in xs:
                t.add(x)
        elif k == 19 and t.x == 0 and t.y == len(t.rows) - 1 and fresh and not any(c.set for c in t.rows[t.y]):
            w, h = src.int(1, min(3, limit)), src.int(1, 3)
            xs = [text(src) for _ in range(w * h)]
            ops.append(['array', w, h] + xs)
            for i, x in enumerate(xs):
                t.add(x)
                if i % w == w - 1:
                    t.next()
    if feats['border'] and src.flip(1, 3):
        st = src.int(0, 2)
        ops.append(['allv', st])
        for i in range(1, t.ncols):
            t.collines[i] = st
    if feats['border'] and src.flip(1, 2) and t.ncols < MAX:
        if src.flip(3, 4):
            ops.append(['pos', 0, len(t.rows)])
            t.pos(0, len(t.rows))
        st = src.int(1, 2)
        ops.append(['box', st])
        t.box(st)
    return {'ops': ops}


def build(ops):
    t = Table()
    for o in ops:
        v, a = o[0], o[1:]
        if v in ('cell', 'gc', 'fmt'):
            t.add(a[0])
        elif v == 'empty':
            t.add(None)
        elif v == 'next':
            t.next()
        elif v == 'pos':
            t.pos(*a)
        elif v == 'span':
            t.span(*a)
        elif v == 'hline':
            t.rowline[t.y] = a[0]
        elif v == 'vline':
            t.vline(*a)
        elif v == 'allv':
            for i in range(1, t.ncols):
                t.collines[i] = a[0]
        elif v == 'box':
            t.box(a[0])
        elif v == 'oleft':
            t.cell.left = a[0]
        elif v == 'oabove':
            t.cell.above = a[0]
        elif v == 'oh':
            t.cell.h = a[0]
        elif v == 'ov':
            t.cell.v = a[0]
        elif v in ('ohr', 'ovr'):
            for c in t.rows[t.y]:
                setattr(c, v[1], a[0])
        elif v == 'haligns':
            t.h[:a[0]] = a[1:]
        elif v == 'valigns':
            t.v[:a[0]] = a[1:]
        elif v == 'cells3':
            for x in a:
                t.add(x)
        elif v == 'array':
            for i, x in enumerate(a[2:]):
                t.add(x)
                if i % a[0] == a[0] - 1:
                    t.next()
    return t


def check(case, ctx):
    ops = case['ops']
    t = build(ops)
    want = t.render()
    fields = []
    for o in ops:
        for x in o:
            fields.append(x.encode() if isinstance(x, str) else str(x).encode())
    r = ctx.driver('tables').run(fields + [b'print', b'print'])
    gen.need_ok(r, 'table %r' % (ops,))
    got = r.fields[0].decode('utf-8', 'replace')
    plain = ANSI.sub('', got)
    names = {o[0] for o in ops}
    for l in names:
        ctx.label(l)
    widths = {len(l) for l in plain.split('\n')[:-1]}
    if len(widths) > 1:
        raise Violation('lines have different widths %s: %r\n%s\nexpected\n%s' % (sorted(widths), ops, plain, want))
    if plain != want:
        raise Violation('table %r is printed as\n%s\ninstead of\n%s' % (ops, plain, want))
    for row in t.rows:
        for c in row:
            for l in Table.lines(c.text):
                if l and l not in got:
                    raise Violation('text %r of a cell is missing (color codes included): %r\n%r' % (l, ops, got))
    if r.fields[2].decode('utf-8', 'replace') != got:
        raise Violation('table %r is printed differently the second time\n%s\n%s' % (ops, got, r.fields[2].decode('utf-8', 'replace')))
    if gen.text(r.fields[4]) != '0':
        raise Violation('table %r: %s bytes are not released' % (ops, gen.text(r.fields[4])))
    texts = [x for o in ops for x in o if isinstance(x, str)]
    if not (t.ncols >= 2 and len(t.rows) >= 2 and names & {'hline', 'vline', 'box', 'allv', 'oleft', 'oabove'}
            and (names & {'span', 'oh', 'ov', 'ohr', 'ovr', 'haligns', 'valigns'} or any('\n' in x or '\x1b' in x or not x.isascii() for x in texts))):
        ctx.trivial()


SUBS = [Sub('layout', generate, check, quick=60000, need=['tables'])]
