"""All input channels execute the same commands the same way."""
import fcntl, os, pty, struct, subprocess, termios, threading, time
import pbt, gen, ref, build
from model import Model
import c06, c09, c10, c11
from pbt import Sub, Discard, Violation, Inconclusive

RULE = ("non-trivial: at least three commands, of which one prints something and one fails or changes definitions or history "
        "that are used afterwards (sequences, interactive); at least three commands, of which exactly one fails (status); any command line with at least two switches or an unknown one (switches); "
        "at least two lines, and the result of one depends on whether the rules are loaded, or they are missing or malformed (installed)")


def run(exe, args, stdin, cwd):
    try:
        p = subprocess.run([exe] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, timeout=120,
                           env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TERM': 'dumb', 'HOME': cwd})
    except subprocess.TimeoutExpired:
        raise Inconclusive('timeout')
    return p.returncode, nan(gen.text(p.stdout)), gen.text(p.stderr)


def nan(s):
    """the sign of a NaN depends on the compiler"""
    return s.replace('-nan', 'nan')


def enc(s):
    return s.encode('latin-1')


_banner = {}


def banner(exe, cwd):
    """what the program reports at start (no ruleset installed)"""
    if exe not in _banner:
        _banner[exe] = run(exe, [], b'', cwd)[2]
    return _banner[exe]


def one_line(s, m):
    k = s.raw(12)
    if k <= 2:
        return c10.definition(s, m)
    if k <= 5 and m.defs:
        return c10.use(s, m)
    if k <= 7:
        return c09.line(s, m, False)
    if k == 8:
        return c11.failing(s, m)
    return s.choice(['ans', '@0', 'ans+1', '2+3*4', 'help', 'table x^2;1;3;1', '1/0', 'clear', '7 C 2', '(1', 'license', 'help operators',
                     '1' + '+1' * 150, 'table x;1;3;1 fold x+y;0', ' 5', '5 ', 'sin(' + '(' * 60 + '0' + ')' * 60 + ')'])


def gen_lines(s, m, n):
    out = []
    for _ in range(n):
        l = one_line(s, m)
        if '@DIR@' in l or l == 'quit' or l.startswith('load ') or '\0' in l or '\n' in l:
            continue
        if l in ('', ) or l.startswith('#'):
            continue
        if not l.startswith(('help', 'license')):
            c = m.copy()
            try:
                c.line(l)
            except ref.Unspecified:
                continue
            m.defs, m.hist, m._ops = c.defs, c.hist, None
        out.append(l)
    return out


def generate(src):
    m = Model(maxsize=200)
    files = []
    nfiles = src.choice([1, 0, 1, 2, 3])
    lines = gen_lines(src, m, src.choice([2, 4, 7, 10]))
    if src.flip(1, 8):
        lines += [str(i) for i in range(src.choice([6, 15, 40, 130]))] + ['ans+1']
    for i in range(nfiles):
        fl = gen_lines(src, m, src.choice([2, 1, 4]))
        for _ in range(src.choice([0, 1])):
            fl.insert(src.raw(len(fl) + 1), src.choice(['', '# a comment', '#', '#1/0', '# quit']))
        if i > 0 and src.flip(1, 3):
            fl.insert(src.raw(len(fl) + 1), 'load f%d' % src.raw(i))
        if src.flip(1, 6):
            fl.insert(src.raw(len(fl) + 1), 'quit')
        files.append([fl, src.flip(1, 2)])
        lines.insert(src.raw(len(lines) + 1), 'load f%d' % i)
    if src.flip(1, 5):
        lines.insert(src.raw(len(lines) + 1), 'load missing')
    noise = [(src.raw(len(lines) + 1), src.choice(['', '# comment', '#', '#1/0', '# x = 2'])) for _ in range(src.choice([0, 1, 2]))]
    quit_at = src.raw(len(lines) + 1) if src.flip(1, 3) else None
    return {'lines': lines, 'files': files, 'noise': noise, 'quit': quit_at, 'split': src.raw(len(lines) + 1)}


QUIT = object()


def flatten(lines, files):
    """-> list of (line | QUIT | ('begin', i) | ('end', i))"""
    out = []
    for l in lines:
        if l == 'quit':
            out.append(QUIT)
        elif l.startswith('load f'):
            out += [('begin',)] + flatten(files[int(l[6:])][0], files) + [('end',)]
        elif l != '' and not l.startswith('#'):
            out.append(l)
    return out


def predict(flat, results):
    """stdout, stderr, failed, quit, per top-level command ok"""
    out = err = ''
    it = iter(results)
    failed = False
    for x in flat:
        if x is QUIT:
            return out, err, failed, True
        if isinstance(x, tuple):
            continue
        ok, o, e = next(it)
        out += nan(o)
        err += e
        failed = failed or not ok
    return out, err, failed, False


def failing_index(noisy, lines, k):
    """position in the list with comments of the k-th line"""
    n = -1
    for i, l in enumerate(noisy):
        if l != '' and not l.startswith('#'):
            n += 1
            if n == k:
                return i


def check(case, ctx):
    exe = ctx.exe('ccalc')
    d = ctx.scratch
    os.makedirs(d, exist_ok=True)
    for i, (fl, nl) in enumerate(case['files']):
        with open(os.path.join(d, 'f%d' % i), 'wb') as f:
            f.write(enc('\n'.join(fl) + ('\n' if nl and fl else '')))
    lines = case['lines']
    base = banner(exe, d)
    flat = flatten(lines, case['files'])
    cmds = [x for x in flat if isinstance(x, str)]
    # reference: every line on its own, in one session (own build, no channel involved)
    res = gen.session(ctx, ['L' + l if l != 'load missing' else 'Lload /nonexistent-dir/missing' for l in cmds])
    for l, (ok, _, err) in zip(cmds, res):
        if ok != (err == ''):
            raise Violation('line %r %s but reports %r' % (l, 'succeeds' if ok else 'fails', err))
    o, e, failed, quit_ = predict(flat, res)
    what = {'lines': lines, 'files': case['files']}

    def compare(name, got, want):
        if got != want:
            raise Violation('%s: (status, stdout, stderr) is %r, expected %r\n%r' % (name, got, want, what))

    want = (1 if failed else 0, o, base + e)
    text = '\n'.join(lines)
    compare('piped', run(exe, [], enc(text + '\n'), d), want)
    compare('piped, last line without newline', run(exe, ['-q'], enc(text), d), want)
    # blank lines, comments
    l2 = list(lines)
    for pos, t in case['noise']:
        l2.insert(pos, t)
    compare('piped with comments', run(exe, [], enc('\n'.join(l2) + '\n'), d), want)
    # as a file
    with open(os.path.join(d, 'all'), 'wb') as f:
        f.write(enc('\n'.join(l2)))
    compare('loaded', run(exe, [], b'load all\n', d), want)
    compare('loaded by -c', run(exe, ['--commands', 'load all'], b'1/0\n7\n', d),
            want if not failed or quit_ else (1, o, base + e + 'Error occurred in command 1\n'))
    # -c: stops at first failing command
    pos = 0
    co = ce = ''
    cfail = None
    cquit = None
    for k, l in enumerate(lines):
        f1 = flatten([l], case['files'])
        n = sum(isinstance(x, str) for x in f1)
        a, b, fl, qu = predict(f1, res[pos:pos + n])
        pos += n
        co += a
        ce += b
        if qu:
            cquit = fl
            break
        if fl:
            cfail = k
            break
    if cquit is not None:
        cw = (1 if cquit else 0, co, base + ce)
    elif cfail is not None:
        cw = (1, co, base + ce + 'Error occurred in command %d\n' % (cfail + 1))
    else:
        cw = (0, co, base + ce)
    compare('-c', run(exe, ['-c'] + lines, b'123456\n', d), cw)
    compare('-q --commands', run(exe, ['-q', '--commands'] + lines, b'', d), cw)
    compare('-c with comments', run(exe, ['-c'] + l2, b'', d), cw if cfail is None else
            (cw[0], cw[1], base + ce + 'Error occurred in command %d\n' % (1 + failing_index(l2, lines, cfail))))
    # -i -c: remaining lines from stdin
    k = case['split']
    f1 = flatten(lines[:k], case['files'])
    n = sum(isinstance(x, str) for x in f1)
    if k and not any(not r[0] for r in res[:n]) and QUIT not in f1:
        compare('-i -c', run(exe, ['-i', '-c'] + lines[:k], enc('\n'.join(lines[k:])), d), want)
        ctx.label('-i -c')
    # quit
    if case['quit'] is not None:
        k = case['quit']
        f1 = flatten(lines[:k], case['files'])
        o2, e2, fail2, _ = predict(f1, res)
        l3 = lines[:k] + ['quit'] + lines[k:]
        wantq = (1 if fail2 else 0, o2, base + e2)
        compare('quit', run(exe, [], enc('\n'.join(l3)), d), wantq)
        compare('quit', run(exe, ['--interactive'], enc('\n'.join(l3) + '\n'), d), wantq)
        ctx.label('quit')
    ctx.label('fails' if failed else 'succeeds')
    if len(cmds) < 3 or o == '':
        ctx.trivial()


def gen_status(src):
    m = Model(maxsize=200)
    lines, bad = [], None
    n = src.int(1, 5)
    k = src.raw(n + 1)
    for i in range(n + 1):
        for _ in range(8):
            l = c11.failing(src, m) if i == k else one_line(src, m)
            if '@DIR@' in l or l.startswith(('load', 'help', 'license', '#')) or l in ('quit', '') or '\0' in l or '\n' in l:
                continue
            c = m.copy()
            try:
                r = c.line(l)
            except ref.Unspecified:
                continue
            if r.ok == (i != k):
                m.defs, m.hist, m._ops = c.defs, c.hist, None
                lines.append(l)
                if i == k:
                    bad = len(lines) - 1
                break
    return {'lines': lines, 'bad': bad, 'how': src.raw(4)}


def check_status(case, ctx):
    """at most one line fails (by the model), the exit status tells so"""
    exe = ctx.exe('ccalc')
    d = ctx.scratch
    os.makedirs(d, exist_ok=True)
    lines, bad, how = case['lines'], case['bad'], case['how']
    if not lines:
        raise Discard()
    text = enc('\n'.join(lines) + '\n')
    if how == 0:
        r = run(exe, [], text, d)
    elif how == 1:
        r = run(exe, ['-q'], text[:-1], d)
    elif how == 2:
        with open(os.path.join(d, 'st'), 'wb') as f:
            f.write(text)
        r = run(exe, [], b'# st\nload st\n2+2\n', d)
    else:
        r = run(exe, ['-c'] + lines, b'', d)
    want = 0 if bad is None else 1
    if r[0] != want:
        raise Violation('%r (channel %d): exit status %d, but %s' % (
            lines, how, r[0], 'no line fails' if bad is None else 'line %r has to fail' % lines[bad]))
    if bad is None or len(lines) < 3:
        ctx.trivial()
    ctx.label('status %d' % want)


SWITCHES = {'-i': 'i', '--interactive': 'i', '-q': 'q', '--quiet': 'q', '-h': 'h', '--help': 'h', '-v': 'v', '--version': 'v',
            '-c': 'c', '--commands': 'c'}
BAD = ['', '-', '--', '-x', '--quie', '--quiett', '-iq', 'help', '-C', '--Help', '1+1', '-hh', '--command', '-ii', '--interactivee',
       '--v', '-help', '-vq', '--i', '-I', '---help', '-c1', '--commands=1', '-v ', ' -v', '/?']


def gen_switches(src):
    args = []
    for _ in range(src.int(0, 4)):
        args.append(src.choice(list(SWITCHES)) if src.flip(4, 5) else src.choice(BAD))
    cmds = src.list(0, 3, lambda s: s.choice(['1+1', '2*3', 'ans', '-h', '-i', '--help', '1/0', 'f(x)=x', '', '#1/0']))
    return {'args': args + (['-c'] + cmds if src.flip(1, 3) else [])}


def check_switches(case, ctx):
    exe = ctx.exe('ccalc')
    d = ctx.scratch
    os.makedirs(d, exist_ok=True)
    base = banner(exe, d)
    args = case['args']
    got = run(exe, args, b'6*7\nans/2\n', d)
    seen = set()
    cmds = None
    bad = None
    for i, a in enumerate(args):
        if a not in SWITCHES:
            bad = a
            break
        seen.add(SWITCHES[a])
        if SWITCHES[a] == 'c':
            cmds = args[i + 1:]
            break
    if len(args) < 2 and bad is None:
        ctx.trivial()
    if bad is not None:
        ctx.label('unknown')
        if got[0] == 0 or got[1] != '' or got[2].strip() == '':
            raise Violation('unknown switch %r in %r gives %r' % (bad, args, got))
        return
    if 'h' in seen or 'v' in seen:
        ctx.label('help/version')
        h = 'Usage' in got[1] and all(x in got[1] for x in ('--help', '--version', '--interactive', '--quiet', '--commands'))
        v = got[1].count('\n') >= 1 and 'Usage' not in got[1] and any(c.isdigit() for c in got[1])
        ok = got[0] == 0 and got[2] == '' and (h if 'v' not in seen else v if 'h' not in seen else h or v)
        if not ok or '\n42\n' in '\n' + got[1]:
            raise Violation('%r gives %r' % (args, got))
        return
    ctx.label('runs')
    lines = list(cmds or [])
    r = gen.session(ctx, ['L' + l for l in lines] + ['L6*7', 'Lans/2'])
    o = e = ''
    for i, l in enumerate(lines):
        o += r[i][1]
        e += r[i][2]
        if not r[i][0]:
            want = (1, o, base + e + 'Error occurred in command %d\n' % (i + 1))
            break
    else:
        if cmds is None or 'i' in seen:
            o += r[-2][1] + r[-1][1]
        want = (0, o, base + e)
    if got != want:
        raise Violation('%r gives %r, expected %r' % (args, got, want))


def run_tty(exe, args, lines, cwd):
    """types lines into the program at a terminal (output goes to pipes) -> like run"""
    m, s = pty.openpty()
    try:
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack('HHHH', 200, 2000, 0, 0))
        a = termios.tcgetattr(s)
        a[3] &= ~(termios.ECHO | termios.ICANON)
        termios.tcsetattr(s, termios.TCSANOW, a)
        p = subprocess.Popen([exe] + args, stdin=s, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, start_new_session=True,
                             env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TERM': 'dumb', 'HOME': cwd, 'INPUTRC': '/dev/null'})
        os.close(s)
        s = None
        os.set_blocking(m, False)
        data = enc('\n'.join(lines) + ('\n' if lines else '') + '\x04')
        stop = threading.Event()

        def feed():
            n = 0
            while n < len(data) and not stop.is_set():
                try:
                    n += os.write(m, data[n:n + 512])
                except BlockingIOError:
                    time.sleep(0.002)
                except OSError:
                    return
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        try:
            o, e = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Inconclusive('timeout')
        finally:
            stop.set()
            t.join()
        return p.returncode, nan(gen.text(o)), gen.text(e)
    finally:
        os.close(m)
        if s is not None:
            os.close(s)


def gen_tty(src):
    case = generate(src)
    case['quiet'] = src.flip(1, 2)
    case['pre'] = src.raw(3) if src.flip(1, 4) else None
    return case


_tty = {}


def check_tty(case, ctx):
    """typed in at a terminal: the same results, with notes, headers and markers as in interactive mode"""
    exe = ctx.exe('ccalc')
    d = ctx.scratch
    os.makedirs(d, exist_ok=True)
    lines = list(case['lines'])
    for pos, t in case['noise']:
        lines.insert(pos, t)
    if case['quit'] is not None:
        lines.insert(case['quit'], 'quit')
    if any(not (32 <= ord(c) < 127) for l in lines for c in l) or sum(map(len, lines)) > 20000:
        raise Discard()
    for i, (fl, nl) in enumerate(case['files']):
        with open(os.path.join(d, 'f%d' % i), 'wb') as f:
            f.write(enc('\n'.join(fl) + ('\n' if nl and fl else '')))
    base = banner(exe, d)
    if exe not in _tty:
        a = run_tty(exe, ['-q'], [], d)
        b = run_tty(exe, [], [], d)
        if a[0] != 0 or b[0] != 0 or a[1].strip() != '' or b[1].strip() == '' or a[2] != base or b[2] != base or not b[1].endswith(a[1]):
            raise Violation('terminal without input: %r quiet, %r otherwise' % (a, b))
        _tty[exe] = (a[1], b[1][:len(b[1]) - len(a[1])])
    tail, head = _tty[exe]
    # commands given by -c run first, non-interactively
    pre = case['pre'] or 0
    if pre:
        f1 = flatten(lines[:pre], case['files'])
        r = gen.session(ctx, ['L' + (l if l != 'load missing' else 'load /nonexistent-dir/missing') for l in f1 if isinstance(l, str)])
        if QUIT in f1 or not all(x[0] for x in r):
            pre = 0
    ops, plain = [], []
    depth = 0
    for k, l in enumerate(lines):
        for x in flatten([l], case['files']):
            if x == ('begin',):
                depth += 1
            elif x == ('end',):
                depth -= 1
            elif isinstance(x, str):
                x = 'E' + (x if x != 'load missing' else 'load /nonexistent-dir/missing')
                ops += ['i0' if depth or k < pre else 'i1', x]
                plain.append(x)
    res = [r for o, r in zip(ops, gen.session(ctx, ops)) if o[0] == 'E'] if ops else []
    ref_ = gen.session(ctx, plain) if plain else []
    inter = [o == 'i1' for o in ops[::2]]
    # commands do the same in interactive mode. Results are shown after "= "
    for l, i, a, b in zip(plain, inter, res, ref_):
        if a[0] != b[0]:
            raise Violation('%r %s interactively, but %s otherwise' % (l, *['succeeds' if x[0] else 'fails' for x in (a, b)]))
        if not i and a != b:
            raise Violation('%r from a file gives %r in an interactive session, but %r otherwise' % (l, a, b))
        if (a[2] == '') != (b[2] == ''):
            raise Violation('%r reports %r interactively, but %r otherwise' % (l, a[2], b[2]))
        c = l[1:]
        if i and b[0] and b[1] != '' and not c.startswith(('table', 'help', 'license')) and nan(a[1]) not in ('= ' + nan(b[1]), nan(b[1])):
            raise Violation('%r prints %r interactively, but %r otherwise' % (l, a[1], b[1]))
        if i and c.startswith(('help', 'license')) and a[1] != b[1]:
            raise Violation('%r prints %r interactively, but %r otherwise' % (l, a[1], b[1]))
    flat = flatten(lines, case['files'])
    o, e, failed, quit_ = predict(flat, res)
    args = (['-q'] if case['quiet'] else []) + (['-i', '-c'] + lines[:pre] if pre else [])
    want = (1 if failed else 0, ('' if case['quiet'] else head) + o + ('' if quit_ else tail), base + e)
    got = run_tty(exe, args, lines[pre:], d)
    if got != want:
        raise Violation('terminal %r: (status, stdout, stderr) is %r, expected %r\n%r' % (
            args, got, want, {'lines': lines, 'files': case['files']}))
    ctx.label('quit' if quit_ else 'end of input')
    if pre:
        ctx.label('-i -c')
    if case['files'] and any(inter) and not all(inter):
        ctx.label('file within session')
    if len(plain) < 3 or o == '' or all(r[0] for r in res):
        ctx.trivial()


RULES_NAME = 'simplification.ruleset'


def gen_installed(src):
    """rules found at start, or not, or loaded later"""
    def expr(s):
        k = s.raw(6)
        if k == 0:
            return one_line(s, Model(maxsize=200))
        if k == 1:
            return 'deriv(%s,x)' % s.choice(['x^2', 'sin(x)', '2*x', 'x*y', '3', 'x+y', 'a*x'])
        t = ref.full_text(c06.shaped(s, ['x', 'y'])) if k <= 3 else ref.full_text(c06.tree(s, s.choice([2, 4]), ['x', 'a']))
        return t if len(t) < 60 else 'x+x'
    state = src.choice(['good', 'missing', 'malformed', 'few', 'good'])
    lines = [expr(src) for _ in range(src.int(1, 5))]
    lines = [l for l in lines if '@DIR@' not in l and not l.startswith(('load', 'quit', '#')) and '\n' not in l and '\0' not in l and l] or ['x+x']
    for _ in range(src.choice([0, 1, 2])):
        lines.insert(src.raw(len(lines) + 1), 'load simplification ' + src.choice(['good', 'malformed', 'few', 'missing']))
    return {'state': state, 'lines': lines, 'cut': src.raw(1000), 'how': src.raw(3)}


def check_installed(case, ctx):
    exe = ctx.exe('ccalc-here')
    d = ctx.scratch
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(build.REPO, RULES_NAME), 'rb') as f:
        good = f.read()
    ls = good.split(b'\n')
    rules = [i for i, l in enumerate(ls) if b'->' in l and not l.strip().startswith(b'#')]
    sets = [i for i, l in enumerate(ls) if l.strip() == b'RULESET']
    k = rules[case['cut'] % len(rules)]
    bad = ls[:k] + [ls[k].replace(b'->', [b'', b'->)', b'->(', b'-> ->'][case['cut'] // 7 % 4])] + ls[k + 1:]
    content = {'good': good, 'malformed': b'\n'.join(bad), 'few': b'\n'.join(ls[:sets[1 + case['cut'] % (len(sets) - 1)]]) + b'\n'}
    for n, c in content.items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(c)
    p = os.path.join(d, RULES_NAME)
    if case['state'] in content:
        with open(p, 'wb') as f:
            f.write(content[case['state']])
    try:
        lines = case['lines']
        pre = ['Lload simplification ' + os.path.join(d, 'good')] if case['state'] == 'good' else []
        ops = pre + ['L' + l.replace('load simplification ', 'load simplification %s/' % d) for l in lines]
        r = ctx.driver('session', cpu_ms=20000).run(['session'] + ops)
        if r.status == 'T':
            raise Discard()
        res = gen._answers(r, ops)
        if pre and not res[0][0]:
            raise Violation('the rules are refused: %r' % (res[0],))
        res = res[len(pre):]
        for l, (ok, _, err) in zip(lines, res):
            if l.startswith('load') and ok != (l.endswith(' good')):
                raise Violation('%r %s' % (l, 'succeeds' if ok else 'fails'))
        how = case['how'] if all(x[0] for x in res) else 0
        text = enc('\n'.join(lines) + '\n')
        got = run(exe, ['-q'] if how == 0 else ['-c'] + lines if how == 1 else ['-i', '-c'] + lines, text if how == 0 else b'', d)
        err = ''.join(x[2] for x in res)
        # loading reports file names as given
        err = err.replace(d + '/', '')
        o = ''.join(nan(x[1]) for x in res)
        failed = not all(x[0] for x in res)
        if case['state'] == 'good':
            note_ok = got[2] == err
        else:
            note_ok = got[2].endswith(err) and got[2][:len(got[2]) - len(err)].strip() != ''
        if (got[0], got[1]) != (1 if failed else 0, o) or not note_ok:
            raise Violation('rules at start: %s, %r gives %r, expected %r' % (case['state'], lines, got, (1 if failed else 0, o, err)))
        ctx.label('start: ' + case['state'])
        if any(l.startswith('load') for l in lines):
            ctx.label('load later')
        plain = gen.session(ctx, ['L' + l for l in lines if not l.startswith('load')])
        if [x for l, x in zip(lines, res) if not l.startswith('load')] == plain and case['state'] == 'good':
            ctx.trivial()
        if len(lines) < 2:
            ctx.trivial()
    finally:
        if os.path.exists(p):
            os.unlink(p)


SUBS = [Sub('sequences', generate, check, quick=4000, need=['session', 'ccalc']),
        Sub('status', gen_status, check_status, quick=4000, need=['ccalc']),
        Sub('interactive', gen_tty, check_tty, quick=2500, need=['session', 'ccalc']),
        Sub('switches', gen_switches, check_switches, quick=2500, need=['session', 'ccalc']),
        Sub('installed', gen_installed, check_installed, quick=2500, need=['session', 'ccalc-here'])]
