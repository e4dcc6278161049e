"""Builds the drivers from /repo's current working tree (never from a copy)."""
import hashlib, os, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CCALC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class BuildError(Exception):
    pass


def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith('.c'):
                out.append(os.path.join(d, f))
    return sorted(out)


def repo_include_dirs():
    out = []
    for d, _, _ in os.walk(os.path.join(REPO, 'src')):
        out.append(d)
    return sorted(out)


def tree_hash(extra=()):
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'harness')):
        for d, dn, fs in os.walk(root):
            dn.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
                h.update(b'\0')
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:20]


FLAVOURS = {
    # asan+ubsan, used by the forked drivers
    'san': dict(cc='clang', cflags=['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                                    '-fno-sanitize-recover=undefined', '-fno-sanitize=float-divide-by-zero'],
                ldflags=['-fsanitize=address,undefined', '-lm']),
    # libFuzzer
    'fuzz': dict(cc='clang', cflags=['-O1', '-g', '-fno-omit-frame-pointer',
                                     '-fsanitize=address,undefined,fuzzer-no-link',
                                     '-fno-sanitize-recover=undefined'],
                 ldflags=['-fsanitize=address,undefined,fuzzer', '-lm']),
    # as shipped: gcc with readline
    'release': dict(cc='gcc', cflags=['-DUSE_READLINE'], ldflags=['-lm', '-lreadline']),
    # looks for the rules in the current directory (as `make INSTALL_PATH=.`)
    'here': dict(cc='gcc', cflags=['-DUSE_READLINE'], ldflags=['-lm', '-lreadline'], path='.'),
}


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))


def build(name, harness, flavour='san', rename_main=True):
    """Compile all of /repo/src plus the given harness files; returns path of executable."""
    fl = FLAVOURS[flavour]
    key = tree_hash((name, harness, flavour, rename_main, fl))
    outdir = os.path.join(BUILD, '%s-%s' % (name, key))
    exe = os.path.join(outdir, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    # objects of the program itself are shared between the drivers of one flavour
    objkey = tree_hash(('objs', flavour, rename_main, fl))
    objdir = os.path.join(BUILD, 'obj-%s-%s' % (flavour, objkey))
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(outdir, exist_ok=True)
    inc = ['-I' + REPO] + ['-I' + d for d in repo_include_dirs()] + ['-I' + os.path.join(VERIF, 'harness')]
    common = [fl['cc'], '-std=gnu99', '-w', '-DINSTALL_PATH="%s"' % fl.get('path', '/nonexistent-ccalc')] + fl['cflags'] + inc
    jobs = []
    objs = []
    for src in repo_sources():
        o = os.path.join(objdir, os.path.relpath(src, REPO).replace('/', '__') + '.o')
        objs.append(o)
        if not os.path.exists(o):
            extra = ['-Dmain=ccalc_main'] if rename_main and os.path.basename(src) == 'main.c' else []
            jobs.append((common + extra + ['-c', src, '-o'], o))
    for h in harness:
        src = os.path.join(VERIF, 'harness', h)
        o = os.path.join(outdir, h + '.o')
        objs.append(o)
        jobs.append((common + ['-c', src, '-o'], o))

    def one(j):
        cmd, o = j
        tmp = '%s.%d.tmp' % (o, os.getpid())
        _run(cmd + [tmp])
        os.replace(tmp, o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    tmp = '%s.%d.tmp' % (exe, os.getpid())
    _run([fl['cc']] + objs + ['-o', tmp] + fl['ldflags'])
    os.replace(tmp, exe)
    return exe


DRIVERS = {
    'session': (['session.c'], 'san', True),
    'engine': (['engine.c'], 'san', True),
    'tables': (['tables.c'], 'san', True),
    'structs': (['structs.c'], 'san', True),
    'fuzzline': (['fuzzline.c'], 'fuzz', True),
    'ccalc': ([], 'release', False),
    'ccalc-here': ([], 'here', False),
}


def driver(name):
    h, fl, rm = DRIVERS[name]
    return build(name, h, fl, rm)


def prune(keep_hours=6):
    """Remove stale build products (only below /verif/build)."""
    import time
    if not os.path.isdir(BUILD):
        return
    for e in os.listdir(BUILD):
        p = os.path.join(BUILD, e)
        try:
            if time.time() - os.path.getmtime(p) > keep_hours * 3600:
                shutil.rmtree(p, ignore_errors=True)
        except OSError:
            pass


if __name__ == '__main__':
    for n in (sys.argv[1:] or DRIVERS):
        if all(os.path.exists(os.path.join(VERIF, 'harness', h)) for h in DRIVERS[n][0]):
            print(driver(n))
