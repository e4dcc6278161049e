"""Client side of the fork server in harness/server.h."""
import os, struct, subprocess, select


class DriverDied(Exception):
    pass


class Result:
    """status: O ok, X exit code, S signal, T cpu limit, W wall limit, M memory limit"""
    __slots__ = ('status', 'code', 'fields', 'stderr', 'truncated')

    def __init__(self, status, code, fields, stderr, truncated):
        self.status, self.code, self.fields, self.stderr, self.truncated = status, code, fields, stderr, truncated

    @property
    def ok(self):
        return self.status == 'O'

    @property
    def inconclusive(self):
        return self.status == 'W'

    def describe(self):
        kind = {'O': 'finished', 'X': 'exit code %d' % self.code, 'S': 'killed by signal %d' % self.code,
                'T': 'exceeded its CPU time limit', 'W': 'wall time limit', 'M': 'exceeded its memory limit'}[self.status]
        lines = [l for l in self.stderr.decode('latin-1').splitlines()
                 if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Software defect' in l or 'Assertion' in l
                 or l.strip().startswith('#0') or l.strip().startswith('#1 ') or l.strip().startswith('#2 ')]
        return kind + (': ' + ' | '.join(x.strip() for x in lines[:4]) if lines else '')


ASAN = ('abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2000:'
        'symbolize=1:handle_abort=1:malloc_context_size=5:quarantine_size_mb=16:detect_stack_use_after_return=0')
UBSAN = 'print_stacktrace=0:halt_on_error=1:exitcode=86'


PATIENT = False  # while an exceeded CPU limit is confirmed: the machine may be slow


class Driver:
    def __init__(self, exe, cpu_ms=10000, wall_s=240, mem_mb=1500, cwd=None, warm=None):
        self.exe = exe
        if PATIENT:
            cpu_ms = max(cpu_ms, min(5 * cpu_ms, 150000))
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LC_ALL': 'C', 'TERM': 'dumb', 'ASAN_OPTIONS': ASAN,
               'UBSAN_OPTIONS': UBSAN, 'DRV_CPU_MS': str(cpu_ms), 'DRV_WALL_S': str(wall_s), 'DRV_MEM_MB': str(mem_mb)}
        if warm:
            env['DRV_WARM'] = warm
        self.env = env
        self.cwd = cwd
        self.p = None
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=self.env, cwd=self.cwd or '/', bufsize=0, close_fds=True)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.p = None

    def _read(self, n):
        out = []
        while n:
            b = self.p.stdout.read(n)
            if not b:
                raise DriverDied()
            out.append(b)
            n -= len(b)
        return b''.join(out)

    def run(self, fields):
        payload = b''.join(struct.pack('<I', len(f)) + f for f in
                           (x if isinstance(x, bytes) else x.encode('latin-1') for x in fields))
        for attempt in range(3):
            try:
                data = struct.pack('<I', len(payload)) + payload
                mv = memoryview(data)
                while mv:
                    k = self.p.stdin.write(mv)
                    mv = mv[k:]
                total, = struct.unpack('<I', self._read(4))
                b = self._read(total)
                break
            except (DriverDied, BrokenPipeError):
                self.p.kill()
                self.p.wait()
                self.p.stdout.close()
                self.start()
        else:
            raise DriverDied('driver %s does not answer' % self.exe)
        status = chr(b[0])
        code, rl = struct.unpack_from('<II', b, 1)
        resp = b[9:9 + rl]
        el, = struct.unpack_from('<I', b, 9 + rl)
        err = b[13 + rl:13 + rl + el]
        fl = []
        i = 0
        trunc = False
        while i < len(resp):
            if i + 4 > len(resp):
                trunc = True
                break
            l, = struct.unpack_from('<I', resp, i)
            if i + 4 + l > len(resp):
                trunc = True
                break
            fl.append(resp[i + 4:i + 4 + l])
            i += 4 + l
        return Result(status, code, fl, err, trunc)
