"""Run the assembler under test in the worker's scratch directory."""
import os
import resource
import signal
import time

from .engine import Violation

CPU_LIMIT = 10          # seconds; ordinary cases take milliseconds
WALL_LIMIT = 60
AS_LIMIT = 3 << 30
BASE_ENV = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': '/nonexistent',
            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:'
                            'symbolize=0',
            'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=99:symbolize=0:print_stacktrace=0'}


class Result:
    __slots__ = ('rc', 'sig', 'timeout', 'stderr', 'stdout', 'out', 'args', 'wall', 'cpu', 'mem')

    def messages(self):
        return [l for l in self.stderr.decode('latin-1').split('\n') if l]


def _limits_alarm(signum, frame):
    raise TimeoutError


def write_files(env, files):
    for name, data in files.items():
        if isinstance(data, str):
            data = data.encode('latin-1')
        d = os.path.dirname(name)
        if d:
            os.makedirs(d, exist_ok=True)
        fd = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        try:
            os.write(fd, data) if len(data) < (1 << 20) else _write_all(fd, data)
        finally:
            os.close(fd)


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def asm(env, args, files=None, outs=(), variant='plain', extra_env=None, check=True, cpu=CPU_LIMIT,
        keep=False):
    """Write files, run the assembler with args, collect outs (name -> bytes or
    None if not created).  Abnormal endings are violations of any property."""
    if files:
        write_files(env, files)
    for o in outs:
        if not keep:
            try:
                os.unlink(o)
            except FileNotFoundError:
                pass
    exe = env.exes[variant]
    e = BASE_ENV
    if extra_env:
        e = dict(BASE_ENV)
        e.update(extra_env)
    env.runs += 1
    fa = [(os.POSIX_SPAWN_OPEN, 0, '/dev/null', os.O_RDONLY, 0),
          (os.POSIX_SPAWN_OPEN, 1, '.stdout', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600),
          (os.POSIX_SPAWN_OPEN, 2, '.stderr', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)]
    argv = [b'asm6809'] + [a.encode('latin-1') if isinstance(a, str) else a for a in args]
    t0 = time.time()
    pid = os.posix_spawn(exe, argv, e, file_actions=fa)
    try:
        resource.prlimit(pid, resource.RLIMIT_CPU, (cpu, cpu + 1))
        if variant == 'plain':
            resource.prlimit(pid, resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
        resource.prlimit(pid, resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    except (ProcessLookupError, PermissionError):
        pass
    timeout = False
    old = signal.signal(signal.SIGALRM, _limits_alarm)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        _, status, ru = os.wait4(pid, 0)
    except TimeoutError:
        timeout = True
        os.kill(pid, signal.SIGKILL)
        _, status, ru = os.wait4(pid, 0)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    r = Result()
    r.args = args
    r.wall = time.time() - t0
    r.cpu = ru.ru_utime + ru.ru_stime
    r.mem = ru.ru_maxrss << 10
    r.sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    r.rc = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -r.sig
    r.timeout = timeout or r.sig in (signal.SIGXCPU, signal.SIGKILL)
    r.stderr = _slurp('.stderr') or b''
    r.stdout = _slurp('.stdout') or b''
    r.out = {o: _slurp(o) for o in outs}
    if env.log is not None:
        env.log.append(dict(args=[a if isinstance(a, str) else a.decode('latin-1') for a in args],
                            rc=r.rc, stderr=r.stderr.decode('latin-1')[:2000],
                            files={k: (v if isinstance(v, str) else v.decode('latin-1'))
                                   for k, v in (files or {}).items()}))
    if check:
        check_clean(r)
    return r


def check_clean(r):
    if r.timeout:
        raise Violation('assembler did not terminate within its CPU time')
    if r.sig:
        raise Violation('assembler killed by signal %d: %s' % (r.sig, r.stderr[-300:].decode('latin-1')))
    if r.rc not in (0, 1):
        raise Violation('assembler exited with status %d: %s' % (r.rc, r.stderr[-600:].decode('latin-1')))
    if r.rc == 1 and not r.stderr.strip():
        raise Violation('assembler failed without any diagnostic')


def _slurp(name):
    try:
        fd = os.open(name, os.O_RDONLY)
    except OSError:
        return None
    try:
        chunks = []
        while True:
            b = os.read(fd, 1 << 20)
            if not b:
                break
            chunks.append(b)
        return b''.join(chunks)
    finally:
        os.close(fd)
