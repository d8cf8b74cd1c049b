"""Running the built programs: bounded, isolated in a per-case scratch directory, with sanitizer reports recognised."""
import os
import re
import resource
import shutil
import signal
import subprocess
import tempfile

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:'
                    'detect_container_overflow=1:strict_string_checks=0:hard_rss_limit_mb=3000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98',
}

_base_env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8', 'HOME': '/tmp'}


class Res:
    __slots__ = ('rc', 'out', 'err', 'timeout')

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def text(self):
        return self.out.decode('utf-8', 'replace')

    @property
    def etext(self):
        return self.err.decode('utf-8', 'replace')

    @property
    def crashed(self):
        return self.rc is not None and (self.rc < 0 or self.rc in (98, 99) or self.rc >= 128)


def run(argv, stdin=b'', timeout=20, cwd=None, san=False, env=None, mem=None, retry=True):
    e = dict(_base_env)
    if san:
        e.update(SAN_ENV)
    if env:
        e.update(env)
    if isinstance(stdin, str):
        stdin = stdin.encode('utf-8')

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
        if mem and not san:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e,
                         preexec_fn=pre)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return Res(p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.kill()
        out, err = p.communicate()
        if retry:
            # A slow machine is not a hang: try once more, with more time.
            return run(argv, stdin, timeout * 3, cwd, san, env, mem, False)
        return Res(None, out, err, True)


_frame = re.compile(r'^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+|\()', re.M)


def san_key(err):
    """A stable key for a sanitizer report: kind plus the first frame inside cg3's sources."""
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    kind = m.group(1) if m else None
    if not kind:
        m = re.search(r'runtime error: (.*)', err)
        if m:
            kind = 'ub:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:60]
    if not kind:
        kind = 'crash'
    fn = '?'
    for m in re.finditer(r'^\s*#\d+ 0x[0-9a-f]+ in (.*)$', err, re.M):
        line = m.group(1)
        if '/src/' in line and ('/repo' in line or 'cg3' in line.lower()) and '/boost/' not in line:
            fn = re.sub(r'\(.*', '', line.split(' /')[0])
            break
    return kind + '@' + fn.strip()


class Scratch:
    """A per-case scratch directory, removed afterwards."""

    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='cg3v.', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def put(self, name, data):
        p = os.path.join(self.d, name)
        with open(p, 'wb') as f:
            f.write(data.encode('utf-8') if isinstance(data, str) else data)
        return p

    def path(self, name):
        return os.path.join(self.d, name)

    def get(self, name):
        with open(os.path.join(self.d, name), 'rb') as f:
            return f.read()
