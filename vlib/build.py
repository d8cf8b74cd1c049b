"""Builds grammarsoft/cg3 from the current working tree of /repo, out of tree, cached by content hash."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('CG3_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.join(VERIF, '.build')

KINDS = {
    # functional checks: fast and deterministic
    'plain': ('gcc', 'g++', '-O1 -g0'),
    # memory safety and undefined behaviour
    'san': ('clang', 'clang++', '-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,function '
                                '-fno-sanitize-recover=undefined -DCG3_VERIF_POISON_POOLS -fno-omit-frame-pointer '
                                '-fsanitize-ignorelist=' + os.path.join(VERIF, 'vlib', 'san.ignore')),
    # the build with different hash seeds / stdlib checks
    'dbg': ('gcc', 'g++', '-O1 -g0 -D_GLIBCXX_ASSERTIONS'),
}


def tree_hash():
    h = hashlib.sha256()
    for base in ('src', 'include', 'CMakeLists.txt', 'cg3.pc.in', 'test/CMakeLists.txt'):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            h.update(base.encode())
            h.update(open(p, 'rb').read())
            continue
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f)
                if os.path.islink(q) and not os.path.exists(q):
                    continue
                h.update(os.path.relpath(q, REPO).encode())
                with open(q, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def build(kind='plain', targets=('vislcg3', 'cg-comp')):
    """Returns the directory holding the built binaries (…/src)."""
    os.makedirs(ROOT, exist_ok=True)
    hs = tree_hash()
    d = os.path.join(ROOT, kind + '-' + hs)
    lock = open(os.path.join(ROOT, kind + '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        for x in os.listdir(ROOT):
            if x.startswith(kind + '-') and x != kind + '-' + hs:
                shutil.rmtree(os.path.join(ROOT, x), ignore_errors=True)
        cc, cxx, fl = KINDS[kind]
        if not os.path.exists(os.path.join(d, 'build.ninja')):
            cmd = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None',
                   '-DCOMPILER_SUPPORTS_flto=OFF', '-DENABLE_PYTHON_BINDINGS=OFF', '-DCMAKE_CXX_FLAGS=' + fl,
                   '-DCMAKE_C_FLAGS=' + fl, '-DCMAKE_C_COMPILER=' + cc, '-DCMAKE_CXX_COMPILER=' + cxx]
            if kind == 'san':
                cmd.append('-DCMAKE_EXE_LINKER_FLAGS=-fsanitize=address,undefined')
                cmd.append('-DCMAKE_SHARED_LINKER_FLAGS=-fsanitize=address,undefined')
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError(p.stdout.decode(errors='replace')[-3000:])
        p = subprocess.run(['ninja', '-C', d] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError(p.stdout.decode(errors='replace')[-3000:])
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return os.path.join(d, 'src')


if __name__ == '__main__':
    if sys.argv[1:] == ['setup']:
        # Every check builds what it needs from /repo's current tree; here we only see to it that the tools are there.
        for t in ('cmake', 'ninja', 'gcc', 'g++', 'clang', 'clang++'):
            assert shutil.which(t), t + ' is missing'
        os.makedirs(ROOT, exist_ok=True)
        sys.exit(0)
    print(build(sys.argv[1] if len(sys.argv) > 1 else 'plain', sys.argv[2:] or ('vislcg3', 'cg-comp')))
