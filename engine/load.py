"""Build the extractor and run it on every translation unit of the repository under analysis."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PROBE = os.path.join(VERIF, 'extractor', 'probe.cpp')
LLVM = '/usr/lib/llvm-18'
FLAGS = ['-std=gnu++14', '-w', '-I/usr/include/eigen3', '-I/usr/include/python3.12',
         '-isystem', '/usr/lib/python3/dist-packages/numpy/core/include']


def extractor():
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'extract-' + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            tmp = exe + '.tmp%d' % os.getpid()
            subprocess.run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I%s/include' % LLVM, src, '-o', tmp,
                            LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so.1'], check=True)
            os.rename(tmp, exe)
    return exe


def sources(repo=None):
    repo = repo or REPO
    return sorted(glob.glob(repo + '/src/**/*.cpp', recursive=True))


class ExtractError(Exception):
    pass


def extract(repo=None, srcs=None, keep=None):
    """[(relative source, extraction)]"""
    repo = repo or REPO
    exe = extractor()
    srcs = srcs or sources(repo)
    if srcs:
        srcs = srcs + [PROBE]
    if not srcs:
        raise ExtractError('no sources under %s/src' % repo)
    out = []
    with tempfile.TemporaryDirectory(prefix='verif-ir-') as d:
        def one(i_s):
            i, s = i_s
            o = os.path.join(d, '%d.json' % i)
            r = subprocess.run([exe, repo, o, os.path.relpath(s, repo), '--', '-I%s/include' % repo] + FLAGS, cwd=repo,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0 or not os.path.exists(o):
                if s == PROBE:
                    return None
                raise ExtractError('extraction of %s failed:\n%s' % (s, r.stdout[-2000:]))
            return (os.path.relpath(s, repo), json.load(open(o)))
        with cf.ThreadPoolExecutor(8) as ex:
            out = [x for x in ex.map(one, enumerate(srcs)) if x]
    return out


def program(repo=None):
    from .interp import Program
    return Program(extract(repo))


def cached():
    """development only: extraction memoised by the contents of the sources"""
    import pickle
    h = hashlib.sha1()
    for f in sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True) + glob.glob(REPO + '/include/**/*.hpp', recursive=True)):
        h.update(f[len(REPO):].encode() + b'\0' + open(f, 'rb').read())
    h.update(open(extractor(), 'rb').read()[:0] + os.path.basename(extractor()).encode())
    fn = '/tmp/verif-dev-%s.pk' % h.hexdigest()[:16]
    if os.path.exists(fn):
        return pickle.load(open(fn, 'rb'))
    p = program()
    pickle.dump(p, open(fn, 'wb'))
    return p
