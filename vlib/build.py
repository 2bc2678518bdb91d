"""Builds the engine, the bitcode of /repo's current sources and the native replay binaries."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NJ = os.cpu_count() or 4

CXX = 'clang++-18'
COMMON = ['-std=c++23', '-w', '-I' + REPO + '/include', '-I' + VERIF + '/harness', '-D_GLIBCXX_ASSERTIONS']
BCFLAGS = ['-D__cpp_concepts=202002L', '-Wno-builtin-macro-redefined', '-fsized-deallocation',
           '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
           '-fno-pic', '-fno-pie', '-emit-llvm', '-c',
           '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bool,vla-bound',
           '-fsanitize-trap=all']
NATFLAGS = ['-D__cpp_concepts=202002L', '-Wno-builtin-macro-redefined', '-fsized-deallocation', '-g1', '-O1',
            '-fno-omit-frame-pointer', '-c']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function,alignment,enum']


def sources():
    s = sorted(glob.glob(REPO + '/src/main/cpp/**/*.cpp', recursive=True))
    return [f for f in s if os.path.basename(f) not in ('main.cpp', 'wasm.cpp')]


def _hash(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


_hdr = None


def headers_hash():
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(REPO + '/include/**/*', recursive=True))
        parts = []
        for f in fs:
            if os.path.isfile(f):
                parts += [f, _read(f)]
        _hdr = _hash(parts)
    return _hdr


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def engine():
    with Lock('engine'):
        r = sh(['make', '-s', '-j4', '-C', VERIF + '/engine'])
    if r.returncode:
        raise RuntimeError('engine build failed:\n' + r.stdout[-3000:])
    return os.path.join(BUILD, 'ulsym')


class CompileError(Exception):
    pass


def _compile(src, flags, cxx, ext, deps):
    """Compiles one file, cached by content; returns the object path."""
    key = _hash([cxx, ' '.join(flags), src, _read(src), headers_hash()] + deps)
    out = os.path.join(BUILD, 'obj', key + '-' + os.path.basename(src) + ext)
    if os.path.exists(out):
        os.utime(out)
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    for attempt in range(3):
        r = sh([cxx] + flags + [src, '-o', tmp])
        if r.returncode in (0, 1):  # anything else: the compiler itself died
            break
    if r.returncode:
        raise CompileError(src + ':\n' + r.stdout[-4000:])
    os.rename(tmp, out)
    return out


def harness_deps():
    fs = sorted(glob.glob(VERIF + '/harness/*.h*')) + [REPO + '/src/main/cpp/main.cpp']
    return [_read(f) for f in fs if os.path.isfile(f)]


def wrapped(h):
    """The C library functions that a harness replaces (in the engine, by their names alone)."""
    import re
    fs = sorted(set(re.findall(r'\b__wrap_(\w+)', _read(VERIF + '/harness/%s.cpp' % h).decode())))
    return ['-Wl,' + ','.join('--wrap=' + f for f in fs)] if fs else []


def prune():
    """Keeps the object cache small."""
    d = os.path.join(BUILD, 'obj')
    if not os.path.isdir(d):
        return
    fs = sorted(((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d)), reverse=True)
    tot = 0
    for m, f in fs:
        p = os.path.join(d, f)
        tot += os.path.getsize(p)
        if tot > 1500 << 20:
            try:
                os.unlink(p)
            except OSError:
                pass


def bitcode(harnesses):
    """Returns ({harness: linked .bc}, {harness: compile error})."""
    fl = COMMON + BCFLAGS
    hd = harness_deps()
    errs = {}
    with ThreadPoolExecutor(NJ) as ex:
        srcs = [ex.submit(_compile, s, fl, CXX, '.bc', []) for s in sources()]
        rt = ex.submit(_compile, VERIF + '/harness/rt.cpp', fl + ['-fno-builtin'], CXX, '.bc', hd)
        hs = {h: ex.submit(_compile, VERIF + '/harness/%s.cpp' % h, fl, CXX, '.bc', hd) for h in harnesses}
        base = [f.result() for f in srcs] + [rt.result()]

        def link(h):
            o = hs[h].result()
            key = _hash(base + [o])
            out = os.path.join(BUILD, 'obj', key + '-' + h + '.linked.bc')
            if not os.path.exists(out):
                tmp = out + '.%d.tmp' % os.getpid()
                r = sh(['llvm-link-18'] + base + [o, '-o', tmp])
                if r.returncode:
                    raise CompileError('link ' + h + ': ' + r.stdout[-2000:])
                os.rename(tmp, out)
            return out
        res = {}
        ls = {h: ex.submit(lambda h=h: link(h)) for h in harnesses}
        for h in harnesses:
            try:
                res[h] = ls[h].result()
            except CompileError as e:
                errs[h] = str(e)
    return res, errs


def native(harnesses, asan=True):
    """Returns {harness: executable} built from the real sources."""
    fl = COMMON + NATFLAGS + (ASAN if asan else [])
    hd = harness_deps()
    res = {}
    with ThreadPoolExecutor(NJ) as ex:
        srcs = [ex.submit(_compile, s, fl, CXX, '.o', []) for s in sources()]
        rt = ex.submit(_compile, VERIF + '/harness/native.cpp', fl, CXX, '.o', hd)
        hs = {h: ex.submit(_compile, VERIF + '/harness/%s.cpp' % h, fl, CXX, '.o', hd) for h in harnesses}
        base = [f.result() for f in srcs] + [rt.result()]
        for h in harnesses:
            try:
                o = hs[h].result()
            except CompileError:
                continue
            key = _hash(base + [o])
            out = os.path.join(BUILD, 'obj', key + '-' + h + '.exe')
            if not os.path.exists(out):
                tmp = out + '.%d.tmp' % os.getpid()
                r = sh([CXX] + (ASAN if asan else []) + ['-rdynamic'] + wrapped(h) + ['-o', tmp] + base + [o, '-ldl'])
                if r.returncode:
                    raise CompileError('link ' + h + ': ' + r.stdout[-2000:])
                os.rename(tmp, out)
            res[h] = out
    return res
