"""Builds what a check needs from /repo's current working tree (sources only:
every /repo/src/*.cpp), into a folder keyed by the content of those sources and
the flags.  Nothing is ever written below /repo."""
import hashlib, os, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('PANDA_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.build')
JOBS = min(8, os.cpu_count() or 8)

CXX = next((c for c in ('g++-11', 'g++') if shutil.which(c)), 'g++')
BASE = ['--std=c++11', '-w', '-DNDEBUG']
# takes by far the longest to compile (many instantiations): start it first
SLOW = ('fourier', 'adjacency', 'double', 'matrix', 'classes', 'list', 'rotation', 'input.cpp')


class BuildError(Exception):
    pass


def sources():
    fs = sorted(glob.glob(os.path.join(SRC, '*.cpp')))
    key = lambda f: next((i for i, s in enumerate(SLOW) if s in f), 99)
    return sorted(fs, key=key)


def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(SRC, '*'))):
        if os.path.isfile(f):
            h.update(os.path.basename(f).encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def _key(flags, extra=()):
    h = hashlib.sha256((tree_hash() + repr(flags) + CXX).encode())
    for e in extra:
        with open(e, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _dir(name):
    d = os.path.join(CACHE, name)
    os.makedirs(d, exist_ok=True)
    return d


def objects(flags, cxx=None, only=None, slow_flags=None):
    """compile all sources of the repository (or those for which only(name)) and
    return the list of object files"""
    cxx = cxx or CXX
    d = _dir('obj-' + _key((cxx, flags, slow_flags)))
    todo = []
    objs = []
    for f in sources():
        b = os.path.basename(f)
        if only is not None and not only(b):
            continue
        o = os.path.join(d, b + '.o')
        objs.append(o)
        if not os.path.exists(o):
            fl = slow_flags if (slow_flags and 'fourier' in b) else flags
            todo.append((f, o, fl))

    def one(t):
        f, o, fl = t
        tmp = o + '.tmp%d' % os.getpid()
        rc, out = _run([cxx, *BASE, *fl, '-c', f, '-o', tmp])
        if rc == 0:
            os.rename(tmp, o)
        return f, rc, out
    with ThreadPoolExecutor(JOBS) as ex:
        for f, rc, out in ex.map(one, todo):
            if rc != 0:
                raise BuildError('compiling %s failed:\n%s' % (f, out[-3000:]))
    return objs


def panda(flags=('-O1',), cxx=None, slow_flags=('-O0',)):
    flags = list(flags)
    slow_flags = list(slow_flags) if slow_flags else None
    objs = objects(flags, cxx, slow_flags=slow_flags)
    exe = os.path.join(os.path.dirname(objs[0]), 'panda')
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        rc, out = _run([cxx or CXX, *BASE, *flags, *objs, '-o', tmp, '-lpthread'])
        if rc != 0:
            raise BuildError('linking panda failed:\n' + out[-3000:])
        os.rename(tmp, exe)
    return exe


def harness(source, flags=('-O1',), cxx=None, only=None, std='--std=c++11', libs=(), need_repo_objects=True, name=None):
    """compile one C++ harness of /verif against the repository's sources"""
    cxx = cxx or CXX
    flags = list(flags)
    src = os.path.join(VERIF, 'harness', source)
    extra = sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h')))
    d = _dir('har-' + _key((cxx, flags, std, libs, source), [src, *extra]))
    exe = os.path.join(d, os.path.splitext(source)[0])
    if os.path.exists(exe):
        return exe
    o = exe + '.o'
    nonmain = (lambda b: b != 'main.cpp' and (only is None or only(b)))
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(_run, [cxx, std, '-w', '-DNDEBUG', *flags, '-I', SRC, '-c', src, '-o', o])
        objs = objects(flags, cxx, only=nonmain) if need_repo_objects else []
        rc, out = fut.result()
    if rc != 0:
        raise BuildError('compiling %s failed:\n%s' % (source, out[-3000:]))
    tmp = exe + '.tmp%d' % os.getpid()
    rc, out = _run([cxx, *flags, o, *objs, '-o', tmp, '-lpthread', *libs])
    if rc != 0:
        raise BuildError('linking %s failed:\n%s' % (source, out[-3000:]))
    os.rename(tmp, exe)
    return exe


def faults():
    """panda and the library harness/faults.c to be preloaded"""
    src = os.path.join(VERIF, 'harness', 'faults.c')
    with open(src, 'rb') as f:
        d = _dir('faults-' + hashlib.sha256(f.read()).hexdigest()[:20])
    so = os.path.join(d, 'faults.so')
    if not os.path.exists(so):
        tmp = so + '.tmp%d' % os.getpid()
        rc, out = _run(['gcc', '-O1', '-w', '-shared', '-fPIC', src, '-o', tmp, '-ldl'])
        if rc != 0:
            raise BuildError(out[-3000:])
        os.rename(tmp, so)
    return {'panda': panda(), 'faults': so}


TS = ['-O1', '-fsanitize=thread']
TS_SLOW = ['-O0', '-fsanitize=thread']


def schedules():
    """objects instrumented for ThreadSanitizer, linked (a) with its runtime and (b) with the
    controlled scheduler harness/sched.cpp instead"""
    cxx = 'clang++'
    src = os.path.join(VERIF, 'harness', 'sched.cpp')
    with ThreadPoolExecutor(1) as ex:
        d = _dir('sched-' + _key((cxx, TS), [src]))
        so = os.path.join(d, 'sched.o')
        fut = ex.submit(_run, [cxx, '-O1', '-w', '-c', src, '-o', so])
        objs = objects(TS, cxx, slow_flags=TS_SLOW)
        rc, out = fut.result()
    if rc != 0:
        raise BuildError(out[-3000:])
    a, b = os.path.join(d, 'panda-tsan'), os.path.join(d, 'panda-sched')
    for exe, cmd in ((a, ['-fsanitize=thread', *objs]), (b, [*objs, so])):
        if not os.path.exists(exe):
            tmp = exe + '.tmp%d' % os.getpid()
            rc, out = _run([cxx, *cmd, '-o', tmp, '-lpthread', '-ldl'])
            if rc != 0:
                raise BuildError('linking failed:\n' + out[-3000:])
            os.rename(tmp, exe)
    return {'tsan': a, 'sched': b}


def worklist():
    """harness/worklist.cpp (a) with ThreadSanitizer and (b) under the controlled scheduler"""
    cxx = 'clang++'
    hs = [os.path.join(VERIF, 'harness', f) for f in ('sched.cpp', 'worklist.cpp')]
    d = _dir('wl-' + _key((cxx, TS), hs))
    a, b = os.path.join(d, 'worklist-tsan'), os.path.join(d, 'worklist-sched')
    if os.path.exists(a) and os.path.exists(b):
        return {'tsan': a, 'sched': b}
    with ThreadPoolExecutor(2) as ex:
        so, wo = os.path.join(d, 'sched.o'), os.path.join(d, 'wl.o')
        futs = [ex.submit(_run, [cxx, '-O1', '-w', '-c', hs[0], '-o', so]), ex.submit(_run, [cxx, *BASE, *TS, '-I', SRC, '-c', hs[1], '-o', wo])]
        objs = objects(TS, cxx, only=lambda f: f != 'main.cpp', slow_flags=TS_SLOW)
        for f in futs:
            rc, out = f.result()
            if rc != 0:
                raise BuildError(out[-3000:])
    for exe, cmd in ((a, ['-fsanitize=thread', *objs, wo]), (b, [*objs, wo, so])):
        tmp = exe + '.tmp%d' % os.getpid()
        rc, out = _run([cxx, *cmd, '-o', tmp, '-lpthread', '-ldl'])
        if rc != 0:
            raise BuildError('linking failed:\n' + out[-3000:])
        os.rename(tmp, exe)
    return {'tsan': a, 'sched': b}


SANF = ['-O1', '-g1', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr']


def sanitized():
    """panda and the libFuzzer target harness/fuzz_input.cpp with AddressSanitizer and UndefinedBehaviorSanitizer"""
    cxx = 'clang++'
    src = os.path.join(VERIF, 'harness', 'fuzz_input.cpp')
    link = [f for f in SANF if 'fuzzer' not in f] + ['-fsanitize=address,undefined']
    with ThreadPoolExecutor(1) as ex:
        d = _dir('fuzz-' + _key((cxx, SANF), [src]))
        fo = os.path.join(d, 'fuzz.o')
        fut = ex.submit(_run, [cxx, *BASE, *SANF, '-I', SRC, '-c', src, '-o', fo])
        objs = objects(SANF, cxx, slow_flags=['-O0'] + SANF[1:])
        rc, out = fut.result()
    if rc != 0:
        raise BuildError(out[-3000:])
    a, b = os.path.join(d, 'panda'), os.path.join(d, 'fuzz')
    lib = [o for o in objs if not o.endswith('/main.cpp.o')]
    for exe, cmd in ((a, [*link, *objs]), (b, [*link, '-fsanitize=fuzzer', fo, *lib])):
        if not os.path.exists(exe):
            tmp = exe + '.tmp%d' % os.getpid()
            rc, out = _run([cxx, *cmd, '-o', tmp, '-lpthread'])
            if rc != 0:
                raise BuildError('linking failed:\n' + out[-3000:])
            os.rename(tmp, exe)
    return {'panda': a, 'fuzz': b}


def mpi():
    """the distributed version of panda with the stand-in harness/fakempi for MPI"""
    inc = os.path.join(VERIF, 'harness', 'fakempi')
    src, hdr = os.path.join(inc, 'mpi.cpp'), os.path.join(inc, 'mpi.h')
    flags = ['-O1', '-fsanitize=address', '-DMPI_SUPPORT', '-I', inc]
    d = _dir('mpi-' + _key((CXX, flags), [src, hdr]))
    exe = os.path.join(d, 'panda-mpi')
    if os.path.exists(exe):
        return exe
    mo = os.path.join(d, 'mpi.o')
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(_run, [CXX, '-std=c++11', '-O1', '-w', '-fsanitize=address', '-c', src, '-o', mo])
        objs = objects(flags, slow_flags=['-O0'] + flags[1:])
        rc, out = fut.result()
    if rc != 0:
        raise BuildError(out[-3000:])
    tmp = exe + '.tmp%d' % os.getpid()
    rc, out = _run([CXX, *BASE, *flags, *objs, mo, '-o', tmp, '-lpthread'])
    if rc != 0:
        raise BuildError('linking failed:\n' + out[-3000:])
    os.rename(tmp, exe)
    return exe
