"""Builds everything a check needs from /repo's current tree: the symbolic executor, LLVM bitcode of
the library (one variant per YACLIB_FAULT setting), the runtime models and the harnesses."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
CXX = 'clang++-18'
LLVM = '/usr/lib/llvm-18/bin/'
CFLAGS = ['-std=c++20', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-w', '-fno-stack-protector',
          '-Xclang', '-disable-lifetime-markers', '-pthread', '-ffile-prefix-map=' + os.path.realpath(VERIF) + '=/verif']
# nosym/nofinal: the same library without symmetric transfer / without transfer out of final_suspend
FAULT = {'real': 0, 'nosym': 0, 'nofinal': 0, 'thread': 1, 'fiber': 2}
REAL = ('real', 'nosym', 'nofinal')


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def hfile(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


_repo_hash = None


def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        h = hashlib.sha256()
        for d in ('src', 'include'):
            for r, ds, fs in sorted(os.walk(os.path.join(REPO, d))):
                for f in sorted(fs):
                    p = os.path.join(r, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
        h.update(' '.join(CFLAGS).encode())
        _repo_hash = h.hexdigest()
    return _repo_hash


def stamp_ok(out, key):
    s = out + '.key'
    return os.path.exists(out) and os.path.exists(s) and open(s).read() == key


def stamp(out, key):
    with open(out + '.key', 'w') as f:
        f.write(key)


def engine():
    """compile the symbolic executor and the module preparation tool"""
    d = os.path.join(BUILD, 'engine')
    os.makedirs(d, exist_ok=True)
    src = sorted(glob.glob(VERIF + '/engine/*'))
    key = hfile(*src)
    out = d + '/vfsym'
    if not stamp_ok(out, key):
        sh(['make', '-j4', '-C', VERIF + '/engine', 'B=' + d])
        stamp(out, key)
    return out


def gen_config(variant):
    d = os.path.join(BUILD, variant, 'include', 'yaclib')
    os.makedirs(d, exist_ok=True)
    t = open(REPO + '/src/config.hpp.in').read()
    vals = {'YACLIB_FAULT': str(FAULT[variant]), 'YACLIB_CORO_NEED': '1', 'YACLIB_SYMMETRIC_TRANSFER': '0' if variant == 'nosym' else '1', 'YACLIB_FINAL_SUSPEND_TRANSFER': '0' if variant in ('nosym', 'nofinal') else '1'}
    t = re.sub(r'\$\{(\w+)\}', lambda m: vals.get(m.group(1), '0'), t)
    p = d + '/config.hpp'
    if not os.path.exists(p) or open(p).read() != t:
        open(p, 'w').write(t)
    return os.path.dirname(d)


def sources(variant):
    r = []
    for f in sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True)):
        s = f[len(REPO) + 1:]
        if '/fault/fiber/' in s and variant != 'fiber':
            continue
        if variant in REAL and s in ('src/fault/random_device.cpp', 'src/fault/atomic.cpp', 'src/fault/condition_variable.cpp'):
            continue
        r.append(f)
    return r


def incs(variant):
    inc = gen_config(variant)
    return ['-I' + REPO + '/include', '-I' + inc, '-I' + REPO + '/src', '-I' + VERIF + '/harness']


def compile_bc(src, out, variant, extra=(), cflags=None):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    sh([CXX] + (cflags or CFLAGS) + list(extra) + incs(variant) + ['-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', src, '-o', out + '.raw'])
    sh([os.path.join(BUILD, 'engine', 'vfopt'), out + '.raw', out])
    os.unlink(out + '.raw')


def extra_flags(variant):
    return ['-include', VERIF + '/harness/vf_random.h'] if variant in ('fiber', 'thread') else []


_lock = threading.Lock()


def library(variant, pool):
    d = os.path.join(BUILD, variant, 'lib')
    os.makedirs(d, exist_ok=True)
    out = d + '.bc'
    key = repo_hash() + hfile(*[p for p in [VERIF + '/engine/opt.cpp', VERIF + '/harness/vf_random.h'] if os.path.exists(p)])
    if stamp_ok(out, key):
        return out
    gen_config(variant)
    objs = []
    futs = []
    for s in sources(variant):
        o = d + '/' + s[len(REPO) + 5:].replace('/', '_') + '.bc'
        objs.append(o)
        futs.append(pool.submit(compile_bc, s, o, variant, extra_flags(variant)))
    for f in futs:
        f.result()
    sh([LLVM + 'llvm-link', '-o', out] + objs)
    stamp(out, key)
    return out


def model():
    out = os.path.join(BUILD, 'model.bc')
    os.makedirs(BUILD, exist_ok=True)
    key = hfile(VERIF + '/harness/vf_model.cpp', VERIF + '/harness/vf.h')
    if not stamp_ok(out, key):
        sh([CXX] + CFLAGS + ['-fno-access-control', '-I' + VERIF + '/harness', '-emit-llvm', '-c', VERIF + '/harness/vf_model.cpp', '-o', out])
        stamp(out, key)
    return out


def harness(src, variant, lib, mdl, defs=(), name=None):
    """returns (module for the executor, module with repo+harness code only)"""
    name = name or os.path.splitext(os.path.basename(src))[0]
    d = os.path.join(BUILD, variant, 'h')
    os.makedirs(d, exist_ok=True)
    base = d + '/' + name
    key = repo_hash() + hfile(src, *sorted(glob.glob(VERIF + '/harness/*.h')), VERIF + '/harness/vf_model.cpp') + ' '.join(defs) + hfile(*sorted(glob.glob(VERIF + '/engine/*')))
    if stamp_ok(base + '.full.bc', key):
        return base + '.full.bc', base + '.prep.bc'
    compile_bc(src, base + '.h.bc', variant, list(extra_flags(variant)) + list(defs))
    sh([LLVM + 'llvm-link', '-o', base + '.link.bc', base + '.h.bc', '--only-needed', lib] if False else [LLVM + 'llvm-link', '-o', base + '.link.bc', base + '.h.bc', lib])
    sh([os.path.join(BUILD, 'engine', 'vfprep'), base + '.link.bc', base + '.prep.bc'])
    sh([LLVM + 'llvm-link', '-o', base + '.full.bc', base + '.prep.bc', mdl])
    stamp(base + '.full.bc', key)
    return base + '.full.bc', base + '.prep.bc'
