"""Builds the library from /repo's working tree plus a harness, out of tree, in parallel."""
import os, re, hashlib, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
WRAPS = ['malloc', 'calloc', 'realloc', 'free']
CONC = WRAPS + ['pthread_' + w for w in '''create join detach setaffinity_np mutex_init mutex_destroy mutex_lock mutex_trylock mutex_unlock
 cond_init cond_destroy cond_wait cond_timedwait cond_signal cond_broadcast once'''.split()] + \
    ['sched_yield', 'usleep', 'nanosleep', '__assert_fail', 'lrand48', 'memset', 'memcpy', 'memmove', 'strsep']

def lists():
    """Source lists of src/Makefile.am (all conditionals on)."""
    txt = open(os.path.join(REPO, 'src/Makefile.am')).read().replace('\\\n', ' ')
    d = {}
    for m in re.finditer(r'^(COMMON|BLAS|EBLAS|ACCEL|LAPACK|SPARSE|COMPAT)\s*\+?=\s*(.*)$', txt, re.M):
        for w in m.group(2).split():
            if w.endswith('.c') and w not in d.setdefault(m.group(1), []):
                d[m.group(1)].append(w)
    return d

def hdrhash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.inc')):
                    h.update(f.encode()); h.update(open(os.path.join(root, f), 'rb').read())
    return h.hexdigest()

BASE = ['-DHAVE_CONFIG_H', '-march=x86-64-v3', '-ffast-math', '-pthread', '-w']
MODES = {
    # the library as the project compiles it, plus AddressSanitizer
    'asan': dict(lib=BASE + ['-O2', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address'], link=['-fsanitize=address']),
    # the library exactly at the project's optimisation level
    'opt': dict(lib=BASE + ['-O3', '-g1', '-fomit-frame-pointer'], link=[]),
    # shared-memory accesses and atomics instrumented; our own runtime provides __tsan_*
    'conc': dict(lib=BASE + ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-fno-builtin-memcpy', '-fno-builtin-memset', '-fno-builtin-memmove'], link=['-no-pie']),
}

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd)[:300], p.stdout[-4000:]))
    return p.stdout

def compile_one(src, flags, key):
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    h = hashlib.sha256((key + ' '.join(flags)).encode() + src.encode() + open(src, 'rb').read()).hexdigest()[:32]
    o = os.path.join(BUILD, 'obj', h + '.o')
    if not os.path.exists(o):
        t = o + '.%d.tmp' % os.getpid()
        run(['gcc'] + flags + ['-c', src, '-o', t])
        os.rename(t, o)
    return o

def build(name, harness, mode='asan', extra_src=(), wraps=(), hflags=(), libs=None, libflags=(), morewraps=()):
    """Returns the path of the linked harness."""
    src = os.path.join(REPO, 'src')
    inc = ['-I' + os.path.join(VERIF, 'mc'), '-I' + src, '-I' + os.path.join(src, 'include')]
    m = MODES[mode]
    strs = ['-DCONFIG_SETTINGS="verif"', '-DCOMPILER="gcc"', '-DCOMPILE_TIME="now"']
    hk = hdrhash([os.path.join(src), os.path.join(VERIF, 'mc'), os.path.join(VERIF, 'h')])
    jobs = []
    for grp, files in lists().items():
        if libs is not None and grp not in libs: continue
        for f in files:
            fl = m['lib'] + list(libflags) + inc + (strs if grp == 'COMMON' else ['-DFLOAT64'])
            jobs.append((os.path.join(src, f), fl))
    nlib = len(jobs)
    hf = ['-DHAVE_CONFIG_H', '-DFLOAT64', '-std=gnu11', '-O1', '-g1', '-march=x86-64-v3', '-pthread', '-Wall', '-Wno-unused', '-Wno-misleading-indentation', '-Wno-parentheses', '-Wno-maybe-uninitialized', '-fno-omit-frame-pointer'] + inc + list(hflags)
    if mode == 'asan': hf.append('-fsanitize=address')
    if mode == 'conc': hf.append('-DMC_CONC'); wraps = CONC
    for s in [harness] + list(extra_src):
        jobs.append((s, hf))
    with ThreadPoolExecutor(max(2, os.cpu_count() or 4)) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], hk), jobs))
    # an archive, so that private helpers of unused parts do not matter and -lm style resolution works
    out = os.path.join(BUILD, 'bin'); os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, name)
    run(['gcc', '-o', exe + '.tmp'] + objs + m['link'] + ['-pthread', '-lm'] + ['-Wl,--wrap=' + w for w in list(wraps or WRAPS) + list(morewraps)])
    os.rename(exe + '.tmp', exe)
    return exe
