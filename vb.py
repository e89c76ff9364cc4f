#!/usr/bin/env python3
"""Build helpers: compile Boost.Atomic from the current /repo tree together with a harness."""
import os, subprocess, sys, shutil, hashlib, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
INC = ['-I', REPO + '/include', '-I', REPO + '/src']
LIBDEF0 = ['-DBOOST_ATOMIC_NO_LIB', '-DBOOST_ATOMIC_STATIC_LINK', '-DBOOST_ATOMIC_SOURCE']
SIMD = {'none': [], 'sse2': ['-DBOOST_ATOMIC_USE_SSE2'], 'dispatch': ['-DBOOST_ATOMIC_USE_SSE2', '-DBOOST_ATOMIC_USE_SSE41'], 'static': ['-DBOOST_ATOMIC_USE_SSE2', '-DBOOST_ATOMIC_USE_SSE41', '-msse4.1']}
LIBDEF = LIBDEF0 + SIMD['dispatch']
class BuildError(Exception): pass
def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
    return r.stdout
RED = {'malloc': 'mc_malloc', 'free': 'mc_free', 'calloc': 'mc_calloc', 'realloc': 'mc_realloc', 'posix_memalign': 'mc_posix_memalign', 'aligned_alloc': 'mc_aligned_alloc',
 '_Znwm': 'mc_new', '_Znam': 'mc_new', '_ZnwmRKSt9nothrow_t': 'mc_new_nt', '_ZnamRKSt9nothrow_t': 'mc_new_nt', '_ZnwmSt11align_val_t': 'mc_new_al', '_ZnwmSt11align_val_tRKSt9nothrow_t': 'mc_new_al_nt',
 '_ZdlPv': 'mc_free', '_ZdlPvm': 'mc_free', '_ZdaPv': 'mc_free', '_ZdaPvm': 'mc_free', '_ZdlPvSt11align_val_t': 'mc_free', '_ZdlPvmSt11align_val_t': 'mc_free', '_ZdlPvRKSt9nothrow_t': 'mc_free',
 'atexit': 'mc_atexit', 'syscall': 'mc_syscall', 'nanosleep': 'mc_nanosleep', 'usleep': 'mc_usleep', 'sched_yield': 'mc_sched_yield', 'clock_nanosleep': 'mc_clock_nanosleep', 'clock_gettime': 'mc_clock_gettime',
 '_ZNSt6chrono3_V212steady_clock3nowEv': 'mc_steady_now', '_ZNSt6chrono3_V212system_clock3nowEv': 'mc_system_now',
 'memcpy': 'mc_memcpy', 'memmove': 'mc_memmove', 'memset': 'mc_memset', 'memcmp': 'mc_memcmp', 'bcmp': 'mc_memcmp', '__assert_fail': 'mc_assert_fail', 'abort': 'mc_abort'}
for k in ('init', 'destroy', 'lock', 'trylock', 'unlock'): RED['pthread_mutex_' + k] = 'mc_pm_' + k
for k in ('init', 'destroy', 'setclock'): RED['pthread_condattr_' + k] = 'mc_ca_' + k
for k in ('init', 'destroy', 'wait', 'timedwait', 'clockwait', 'signal', 'broadcast'): RED['pthread_cond_' + k] = 'mc_pc_' + k
LDS = '''SECTIONS { .data.rel.ro 0 : { *(.data.rel.ro .data.rel.ro.*) } %s 0 : { *(.data .data.* .bss .bss.* COMMON) } }'''
NOFUTEX = '''#include <sys/syscall.h>
#include <unistd.h>
#undef SYS_futex
#undef __NR_futex
'''
def mcobj(src, out, flags, section, cxx='g++'):
    """compile src with thread-access instrumentation, hook inline asm, redirect libc, collect its state into one section"""
    tsan = ['-fsanitize=thread'] + (['--param', 'tsan-distinguish-volatile=0'] if cxx == 'g++' else [])
    sh([cxx, '-std=gnu++17', '-O1', '-g0', '-mno-red-zone', '-fcf-protection=none', '-fno-asynchronous-unwind-tables', '-fno-stack-protector', '-S', '-o', out + '.s', src] + tsan + INC + flags)
    sh([sys.executable, V + '/mc/asmhook.py', out + '.s', out + '.h.s'])
    sh([cxx, '-c', '-o', out + '.1.o', out + '.h.s'])
    with open(out + '.lds', 'w') as f: f.write(LDS % section)
    sh(['ld', '-r', '--force-group-allocation', '-d', '-T', out + '.lds', '-o', out + '.2.o', out + '.1.o'])
    cmd = ['objcopy']
    for k, v in RED.items(): cmd += ['--redefine-sym', k + '=mcr_' + k]
    if section == 'mclib': cmd += [x for k in ('atexit', 'guard_acquire', 'guard_release') for x in ('--redefine-sym', '__cxa_%s=mc_%s' % (k, 'cxa_atexit' if k == 'atexit' else k))]
    sh(cmd + [out + '.2.o', out])
    for e in ('.1.o', '.2.o', '.lds', '.h.s', '.s'):
        try: os.unlink(out + e)
        except OSError: pass
    return out
class MC:
    """one configuration of the library for Engine A"""
    def __init__(s, d, name, pool=None, pthread=False, fallback=False, cxx='g++', flags=(), clockwait=False, maxt=6, simd='dispatch'):
        s.d, s.name, s.cxx, s.maxt, s.libdef = d, name, cxx, maxt, LIBDEF0 + SIMD[simd]; s.flags = list(flags) + ['-DCFG="%s"' % name, '-DMC_MAXT=%d' % maxt]
        if pool is not None: s.flags.append('-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=%d' % pool)
        s.uflags = ['-DBOOST_ATOMIC_FORCE_FALLBACK'] if fallback else []   # user code only; the library itself is never built that way
        if pthread:
            h = d + '/nofutex.h'
            if not os.path.exists(h): open(h, 'w').write(NOFUTEX)
            s.flags += ['-include', h]
        if clockwait: s.flags.append('-DBOOST_ATOMIC_HAS_PTHREAD_COND_CLOCKWAIT')
    def jobs(s):
        t = s.d + '/' + s.name
        return [(REPO + '/src/lock_pool.cpp', t + '.lp.o', s.flags + s.libdef), (REPO + '/src/find_address_sse2.cpp', t + '.f2.o', s.flags + s.libdef + ['-msse2']), (REPO + '/src/find_address_sse41.cpp', t + '.f4.o', s.flags + s.libdef + ['-msse4.1'])]
def build_mc(d, cfgs, scen, pool):
    """returns {cfg.name: binary}"""
    os.makedirs(d, exist_ok=True)
    js = [pool.submit(sh, ['g++', '-std=c++17', '-O2', '-w', '-DMC_MAXT=%d' % m, '-c', V + '/mc/rt.cpp', '-o', '%s/rt%d.o' % (d, m)]) for m in sorted(set(c.maxt for c in cfgs))]
    for c in cfgs:
        for (src, out, fl) in c.jobs(): js.append(pool.submit(mcobj, src, out, fl, 'mclib', c.cxx))
        for i, sc in enumerate(scen): js.append(pool.submit(mcobj, sc, '%s/%s.s%d.o' % (d, c.name, i), c.flags + c.uflags + ['-DBOOST_ATOMIC_NO_LIB', '-DBOOST_ATOMIC_STATIC_LINK'], 'mcstate', c.cxx))
    [j.result() for j in js]
    res = {}
    def link(c):
        o = d + '/' + c.name
        sh(['g++', '-no-pie', '-o', o] + ['%s.s%d.o' % (o, i) for i in range(len(scen))] + [o + '.lp.o', o + '.f2.o', o + '.f4.o', '%s/rt%d.o' % (d, c.maxt), '-lpthread'] + ['-Wl,--defsym=mcr_%s=%s' % kv for kv in RED.items()])
        return o
    for c in cfgs: res[c.name] = link(c)
    return res

# ------------------------------------------------------------------ Engine C
SQD = ['-DBOOST_ATOMIC_NO_LIB', '-DBOOST_ATOMIC_STATIC_LINK']
def build_seq(d, units, pool, thorough=False):
    """units: (name, source, flags, compiler, library variant). Returns {name: binary}; compile and link in parallel"""
    os.makedirs(d, exist_ok=True)
    libs = {}
    def lib(src, out, fl, cxx='g++'): return sh([cxx, '-std=gnu++17', '-O2', '-w'] + INC + LIBDEF + fl + ['-c', src, '-o', out])
    js = [pool.submit(sh, ['g++', '-std=gnu++17', '-O2', '-w'] + INC + SQD + ['-c', V + '/seq/rt.cpp', '-o', d + '/seqrt.o'])]
    for var in sorted(set(u[4] for u in units)):
        fl = []
        if var == 'pthread':
            open(d + '/nofutex.h', 'w').write(NOFUTEX); fl = ['-include', d + '/nofutex.h']
        fl += {'avx': ['-march=sandybridge'], 'O0': ['-O0'], 'O3': ['-O3'], 'O3avx2': ['-O3', '-march=haswell']}.get(var, [])
        libs[var] = []
        for s, e in (('lock_pool', []), ('find_address_sse2', []), ('find_address_sse41', ['-msse4.1'])):
            o = '%s/lib-%s-%s.o' % (d, var, s); libs[var].append(o); js.append(pool.submit(lib, REPO + '/src/%s.cpp' % s, o, fl + e, 'clang++' if var == 'clang' else 'g++'))
    res = {}
    hs = {}
    def opt(cmd):   # a unit that uses internal names: when they are gone, the unit is built empty and other units decide
        try: return sh(cmd)
        except BuildError: return sh(cmd + ['-DABSENT'])
    for (name, src, fl, cxx, var) in units:
        o = '%s/%s.o' % (d, name)
        cmd = [cxx, '-std=gnu++17', '-w'] + ([] if any(f.startswith('-O') for f in fl) else ['-O2']) + INC + SQD + list(fl) + ['-DCFG="%s"' % name] + (['-DVERIF_THOROUGH'] if thorough else []) + ['-c', src, '-o', o]
        hs[name] = pool.submit(opt if name.startswith('opt-') else sh, cmd)
    for j in js: j.result()
    def link(name, var):
        hs[name].result(); b = '%s/%s.bin' % (d, name)
        sh(['g++', '-o', b, '%s/%s.o' % (d, name), d + '/seqrt.o'] + libs[var] + ['-lpthread']); return b
    for (name, src, fl, cxx, var) in units: res[name] = link(name, var)
    return res

# ------------------------------------------------------------------ Engine B
def build_tso(d, units, pool, thorough=False):
    """units: (name, source, flags, compiler, library variant). Returns {name: binary}"""
    os.makedirs(d, exist_ok=True); res = {}
    js = [pool.submit(sh, ['g++', '-std=gnu++17', '-O2', '-w'] + INC + SQD + ['-DCFG="rt"', '-c', V + '/tso/rt.cpp', '-o', d + '/rt.o'])]
    libs = ['%s/lib-%s.o' % (d, s) for s in ('lock_pool', 'find_address_sse2', 'find_address_sse41')]
    for s, o in zip(('lock_pool', 'find_address_sse2', 'find_address_sse41'), libs): js.append(pool.submit(sh, ['g++', '-std=gnu++17', '-O2', '-w'] + INC + LIBDEF + (['-msse4.1'] if s.endswith('41') else []) + ['-c', REPO + '/src/%s.cpp' % s, '-o', o]))
    hs = {}
    for (name, src, fl, cxx, var) in units: hs[name] = pool.submit(sh, [cxx, '-std=gnu++17', '-w'] + ([] if any(f.startswith('-O') for f in fl) else ['-O2']) + INC + SQD + list(fl) + ['-DCFG="%s"' % name, '-c', src, '-o', '%s/%s.o' % (d, name)])
    for j in js: j.result()
    for (name, *_) in units:
        hs[name].result(); res[name] = '%s/%s.bin' % (d, name); sh(['g++', '-no-pie', '-o', res[name], '%s/%s.o' % (d, name), d + '/rt.o'] + libs + ['-lpthread'])
    return res
