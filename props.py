"""What is run for each property."""
import os, json, subprocess, time, glob
import vb
V = vb.V
class Ctx:
    def __init__(s, prop, tier, d, pool): s.prop, s.tier, s.d, s.pool, s.keep_going = prop, tier, d, pool, False
    @property
    def thorough(s): return s.tier == 'thorough'

# ------------------------------------------------------------------ Engine A
FX0 = ('futex-pool1', dict(pool=0)); FX1 = ('futex-pool2', dict(pool=1)); FX8 = ('futex-pool256', dict(pool=8))
PT0 = ('pthread-pool1', dict(pool=0, pthread=True)); PT8 = ('pthread-pool256', dict(pool=8, pthread=True)); PTC = ('pthread-clockwait-pool1', dict(pool=0, pthread=True, clockwait=True))
FBP8 = ('fallback-pthread-pool256', dict(pool=8, fallback=True, pthread=True)); FB0 = ('fallback-futex-pool1', dict(pool=0, fallback=True)); FBP = ('fallback-pthread-pool1', dict(pool=0, fallback=True, pthread=True)); FB8 = ('fallback-futex-pool256', dict(pool=8, fallback=True))
CL0 = ('clang-futex-pool1', dict(pool=0, cxx='clang++')); CLF = ('clang-fallback-pool1', dict(pool=0, fallback=True, cxx='clang++'))
C16 = ('cx16-16byte', dict(pool=0, flags=('-mcx16', '-DONLY16'))); C16L = ('clang-cx16-16byte', dict(pool=0, flags=('-mcx16', '-DONLY16'), cxx='clang++'))
ARCH = ('backend-gcc-x86', dict(pool=0, flags=('-include', V + '/mc/arch.h', '-DBACKEND_PLAIN'))); ARCH16 = ('backend-gcc-x86-16byte', dict(pool=0, flags=('-mcx16', '-DONLY16', '-include', V + '/mc/arch.h', '-DBACKEND_PLAIN')))
SYNC = ('backend-gcc-sync', dict(pool=0, flags=('-include', V + '/mc/sync.h', '-DBACKEND_PLAIN')))

CX11 = ('futex-pool1-c++11', dict(pool=0, flags=('-std=gnu++11',))); FB11 = ('fallback-c++11', dict(pool=0, fallback=True, flags=('-std=gnu++11',)))
CX20 = ('futex-pool1-c++20', dict(pool=0, flags=('-std=gnu++20',))); FB20 = ('clang-fallback-c++20', dict(pool=0, fallback=True, flags=('-std=gnu++20',), cxx='clang++'))

def mc(scen, quick, thorough=(), qbudget=60, tbudget=600, qargs=(), targs=('--cap-scale', '20', '--pb-plus', '1')):
    def step(ctx):
        cfgs = [vb.MC(ctx.d, n, **k) for n, k in (list(quick) + (list(thorough) if ctx.thorough else []))]
        t0 = time.time()
        bins = vb.build_mc(ctx.d, cfgs, [V + '/mc/' + s for s in scen], ctx.pool)
        tb = time.time() - t0
        tot = dict(name='engine A: ' + ' '.join(scen), states=0, transitions=0, executions=0, distinct=0, samples=[], violations=[], configs={}, build_s=round(tb, 1))
        budget = (tbudget if ctx.thorough else qbudget) / max(1, len(cfgs)) * 2
        for c in cfgs:
            j = '%s/%s.json' % (ctx.d, c.name)
            outd = '%s/replays' % vb.B; os.makedirs(outd, exist_ok=True)
            r = subprocess.run([bins[c.name], '--jobs', '8', '--budget', str(budget), '--json', j, '--out', outd, '--prop', ctx.prop + '-' + c.name] + list(targs if ctx.thorough else qargs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if not os.path.exists(j): raise vb.BuildError('engine A crashed (%s): %s' % (c.name, r.stdout[-2000:]))
            q = json.load(open(j))
            tot['states'] += q['states']; tot['transitions'] += q['transitions']; tot['executions'] += q['executions']; tot['distinct'] += q['outcomes']
            tot['samples'] += q['sample'][:4]
            tot['configs'][c.name] = {k: q[k] for k in ('scenarios', 'executions', 'transitions', 'outcomes', 'complete_dpor', 'complete_pb', 'capped', 'skipped', 'max_len')}
            for v in q['violations']:
                v['replay'] = v['replay']; v['config'] = c.name; tot['violations'].append(v)
            if r.returncode not in (0, 1): raise vb.BuildError('engine A internal error (%s): %s' % (c.name, r.stdout[-2000:]))
            if tot['violations'] and not ctx.keep_going: break
        tot['summary'] = ' '.join('%s[%d scenarios, %d executions, dpor %d, pb %d, capped %d, skipped %d]' % (n, q['scenarios'], q['executions'], q['complete_dpor'], q['complete_pb'], q['capped'], q['skipped']) for n, q in tot['configs'].items())
        return tot
    return step

STEPS = {
 'C01': [mc(['c01.cpp'], [FX0, C16, ARCH, SYNC], [CL0, C16L, ARCH16, CX11, CX20])],
 'C02': [mc(['c02.cpp'], [FX0, FB0, PT0, FBP, PT8, FB8], [CLF, FX1, FBP8, FB11, FB20])],
 'C09': [mc(['c09.cpp'], [FX0, FX8, PT0, FB0, PT8], [FX1, PTC, FBP, FB8, CL0, CX11, CX20], qbudget=200)],
}
STEPS['C08'] = [mc(['c08.cpp'], [FX0, C16, FB0, PT0], [FBP, FX8, CL0, CLF, C16L, CX11, CX20])]
STEPS['C10'] = [mc(['c10.cpp'], [FX0, PT0, FB0], [FX1, FX8, FBP, CL0, CLF])]
STEPS['C11'] = [mc(['c11.cpp'], [FX0, PT0, FB0, CX11], [FX8, PT8, PTC, FBP, CL0, FB11, CX20, FB20])]
STEPS['C12'] = [mc(['c12.cpp'], [FX0, PT0, FB0], [FBP, FX1, PT8, FX8, ('futex-pool1-deep', dict(pool=0, flags=('-DDEEP',))), ('pthread-pool1-deep', dict(pool=0, pthread=True, flags=('-DDEEP',)))])]
STEPS['C13'] = [mc(['c13.cpp'], [FX0, PT0, FB0], [FX1, FBP, FB8, CL0, CLF])]
STEPS['C14'] = [mc(['c14.cpp'], [FX0, PT0, C16], [FX8, CL0, C16L])]
STEPS['C18'] = [mc(['c18.cpp'], [FX0, PT0, PTC, FB0, FBP, CX11, FB11], [FX8, PT8, CL0, CLF, CX20, FB20])]
STEPS['C19'] = [mc(['c19.cpp'], [FX0, PT0, FB0, FBP, ARCH, SYNC], [FX8, CL0, CLF, CX11, CX20])]
STEPS['C20'] = [mc(['c20.cpp'], [FX0, PT0], [FB0, FBP, FX8, CL0])]
STEPS['C21'] = [mc(['c21.cpp'], [FX0, PT0, FB0, FX8], [FBP, FX1, PT8, CL0])]

# ------------------------------------------------------------------ Engine C
def seq(name, quick, thorough=(), qlimit=300, tlimit=3000, engine='C', build=vb.build_seq):
    """units: (name, source, flags, compiler, library variant)"""
    def step(ctx):
        units = list(quick) + (list(thorough) if ctx.thorough else [])
        t0 = time.time(); d = ctx.d + '/' + engine
        bins = build(d, units, ctx.pool, ctx.thorough); tb = time.time() - t0
        outd = '%s/replays' % vb.B; os.makedirs(outd, exist_ok=True)
        tot = dict(name='engine %s: ' % engine + name, states=0, transitions=0, executions=0, distinct=0, samples=[], violations=[], units={}, build_s=round(tb, 1))
        def one(u):
            j = '%s/%s.json' % (d, u[0])
            try: r = subprocess.run([bins[u[0]], '--json', j, '--out', outd, '--prop', ctx.prop + '-' + u[0]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=tlimit if ctx.thorough else qlimit)
            except subprocess.TimeoutExpired: raise vb.BuildError('engine %s: %s exceeded its time limit' % (engine, u[0]))
            if not os.path.exists(j): raise vb.BuildError('engine %s crashed (%s): %s' % (engine, u[0], r.stdout[-2000:]))
            return json.load(open(j))
        rs = [(u, ctx.pool.submit(one, u)) for u in units]
        for u, f in rs:
            q = f.result()
            tot['states'] += q['states']; tot['transitions'] += q['transitions']; tot['executions'] += q['transitions']; tot['distinct'] += q['distinct']
            tot['samples'] += q['samples'][:2]; tot['units'][u[0]] = q['transitions']; tot['violations'] += q['violations']
        tot['summary'] = '%d builds, %d transitions' % (len(units), tot['transitions'])
        return tot
    return step

def S(f): return V + '/seq/' + f
FBF = '-DBOOST_ATOMIC_FORCE_FALLBACK'
def U(name, src, *fl, cxx='g++', lib='futex'): return (name, S(src), tuple(fl), cxx, lib)
ARCHF = ('-include', V + '/mc/arch.h'); SYNCF = ('-include', V + '/mc/sync.h')
INTS = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t']
def c03_units():
    q, t = [], []
    for ty in INTS + ['wchar_t', 'char16_t', 'char', 'u128_', 'i128']:
        cx = ('-mcx16',) if '128' in ty else ()
        full = ty in INTS or '128' in ty
        for p in ((1, 2, 3) if full else (1,)): q.append(U('gcc-%s-%d' % (ty, p), 'c03.cpp', '-DTY=' + ty, '-DPART=%d' % p, *cx))
        for p in (1, 2, 3): (q if full and ty != 'int16_t' and p < 3 else t).append(U('clang-%s-%d' % (ty, p), 'c03.cpp', '-DTY=' + ty, '-DPART=%d' % p, *cx, cxx='clang++'))
        for k, fl in (('arch', ARCHF), ('sync', SYNCF)):
            for p in (1, 2): (q if ty.startswith('u') and p == 1 else t).append(U('%s-%s-%d' % (k, ty, p), 'c03.cpp', '-DTY=' + ty, '-DPART=%d' % p, *cx, *fl))
            t.append(U('%s-clang-%s' % (k, ty), 'c03.cpp', '-DTY=' + ty, '-DPART=1', *cx, *fl, cxx='clang++'))
        (q if ty in ('int8_t', 'uint16_t', 'int32_t', 'uint64_t') else t).append(U('fallback-%s' % ty, 'c03.cpp', '-DTY=' + ty, '-DPART=1', FBF))
        t.append(U('fallback-pthread-%s' % ty, 'c03.cpp', '-DTY=' + ty, '-DPART=1', FBF, lib='pthread')); t.append(U('fallback-k-%s' % ty, 'c03.cpp', '-DTY=' + ty, '-DPART=2', FBF))
        (q if ty in ('int8_t', 'uint64_t') else t).append(U('gcc11-%s' % ty, 'c03.cpp', '-DTY=' + ty, '-DPART=1', '-std=gnu++11')) if '128' not in ty else None
        t.append(U('gcc20-%s' % ty, 'c03.cpp', '-DTY=' + ty, '-DPART=1', '-std=gnu++20', *cx)); t.append(U('clang20-%s' % ty, 'c03.cpp', '-DTY=' + ty, '-DPART=2', '-std=gnu++20', *cx, cxx='clang++'))
        if '128' in ty: q.append(U('gcc-emulated-%s' % ty, 'c03.cpp', '-DTY=' + ty, '-DPART=1'))
        for o in ('-O0', '-O3', '-Os'):
            for p in (1, 2): (q if o == '-O0' and ty in ('uint8_t', 'int64_t') and p == 1 else t).append(U('gcc%s-%s-%d' % (o, ty, p), 'c03.cpp', '-DTY=' + ty, '-DPART=%d' % p, o, *cx))
    for ty in INTS + ['i128']:
        cx = ('-mcx16',) if '128' in ty else ()
        (q if ty in ('uint8_t', 'int16_t', 'int32_t', 'uint64_t') else t).append(U('enum-%s' % ty, 'c03.cpp', '-DTY=' + ty, '-DENUM', *cx)) if '128' not in ty else None
        if '128' not in ty: t.append(U('uenum-%s' % ty, 'c03.cpp', '-DTY=' + ty, '-DENUM=2')); t.append(U('enum-fallback-%s' % ty, 'c03.cpp', '-DTY=' + ty, '-DENUM', FBF)); t.append(U('enum-clang-%s' % ty, 'c03.cpp', '-DTY=' + ty, '-DENUM', cxx='clang++'))
    q.append(U('bool', 'c03.cpp', '-DTY=int', '-DBOOL')); q.append(U('bool-fallback', 'c03.cpp', '-DTY=int', '-DBOOL', FBF)); q.append(U('bool-clang', 'c03.cpp', '-DTY=int', '-DBOOL', cxx='clang++'))
    return q, t
def c04_units():
    q, t = [], []
    for ty in ('float', 'double', 'ldbl', 'f128'):
        for n, fl, cxx in (('gcc', (), 'g++'), ('clang', (), 'clang++'), ('fallback', (FBF,), 'g++'), ('cx16', ('-mcx16',), 'g++'), ('arch', ARCHF, 'g++'), ('sync', SYNCF, 'g++'), ('c++11', ('-std=gnu++11',), 'g++'), ('clang-c++20', ('-std=gnu++20',), 'clang++'), ('O0', ('-O0',), 'g++'), ('O3', ('-O3',), 'g++'), ('clang-fallback', (FBF,), 'clang++'), ('clang-cx16', ('-mcx16',), 'clang++')):
            if n in ('arch', 'sync') and ty not in ('float', 'double'): continue
            if 'cx16' in n and ty not in ('ldbl', 'f128'): continue
            (q if n in ('gcc', 'clang', 'fallback', 'cx16', 'arch', 'sync') or (n, ty) == ('c++11', 'double') else t).append(U('%s-%s' % (n, ty), 'c04.cpp', '-DTY=' + ty, *fl, cxx=cxx))
    return q, t
def c05_units():
    q, t = [], []
    for p in (1, 2, 3):
        for n, fl, cxx in (('gcc', (), 'g++'), ('clang', (), 'clang++'), ('fallback', (FBF,), 'g++'), ('arch', ARCHF, 'g++'), ('sync', SYNCF, 'g++'), ('c++11', ('-std=gnu++11',), 'g++'), ('clang-c++20', ('-std=gnu++20',), 'clang++'), ('O0', ('-O0',), 'g++'), ('O3', ('-O3',), 'g++'), ('clang-fallback', (FBF,), 'clang++')):
            (q if n in ('gcc', 'clang', 'fallback') or (p == 1 and n in ('arch', 'sync', 'c++11')) else t).append(U('%s-%d' % (n, p), 'c05.cpp', '-DPART=%d' % p, *fl, cxx=cxx))
    return q, t
def hist_units(parts, qextra=()):
    q, t = [], []
    for p in parts:
        for n, fl, cxx in (('gcc', (), 'g++'), ('clang', (), 'clang++'), ('fallback', (FBF,), 'g++'), ('cx16', ('-mcx16',), 'g++'), ('arch', ARCHF, 'g++'), ('sync', SYNCF, 'g++'), ('c++11', ('-std=gnu++11',), 'g++'), ('clang-c++20', ('-std=gnu++20',), 'clang++'), ('O0', ('-O0',), 'g++'), ('O3', ('-O3',), 'g++'), ('clang-cx16', ('-mcx16',), 'clang++'), ('arch-cx16', ARCHF + ('-mcx16',), 'g++')):
            (q if n == 'gcc' or (n == 'c++11' and p in (3, 5, 10)) or (n in ('clang', 'fallback', 'cx16') and (p < 10 or p < 12)) else t).append(U('%s-%d' % (n, p), 'hist.cpp', '-DPART=%d' % p, *fl, cxx=cxx))
    return q, t
STEPS['C03'] = [seq('integer operations', *c03_units())]
STEPS['C04'] = [seq('floating point operations', *c04_units())]
STEPS['C05'] = [seq('pointer operations', *c05_units())]
STEPS['C06'] = [seq('compare-exchange histories', *hist_units(range(1, 9)))]
STEPS['C22'] = [seq('value transfer histories', *hist_units([3, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15]))]

def SV(n, simd, **k): return (n, dict(pool=0, maxt=25, simd=simd, **k))
STEPS['C15'] = [seq('lookup variants', [U('opt-gcc', 'c15.cpp'), U('opt-avx', 'c15.cpp', lib='avx'), U('opt-clang', 'c15.cpp', cxx='clang++', lib='clang'), U('opt-O0', 'c15.cpp', lib='O0')], [U('opt-O3', 'c15.cpp', lib='O3'), U('opt-O3avx2', 'c15.cpp', lib='O3avx2')]),
    mc(['c15.cpp'], [SV('waiters-dispatch', 'dispatch'), SV('waiters-portable', 'none'), SV('waiters-sse2', 'sse2'), SV('waiters-static-sse41', 'static'), SV('waiters-pthread', 'dispatch', pthread=True)], [SV('waiters-deep', 'dispatch', flags=('-DDEEP',)), SV('waiters-clang', 'dispatch', cxx='clang++', flags=('-DDEEP',)), SV('waiters-fallback', 'dispatch', fallback=True, flags=('-DDEEP',))])]

# ------------------------------------------------------------------ Engine B
def tso(name, quick, thorough=()): return seq(name, quick, thorough, engine='B', build=vb.build_tso)
def T(f): return V + '/tso/' + f
TKIND = {'float': 1, 'double': 1, 'ldbl': 1, 'iptr': 2, 'Blob<1>': 3, 'Blob<2>': 3, 'Blob<3>': 3, 'Blob<8>': 3, 'Blob<16>': 3, 'Words<2>': 3, 'Words<4>': 3, 'Words<3>': 3, 'Blob<9>': 3}
T16 = ('i128', 'u128_', 'ldbl', 'Blob<16>', 'Blob<9>', 'Words<4>', 'Words<3>')
def TU(src, ty, cfg, *fl, cxx='g++'): return ('%s-%s' % (cfg, ty.replace('<', '').replace('>', '')), T(src), ('-DTY=' + ty, '-DKIND=%d' % TKIND.get(ty, 0)) + (('-mcx16',) if ty in T16 else ()) + fl, cxx, '-')
TALL = ('uint8_t', 'int8_t', 'int16_t', 'uint16_t', 'uint32_t', 'int32_t', 'int64_t', 'uint64_t', 'i128', 'u128_') + tuple(TKIND)
def tso_units(src, quick, flags=()):
    q, t = [], []
    for cfg, fl, cxx in (('gcc', (), 'g++'), ('clang', (), 'clang++'), ('arch', ARCHF, 'g++'), ('sync', SYNCF, 'g++'), ('avx', ('-march=sandybridge',), 'g++'), ('O1', ('-O1',), 'g++'), ('O3', ('-O3', '-march=haswell'), 'g++'), ('O0', ('-O0',), 'g++'), ('clang-avx', ('-march=sandybridge',), 'clang++'), ('clang-arch', ARCHF, 'clang++'), ('arch-O3', ARCHF + ('-O3',), 'g++')):
        for ty in TALL:
            if cfg == 'O0' and TKIND.get(ty, 0) == 0 and src == 'c08.cpp': continue
            (q if ty in quick.get(cfg, ()) else t).append(TU(src, ty, cfg, *(fl + flags), cxx=cxx))
    return q, t
STEPS['C07'] = [tso('litmus programs of seq_cst operations and fences', *tso_units('c07.cpp', {'gcc': ('uint8_t', 'int16_t', 'uint32_t', 'int64_t', 'i128', 'float', 'double', 'ldbl', 'iptr', 'Blob<1>', 'Blob<2>', 'Blob<3>', 'Blob<8>', 'Words<4>'), 'clang': ('int32_t', 'uint64_t', 'Blob<2>', 'double', 'Words<4>'), 'arch': ('uint8_t', 'uint16_t', 'int32_t', 'uint64_t', 'Words<4>', 'double', 'Blob<2>'), 'sync': ('int8_t', 'int16_t', 'uint32_t', 'int64_t', 'Words<4>', 'float'), 'avx': ('u128_', 'Words<4>', 'ldbl'), 'clang-avx': ('Blob<16>',)}))]
STEPS['C08'].append(tso('message passing programs in compiled code', *tso_units('c08.cpp', {'gcc': ('uint8_t', 'int16_t', 'uint32_t', 'int64_t', 'i128', 'double', 'ldbl', 'iptr', 'Blob<2>'), 'clang': ('int32_t',), 'arch': ('int8_t', 'uint16_t', 'int32_t', 'uint64_t', 'Words<4>'), 'sync': ('uint8_t', 'int16_t', 'uint32_t', 'int64_t'), 'avx': ('u128_', 'Words<4>')})))
STEPS['C01'].append(tso('single operations in parallel, in compiled code', *tso_units('c07.cpp', {'gcc': ('uint8_t', 'int16_t', 'uint32_t', 'int64_t', 'i128', 'double', 'ldbl', 'iptr', 'Blob<3>', 'Words<3>'), 'clang': ('int32_t', 'uint64_t', 'u128_'), 'arch': ('int8_t', 'uint16_t', 'int32_t', 'uint64_t', 'i128'), 'sync': ('uint8_t', 'int16_t', 'uint32_t', 'int64_t'), 'avx': ('u128_', 'Words<4>', 'ldbl', 'Blob<9>'), 'clang-avx': ('u128_',)}, ('-DPAR',))))

CX16A = ('cx16-all', dict(pool=0, flags=('-mcx16', '-DCX16')))
STEPS['C17'] = [mc(['c17.cpp'], [FX0, FB0, PT0, CX16A, ARCH, SYNC, CL0], [('clang-cx16-all', dict(pool=0, flags=('-mcx16', '-DCX16'), cxx='clang++')), ('backend-gcc-x86-cx16', dict(pool=0, flags=('-mcx16', '-DCX16', '-include', V + '/mc/arch.h', '-DBACKEND_PLAIN'))), CLF, PTC, CX11, CX20])]
STEPS['C16'] = [mc(['c16.cpp'], [FX0, FB0, C16], [PT0, CL0, ARCH, SYNC, C16L, ARCH16]),
    tso('placements at the end of a cache line', *tso_units('c07.cpp', {'gcc': ('uint8_t', 'int16_t', 'uint32_t', 'int64_t', 'i128', 'double', 'iptr', 'Blob<2>', 'Blob<3>', 'Blob<8>', 'Words<2>', 'Blob<16>', 'Words<4>'), 'clang': ('Blob<2>', 'Words<2>', 'Blob<16>', 'uint64_t'), 'arch': ('Blob<2>', 'Words<2>', 'Blob<16>', 'uint32_t'), 'sync': ('Blob<2>', 'Words<2>', 'Blob<8>'), 'avx': ('Blob<16>', 'Words<4>')}, ('-DPAR', '-DPLACE'))),
    seq('references and atomics give the same results', *hist_units([3, 5, 6, 7]))]

STEPS['C06'].append(mc(['c06.cpp'], [FX0, FBP, CX16A], [FB0, PT0, CL0, ('clang-cx16-all', dict(pool=0, flags=('-mcx16', '-DCX16'), cxx='clang++')), ARCH, SYNC], qbudget=120))
STEPS['C04'].append(mc(['c04.cpp'], [FX0, FB0, FBP, CX16A, ARCH, SYNC], [PT0, CL0, CLF, ('backend-gcc-x86-cx16', dict(pool=0, flags=('-mcx16', '-DCX16', '-include', V + '/mc/arch.h', '-DBACKEND_PLAIN')))], qbudget=120))

# ------------------------------------------------------------------ MANIFEST notes: technique, level_note
A_TECH = 'stateless model checking of the real code: DPOR / preemption-bounded exploration of all interleavings under a controlled scheduler (Engine A)'
A_TRUST = ' Trusts the gcc/clang instrumentation, the models of futex/pthread/clock/malloc in mc/rt.cpp and the bounds of the listed scenarios; sequentially consistent interleavings plus happens-before race detection with the memory orders the code requests.'
B_TECH = 'explicit-state model checking of the compiled machine code under x86-TSO: all interleavings of memory accesses and store-buffer flushes of small programs, results compared with all sequential interleavings (Engine B)'
B_TRUST = ' Machine code is single-stepped and its accesses to the shared page executed by the checker with per-thread store buffers; trusts that model of x86-TSO, the instruction classification in tso/rt.cpp and the listed program shapes.'
C_TECH = 'explicit-state enumeration on the real code: every operation from every object state (or every operation history up to a depth) over stated alphabets, each step compared with a plain-variable reference (Engine C)'
C_TRUST = ' Sequential; concurrency of the same operations is decided by C01/C02 and the Engine A steps. Trusts the compilers and the reference computation in common/ops.h.'
NOTES = {
 'C15': ('explicit enumeration of all (list length, key position, near-miss) points of the real lookup variants (Engine C) and execution of all arrival/departure histories of a stated family under the controlled scheduler (Engine A)', 'Lookup: lengths 0..68 (thorough 100) x every key position or absent x near-miss elements sharing halves, against linear search, gcc/clang/AVX builds. Public interface: 1..24 simultaneously waited-on objects (also with addresses sharing halves), every first leaver with both orders of the rest and strided orders, one schedule each.'),
 'C01': (A_TECH + '; explicit-state exploration of the compiled code under x86-TSO (Engine B)', 'All interleavings (up to happens-before equivalence) of all operation pairs and chosen triples on lock-free objects of 1-16 bytes, for the intrinsics backend, the inline-assembly backend and the __sync backend; linearizability decided per execution; inline assembly executed at the granularity of its locked / unlocked memory accesses. Engine B repeats operation pairs on natively compiled code (gcc, clang, AVX).' + A_TRUST),
 'C07': (B_TECH, 'Store-buffering (2 and 3 threads), R, 2+2W, IRIW, write-to-read causality and fence programs over the writing and reading operations of every lock-free type class and flavour, gcc / clang, intrinsics, inline-assembly, __sync and AVX code.' + B_TRUST),
 'C08': (A_TECH + '; message passing programs on compiled code under x86-TSO (Engine B)', 'Message-passing, release-sequence, transitivity, fence and wait programs over (operation, order) x (operation, order); data races decided by vector clocks built from the orders that reach the compiler intrinsics and assembly.' + A_TRUST),
 'C16': (A_TECH + '; explicit-state exploration of compiled code under x86-TSO with objects at every permitted cache-line end (Engine B); exhaustive operation histories (Engine C)', 'All schedules of every operation against an unsynchronized reader of the 16 bytes on either side (a write of any of them is a data race), neighbouring elements operated on concurrently, all pairs of reference kinds to one object; objects at the offsets their required alignment permits, accesses crossing a line being split; all flavours, sizes 1-48, lock-free and lock-based.' + A_TRUST),
 'C17': (A_TECH, 'Every operation x order x flavour x type (alone and contended) with all accesses to the library static state and all blocking calls counted; wait forms of natively waiting types in all interleavings with a notifier; constants, members and macros compared for every type and flavour in seven configurations.' + A_TRUST),
 'C14': (A_TECH, 'All interleavings of two parties operating through two mappings of one memory object; the futex model keys private futexes by mapping, shared ones by memory object.' + A_TRUST),
 'C19': (A_TECH, 'All interleavings of 2-3 threads of flag operations incl. spin locks and waits and all sequential histories; plain, ipc and forced-fallback flags.' + A_TRUST),
 'C02': (A_TECH, 'All interleavings (up to happens-before equivalence, or all with <=2 preemptions where capped) of pairs/triples of operations on lock-based objects of all type classes; linearizability and race freedom decided per execution.' + A_TRUST),
 'C09': (A_TECH, 'All interleavings of 1-3 waiters/notifiers programs x wait forms x object kinds, both lock implementations, pool sizes 1/2/256; lost wake-ups show up as deadlock or as an expired kernel timeout.' + A_TRUST),
 'C10': (A_TECH, 'All interleavings and spurious wake-ups (budget 1) of wait/notify programs that notify without change, change back, touch other objects, and of values differing from old in every single byte position.' + A_TRUST),
 'C11': (A_TECH, 'All interleavings of timed waits with stores/notifications and every placement of clock advances (budgeted) around the deadline, clock adjustments included; result/timeout/deadline conditions checked at the return of each wait.' + A_TRUST),
 'C12': (A_TECH, 'All interleavings of 2-3 threads using different objects that share one lock-pool slot / wait state; results must equal those of separate resources, plus exhaustive sequential histories of waited-on objects.' + A_TRUST),
 'C13': (A_TECH, 'All interleavings of operations, waits and notifications sharing locks; deadlock, livelock and missed lock hand-off appear as executions that do not end. Termination under fair scheduling only (a polling thread yields to starved ones).' + A_TRUST),
 'C18': (A_TECH, 'Exhaustive enumeration of clocks x duration units x boundary magnitudes x clock positions (a finite boundary alphabet), each explored over all schedules; the deadline the kernel model actually receives is compared with exact 128-bit arithmetic.' + A_TRUST),
 'C20': (A_TECH, 'All placements of <=4 allocation failures and <=2 adverse kernel answers (EINTR, spurious) in all interleavings of wait/notify programs.' + A_TRUST),
 'C21': (A_TECH, 'All placements of the exit handlers in all interleavings of waits before, during and after exit; live allocations counted at the end.' + A_TRUST),
 'C03': (C_TECH, 'All (state, operation, operand, order) transitions: full state spaces for 8-bit types, all 16-bit states with boundary operands, boundary alphabets for wider types; compile-time operands from an alphabet; gcc/clang, three backends, lock-based fallback; since a transition depends only on the object representation, the 8-bit result covers histories of any length.' + C_TRUST),
 'C04': (C_TECH + '; all interleavings of concurrent programs of these operations (Engine A)', 'All pairs over an alphabet of FP classes and rounding boundaries (with garbage padding for long double), 4 rounding modes, all flavours. Concurrent programs: results must be those of plain FP expressions in some sequential order, over order-sensitive operands, NaN, infinities and both zeros.' + C_TRUST),
 'C05': (C_TECH, 'All combinations of element size, base, distance and operation from boundary alphabets, all flavours.' + C_TRUST),
 'C06': (C_TECH + '; all interleavings of concurrent compare-exchange programs with different padding bits in every copy (Engine A)', 'All operation histories of depth 2-3 (thorough: 3-4) over value x padding alphabets for padded/unpadded types; every single value bit. Concurrent: pairs and triples of compare-exchanges, ABA histories, retry loops, spurious failures of weak forms, waits on padded values.' + C_TRUST),
 'C22': (C_TECH, 'All operation histories of depth 1-3 over value alphabets for sizes 1..64 x alignments; every single value bit through every transfer.' + C_TRUST),
}

# ------------------------------------------------------------------ conformance of the kernel model
def conform(ctx):
    """the same table of system call scripts is checked in the model (all interleavings) and against the running kernel"""
    d = ctx.d + '/conf'; os.makedirs(d, exist_ok=True)
    c = vb.MC(d, 'kernel-model', pool=0)
    b = vb.build_mc(d, [c], [V + '/mc/kconf.cpp'], ctx.pool)[c.name]
    n = d + '/native'; vb.sh(['g++', '-std=c++17', '-O1', '-w', '-DNATIVE', V + '/mc/kconf.cpp', '-o', n, '-lpthread'])
    r = subprocess.run([b, '--jobs', '4', '--budget', '60', '--json', d + '/j', '--out', d, '--prop', 'kconf'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode: raise vb.BuildError('the kernel model fails its conformance scripts: ' + r.stdout[-1500:])
    q = json.load(open(d + '/j'))
    try: nat = subprocess.run([n], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=90).stdout.strip()
    except subprocess.TimeoutExpired: nat = 'not available (time limit)'
    return dict(name='conformance of the futex model', summary='%d scripts, %d executions in the model; kernel: %s' % (q['scenarios'], q['executions'], nat.splitlines()[-1] if nat else 'no answer'), states=q['states'], transitions=q['transitions'], executions=q['executions'], distinct=q['outcomes'], samples=[], violations=[], native=nat)
for p_ in ('C09', 'C14', 'C20'): STEPS[p_].append(conform)
