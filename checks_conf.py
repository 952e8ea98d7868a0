# What each check compiles and runs.  A TU is one harness shard:
#   src, defs (-DVERIF_k=v), flags, libs, cxx, repo_src, wrap, env, limit, tier, optional, cost
ENG_PRE = ['GRP_PRE%d' % i for i in range(6)]
ENG_REC = ['GRP_REC%d' % i for i in range(6)]
ENG_ADP = ['GRP_ADP%d' % i for i in range(5)]
ENG_ALL = ENG_PRE + ENG_REC + ENG_ADP
def eng(prop, groups):
    cost = {'GRP_ADP3': 5, 'GRP_ADP2': 5, 'GRP_REC1': 5, 'GRP_REC0': 4, 'GRP_REC2': 5}
    return [dict(src='eng.cpp', defs=dict(PROP=prop, GROUP=g), cost=cost.get(g, 3), flags=['-O1']) for g in groups]

CHECKS = {}
def check(pid, technique, note, rule, tus, **kw):
    CHECKS[pid] = dict(technique=technique, note=note, rule=rule, tus=tus, **kw)

REFMODEL = 'run-time monitoring of the real engines against an independent 128-bit reference model, value by value'
check('P01', 'run-time monitor: every value of every engine is compared with the advertised bounds, over seeds, word lists and operation histories',
      'about 85 million values in the quick tier; the engines are unbounded, so this is exploration',
      'one evaluation per value (or bound) compared; distinct = (engine, seed or history) pairs', eng(1, ENG_ALL), min_evals=1000000)
check('P02', REFMODEL + '; the standard library engines and lrand48 as second oracles',
      'all 34 predefined engines, all seeding routes', 'one evaluation per value compared with the model; distinct = (engine, seed) pairs',
      eng(2, ENG_PRE), min_evals=1000000)
check('P03', REFMODEL, '73 instantiations that reach the corner cases of each recurrence (moduli near the word size, power of two moduli, signed words, words narrower than the type, short lags)',
      'one evaluation per value compared with the model; distinct = (engine, seed) pairs', eng(3, ENG_REC), min_evals=1000000)
check('P04', REFMODEL, '59 adaptor instantiations, nested ones included', 'one evaluation per value compared with the model; distinct = (engine, seed) pairs',
      eng(4, ENG_ADP), min_evals=1000000)
check('P05', 'run-time differential monitor: discard(j) against j single draws from the same state, closed forms and additivity for huge j',
      'positions across the whole state buffer and lengths around every block boundary', 'one evaluation per state or value comparison; distinct = (engine, position, length)',
      eng(5, ENG_ALL), min_evals=100000)
check('P06', 'run-time monitor: seeding through every route on fresh and used engines, instrumented iterators and seed sequences that record what is read, reference model for the resulting state',
      'all engines; all range lengths near the needed one', 'one evaluation per comparison; distinct = (engine, seed)', eng(6, ENG_ALL), min_evals=1000000)
check('P07', 'run-time monitor: save and restore at recorded positions of a running engine, followed in lock step afterwards',
      'every position of two state buffers for engines of ordinary size, block boundaries for the long lagged Fibonacci engines', 'one evaluation per value or text comparison; distinct = (engine, position)', eng(7, ENG_ALL), min_evals=1000000)
check('P08', 'run-time monitor: engines brought to the same or to different points by different operation histories, equality compared with the observed futures',
      'histories of draws, discards, saving, copying and reseeding', 'one evaluation per equality or value comparison; distinct = (engine, history)', eng(8, ENG_ALL), min_evals=100000)
check('P09', 'run-time monitor: seed_seq against std::seed_seq word by word; generate() of every engine into guarded ranges of several types, compared with itself and tested for uniformity',
      'all engines as sources plus 40 ideal sources whose ranges cover every packing case', 'one evaluation per word or request checked; distinct = (source, length) pairs',
      [dict(src='gen.cpp', defs=dict(GROUP=g), cost=3, flags=['-O1']) for g in ENG_ALL] + [dict(src='gen.cpp', defs=dict(PART=p), cost=5, flags=['-O1']) for p in (1, 2)], min_evals=1000000)
UB = ['uint8_t', 'int8_t', 'uint16_t', 'int16_t', 'uint32_t', 'int32_t', 'uint64_t', 'int64_t', 'float', 'double', 'ldouble']
def uint(prop): return [dict(src='uint.cpp', defs=dict(PROP=prop, B=b), cost=3, flags=['-O1', '-include', 'cstdint']) for b in UB]
check('P10', 'run-time monitor: scripted and ideal engines of every type and range drive uniform_int_distribution, uniform_int and random_number_generator; every result is compared with the requested bounds and small requests must show every value',
      '11 engine types x 9 request types, thousands of (engine range, request) pairs with hostile engine outputs', 'one evaluation per result checked; distinct = (engine range, request) pairs', uint(10), min_evals=1000000)
check('P11', 'run-time monitor: all engine output sequences up to a length are fed to the distribution and the occurrences of each result are counted; ideal engines and chi-square for large ranges',
      'exhaustive per (engine range, request) pair within the enumeration budget, statistical beyond', 'one evaluation per engine sequence or draw; distinct = (engine range, request) pairs', uint(11), reps=1, min_evals=1000000)
check('P12', 'run-time monitor: full cycles of engine values are fed to uniform_smallint, occurrences and engine calls counted',
      'full cycles of up to 65536 integer and 2^24 real engine values; extreme and random values for larger engines', 'one evaluation per engine value; distinct = (engine range, request) pairs', uint(12), min_evals=1000000)
RT = ['float', 'double', 'ldouble']
import os
HERE = os.path.dirname(os.path.abspath(__file__))
INC = ['-O1', '-include', 'cstdint', '-include', 'memory']
check('P13', 'run-time monitor: scripted engines of every type feed extreme, near-extreme and random values; every uniform_01, uniform_real and generate_canonical result is compared with exact rational arithmetic, every engine call counted',
      '11 engine types x 3 real types, 12 bit counts, about 30 intervals', 'one evaluation per result, engine count or bound checked; distinct = (function, engine range, script)',
      [dict(src='canon.cpp', defs=dict(B=b), cost=4, flags=INC) for b in UB], min_evals=1000000)
def dist(prop, fams=(1, 2, 3), extra=()): return [dict(src='dist.cpp', defs=dict(PROP=prop, T=t, FAM=f), cost=6 if f == 3 else 5, flags=INC) for f in fams for t in RT]
check('P14', 'run-time monitor: all distributions and parameter sets, ordinary and extreme, driven by 15 kinds of engine in 7 hostile modes; every value compared with the support',
      'hostile engine outputs: extremes, near extremes, runs, lone extremes', 'one evaluation per value; distinct = (distribution, engine, mode, value index) with differing values', dist(14), min_evals=1000000)
check('P15', 'run-time statistical monitor: values of every continuous distribution compared with the reference distribution function (Kolmogorov-Smirnov, chi-square on up to 400 cells and tail cells, serial pairs)',
      '24 engines of all widths; thresholds beyond 6 standard deviations', 'one evaluation per value and test; distinct = (distribution, parameters, engine)', dist(15, (1, 2)), min_evals=1000000)
check('P16', 'run-time statistical monitor: counts of every value of every counting distribution compared with the exact probability function',
      '24 engines of all widths; parameters on both sides of each algorithm switch', 'one evaluation per value and test; distinct = (distribution, parameters, engine)', dist(16, (3,)), min_evals=1000000)
check('P21', 'run-time monitor: engine values counted for every result of every distribution, with a budget per result and on average',
      '15 kinds of engine from 8 to 64 bits', 'one evaluation per result; distinct = (distribution, parameters, engine)', dist(21), min_evals=1000000)
check('P17', 'run-time monitor: all engine value sequences up to a depth are fed to discrete_distribution and the probability mass of each outcome is compared with its weight; counts and extreme second values for every bin of large tables; reported probabilities and all construction routes compared with the given weights',
      'exhaustive over engine sequences for small weight vectors, chi-square for vectors of up to 30000 (thorough: 300000) weights; hyperexponential phases told apart by widely separated rates', 'one evaluation per engine sequence, draw, bin or reported value; distinct = (weights, engine range, kind of call)',
      [dict(src='weights.cpp', defs=dict(W=w), cost=5, flags=INC + (['-DVERIF_REALW'] if w in RT else [])) for w in RT + UB[:8]], min_evals=1000000)
check('P18', 'run-time monitor: length of every point from scripted hostile engines; coordinates, projections, angles, orthants and serial products compared with the exact marginal laws',
      'dimensions 0 to 1000, three containers, 3 real types', 'one evaluation per point or statistic; distinct = (dimension, engine, value)',
      [dict(src='sphere.cpp', defs=dict(T=t), cost=5, flags=INC) for t in RT], min_evals=100000)
def param(prop): return [dict(src='param.cpp', defs=dict(PROP=prop, T=t, FAM=f), cost=8, flags=INC) for f in (3, 4, 1, 2) for t in RT]
check('P19', 'run-time differential monitor: accessors and values of every distribution after construction from arguments or parameters, setting, copying, assigning, reset and per-call parameters, in used and unused objects, against a fresh object',
      'all distributions and parameter sets, 5 engines, every number of earlier draws up to 7', 'one evaluation per comparison; distinct = (distribution, parameters, engine, earlier draws)', param(19), min_evals=100000)
check('P20', 'run-time differential monitor: every distribution and parameter object written to and read from narrow and wide streams in 9 formats, into default, other and used objects, then followed in lock step',
      'all distributions and parameter sets, 5 engines, distributions with cached values saved after 0 to 5 draws', 'one evaluation per comparison; distinct = (distribution, parameters, format or engine)', param(20), min_evals=100000)
def qrng(prop): return [dict(src='qrng.cpp', defs=dict(PROP=prop, Q=q), cost=6, flags=INC) for q in (1, 2, 3)]
check('P22', 'run-time differential monitor: every vector of the three quasi-random engines compared coordinate by coordinate with an independent generator built from the published polynomials, direction numbers and the Faure construction; aligned blocks tested for stratification',
      'all supported dimensions; result types of 8 to 64 bits and real types', 'one evaluation per coordinate or block; distinct = (engine, dimension, point)', qrng(22), min_evals=1000000)
check('P23', 'run-time differential monitor: seeding, discarding, drawing, saving, restoring and copying quasi-random engines in random histories, followed in lock step with a freshly positioned engine',
      'positions inside vectors, around powers of two and at the end of the sequence; restoring across dimensions', 'one evaluation per comparison; distinct = (engine, dimension, history)', qrng(23), min_evals=100000)
check('P24', 'run-time monitor: engines drawn, discarded and seeded to and past the end of their sequence, constructed with every unsupported dimension, and used after each error',
      'sequence size types from 8 to 64 bits, signed ones included, so that the real end is reached', 'one evaluation per draw, error or count; distinct = (engine, dimension, route)', qrng(24), min_evals=10000)
check('P25', 'run-time monitor: interposed open, read and close serve scripted bytes to random_device with short reads, end of file and errors, and account for every byte and descriptor',
      'all splits of short requests, faults at every call', 'one evaluation per word, call or descriptor check; distinct = (script, request)',
      [dict(src='rdev.cpp', repo_src=['src/random_device.cpp'], libs=['-lpthread'], flags=INC)], min_evals=1000)
check('P26', 'run-time differential monitor: bound generators of all three forms compared value by value and state by state with the distribution applied to a copy of the engine, an engine that records which object is called; old classes followed in lock step with the current ones',
      'all distributions x 9 engines x 3 forms; 14 old engine classes, 8 adapter types', 'one evaluation per value, state or count compared; distinct = (class, parameters, engine or seed)',
      [dict(src='wrap.cpp', defs=dict(PART=1, T=t, FAM=f), cost=9, flags=['-O0', '-include', 'cstdint', '-include', 'memory']) for t, f in (('double', 1), ('double', 2), ('double', 3), ('double', 4), ('float', 2), ('float', 4), ('ldouble', 4))]
      + [dict(src='wrap.cpp', defs=dict(PART=p), cost=10, flags=INC) for p in (2, 3)], min_evals=1000000)
TSAN = INC + ['-fsanitize=thread', '-g1', '-DVERIF_STEPS=20']
check('P27', 'race detector (ThreadSanitizer) over a catalogue of every kind of object used by 8 unsynchronised threads in a fresh process; digests of every object compared with those of the same object used alone, among threads, interleaved in one thread and in other orders',
      '34 predefined and 40 other engines, all distributions, quasi-random engines, seed sequences, random devices', 'one evaluation per digest compared; distinct = digests',
      [dict(src='thr.cpp', defs=dict(GROUP=g), cost=6, flags=TSAN) for g in ['GRP_PRE%d' % k for k in range(6)] + ['GRP_REC0', 'GRP_REC3', 'GRP_REC5', 'GRP_ADP0', 'GRP_ADP1', 'GRP_ADP3', 'GRP_ADP4']]
      + [dict(src='thr.cpp', defs=dict(SET=s), cost=7, flags=TSAN) for s in (1, 2, 3, 4)] + [dict(src='thr.cpp', defs=dict(SET=3, T='float'), cost=7, flags=TSAN), dict(src='thr.cpp', defs=dict(SET=2, T='float'), cost=7, flags=TSAN)]
      + [dict(src='thr.cpp', defs=dict(SET=5, RDEV=1), repo_src=['src/random_device.cpp'], cost=9, flags=TSAN)], min_evals=10000)
SAN = ['-g1', '-fsanitize=address,undefined,float-cast-overflow,bounds-strict', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-DVERIF_SAN']
SANENV = {'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:detect_stack_use_after_return=1'}
ALLGRP = ['GRP_PRE%d' % k for k in range(6)] + ['GRP_REC%d' % k for k in range(6)] + ['GRP_ADP%d' % k for k in range(5)]
def san(tu, **kw):
    t = dict(tu); t['flags'] = [f for f in tu.get('flags', []) if not f.startswith('-fsanitize') and f != '-g1'] + SAN; t['env'] = SANENV; t['limit'] = 300; t.update(kw); return t
def ub():
    r = []
    for g in ALLGRP:
        r.append(dict(src='ub.cpp', defs=dict(GROUP=g), cost=7, flags=INC + SAN, env=SANENV))
        r.append(dict(src='ub.cpp', defs=dict(GROUP=g, PAINT=1), cost=4, flags=INC))
    for s in (1, 2, 3, 4, 5):
        for t in (['double'] if s == 5 else ['double', 'float'] if s in (1, 2, 3) else ['double', 'ldouble']):
            tt = 'long double' if t == 'ldouble' else t
            r.append(dict(src='ub.cpp', defs=dict(SET=s, T=tt), cost=7, flags=INC + SAN, env=SANENV))
            r.append(dict(src='ub.cpp', defs=dict(SET=s, T=tt, PAINT=1), cost=4, flags=INC))
    VG = ['valgrind', '-q', '--error-exitcode=9', '--leak-check=full', '--errors-for-leak-kinds=definite', '--num-callers=20']
    for d in [dict(GROUP=g) for g in ALLGRP if g not in ('GRP_PRE3',)] + [dict(SET=k) for k in (1, 2, 3, 4, 5)]:
        r.append(dict(src='ub.cpp', defs=dict(d, WALKONLY=1), cost=3, flags=INC + ['-g1'], wrap=VG))
    return r
# the workloads of other checks under sanitizers (thorough tier)
def deep():
    r = []
    for p in ('P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P12', 'P13', 'P14', 'P17', 'P18', 'P19', 'P20', 'P21', 'P23', 'P24', 'P26'):
        for t in CHECKS[p]['tus']:
            d = dict(t.get('defs', {}))
            if p in ('P19', 'P20') and d.get('FAM') in (1, 2) : pass
            if d.get('GROUP') == 'GRP_PRE3': continue          # frames of several MB under ASan
            if d.get('GROUP') == 'GRP_REC5': d['NOM1'] = 1      # a known finding of P05, P07 and P08
            r.append(san(t, defs=d, tier='thorough', limit=1200))
    return r
check('P28', 'sanitizers (AddressSanitizer, UndefinedBehaviorSanitizer with float-cast-overflow, library assertions) over a catalogue of every kind of object; the same catalogue in memory filled with different patterns; allocation failures, throwing engines, iterators and seed sequences and damaged text at every point, with live blocks counted; the workloads of the other checks rebuilt with sanitizers',
      'every kind of object; faults at every allocation of every step', 'one evaluation per step, comparison or fault; distinct = digests, faults and texts', ub() + deep(), min_evals=10000)
def mp(): 
    r = [dict(src='mp.cpp', defs=dict(PART=p), cost=c, flags=INC) for p, c in ((4, 9), (1, 5), (2, 5), (3, 7), (6, 7))]
    r += [dict(src='mp.cpp', defs=dict(PART=5, R=k), cost=8, flags=INC) for k in (1, 2, 3, 4, 5)]
    r += [dict(src='mp.cpp', defs=dict(PART=5, F128=1), cost=5, flags=INC, libs=['-lquadmath'])]
    r += [dict(src='mp.cpp', defs=dict(PART=7, S=s, F=f), cost=6, flags=INC) for s in (1, 2) for f in ('mp::cpp_bin_float_50', 'mp::cpp_dec_float_50')]
    r += [dict(src='mp.cpp', defs=dict(PART=7, S=s, F=f), cost=6, flags=INC, tier='thorough') for s in (1, 2) for f in ('mp::cpp_bin_float_quad', 'double')]
    # 32 bit limbs in the multiprecision library
    r += [dict(src='mp.cpp', defs=dict(PART=p), cost=7, flags=INC + ['-U__SIZEOF_INT128__']) for p in (1, 2, 3)]
    r += [dict(src='mp.cpp', defs=dict(PART=4), cost=9, flags=INC + ['-U__SIZEOF_INT128__'], tier='thorough')]
    return r
check('P29', 'run-time differential monitor: every operation in 128 bit and multiprecision types compared with the native types, with exact big-integer and 3000 bit real arithmetic and with big-integer models of the adaptors and real-valued engines',
      'about 20 integer and 12 real types; engines of 8 to 2048 bits', 'one evaluation per result compared; distinct = (types, engine range, request)', mp(), min_evals=1000000)
# the same programs built in different ways (the first is the one the others are compared with)
VARIANTS = [('g++ -O1 c++17', dict(flags=INC)),
            ('g++ -O3 c++20 NDEBUG', dict(flags=['-O3', '-std=gnu++20', '-DNDEBUG', '-funsigned-char', '-DBOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD=700'])),
            ('clang++ -O2 c++17', dict(cxx='clang++', flags=['-O2', '-std=c++17'])),
            ('clang++ -O0 c++20 NDEBUG', dict(cxx='clang++', flags=['-O0', '-std=c++20', '-DNDEBUG'])),
            ('g++ -O0 c++23 debug', dict(flags=['-O0', '-std=c++23', '-D_GLIBCXX_DEBUG', '-DBOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD=0']))]
def port():
    r = []
    for d in [dict(GROUP=g, **(dict(NOM1=1) if g == 'GRP_REC5' else {})) for g in ALLGRP] + [dict(SET=s, T=t) for s in (1, 2, 3, 4) for t in ('double', 'float')] + [dict(SET=5)]:
        for n, v in VARIANTS: r.append(dict(src='port.cpp', defs=d, variant=n.replace(' ', '_'), std=1, cost=(9 if 'O3' in n or 'O2' in n else 5) * (3 if 'SET' in d else 1), **v))
    # plain use, back to the oldest language version; the build of a mode that an edit gave up is left out
    for n, v in [('g++ -O1 c++17', dict(flags=INC, libs=[os.path.join(HERE, 'harness', 'port11b.cpp')])), ('g++ -O0 c++11', dict(flags=['-O0', '-std=c++11'], optional=True)), ('g++ -O2 c++14', dict(flags=['-O2', '-std=c++14', '-DNDEBUG'], optional=True)),
                 ('clang++ -O2 c++11', dict(cxx='clang++', flags=['-O2', '-std=c++11'], optional=True)), ('clang++ -O1 c++20', dict(cxx='clang++', flags=['-O1', '-std=c++20', '-funsigned-char'])), ('g++ -Os c++17', dict(flags=['-Os', '-std=gnu++17']))]:
        r.append(dict(src='port11.cpp', variant=n.replace(' ', '_'), std=1, cost=20, **v))
    for t in r:
        if not any(f.startswith('-std') for f in t['flags']): t['flags'] = t['flags'] + ['-std=gnu++17']
    return r
check('P30', 'run-time differential monitor: every value, state text and bound delivered by a catalogue of every kind of object is written down by the same program built by two compilers at several optimisation levels, in several language versions, with and without assertions and with other library settings; the records are compared entry by entry',
      'g++ 13 and clang++ 18, -O0 to -O3, C++11 to C++23, NDEBUG on and off, unsigned char, debug containers, three jump-ahead thresholds', 'one evaluation per step or value; distinct = digests of steps', port(), min_evals=100000, reps=2)
