#!/usr/bin/env python3
"""Mutation runner: mutate.py FILE N SEED [WORKERS].  Plants N random small changes in
/repo/include/boost/random/FILE (in scratch copies), runs the checks that concern the
file, and lists those that no check noticed."""
import sys, os, re, random, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def E(groups, checks=('P01','P02','P03','P04','P05','P06','P07','P08','P09')): return [(c, 'GRP_(%s)\\b' % groups) for c in checks]
NP = ('P03','P01','P05','P06','P07','P08','P09','P02')
U3 = 'B(uint8_t|int32_t|double)'
UINT = [('P10', U3), ('P12', U3), ('P11', U3)]
P17 = ('P17', 'W(double|int32_t)'); PD = 'T(double|float)'
PAR = [('P19', 'Tdouble'), ('P20', 'Tdouble')]
P13 = ('P13', 'B(float|uint32_t|int16_t|double)'); P29 = ('P29', 'PART[1-4]|R[12]')
MAP = {
 'mersenne_twister.hpp': E('PRE1|REC5', NP),
 'detail/polynomial.hpp': E('PRE1|REC5', ('P05',)) + [('P28','GROUPGRP_PRE1')],
 'linear_congruential.hpp': E('PRE0|REC0|REC1', NP) ,
 'detail/const_mod.hpp': E('PRE0|REC0|REC1|REC2', NP),
 'detail/large_arithmetic.hpp': E('REC1|REC2|ADP4', ('P03','P05','P04')),
 'inversive_congruential.hpp': E('PRE0|REC2', NP),
 'linear_feedback_shift.hpp': E('PRE0|REC2', NP),
 'lagged_fibonacci.hpp': E('PRE2|REC4', NP),
 'subtract_with_carry.hpp': E('PRE4|PRE5|REC3', NP),
 'mixmax.hpp': E('PRE1', NP),
 'splitmix64.hpp': E('PRE1', NP),
 'additive_combine.hpp': E('PRE0|ADP4', ('P04','P02','P01','P05','P06','P07','P08','P09')),
 'xor_combine.hpp': E('PRE0|ADP4', ('P04','P02','P01','P05','P06','P07','P08','P09')),
 'discard_block.hpp': E('PRE4|ADP1', ('P04','P01','P05','P06','P07','P08','P09')),
 'shuffle_order.hpp': E('PRE0|ADP0', ('P04','P01','P05','P06','P07','P08','P09')),
 'independent_bits.hpp': E('ADP2|ADP3', ('P04','P01','P05','P06','P07','P08','P09')) + [('P29','PART[46]')],
 'detail/seed_impl.hpp': E('PRE0|PRE1|PRE4|REC1|REC3|REC4', ('P06','P02','P03')) + [('P09', 'PART|PRE1')],
 'seed_seq.hpp': [('P09','PART'),('P06','PRE1'),('P26','PART')],
 'detail/generator_bits.hpp': [('P09','PART|PRE1'),P13],
 'detail/integer_log2.hpp': [('P04','ADP'),P13,P29],
 'uniform_int_distribution.hpp': UINT + [P29,('P19','FAM3.*Tdouble'),('P20','FAM3.*Tdouble'),('P26','PART[23]')],
 'detail/uniform_int_float.hpp': UINT + [P29],
 'uniform_smallint.hpp': [('P12',U3),('P19','Tdouble'),('P20','Tdouble'),('P21','Tdouble'),P29],
 'uniform_int.hpp': [('P10',U3),('P26','PART[23]|FAM3'),('P19','Tdouble')],
 'random_number_generator.hpp': [('P10',U3),('P26','PART[23]|FAM3')],
 'variate_generator.hpp': [('P26','PART[23]|FAM3')], 'detail/ptr_helper.hpp': [('P26','PART[23]|FAM3')],
 'uniform_01.hpp': [P13,('P26','PART[23]|FAM3'),('P21','Tdouble')],
 'uniform_real_distribution.hpp': [P13,('P14','Tdouble'),('P19','Tdouble'),('P20','Tdouble'),P29],
 'uniform_real.hpp': [P13,('P26','PART[23]|FAM3'),('P19','Tdouble')],
 'generate_canonical.hpp': [P13,P29],
 'detail/int_float_pair.hpp': [('P15','Tdouble'),('P21','Tdouble')],
 'uniform_on_sphere.hpp': [('P18','.'),('P19','Tdouble'),('P20','Tdouble'),('P21','Tdouble')],
 'detail/vector_io.hpp': [('P20','Tdouble')],
 'detail/qrng_base.hpp': [('P22','.'),('P23','.'),('P24','.')],
 'detail/gray_coded_qrng.hpp': [('P22','.'),('P23','.'),('P24','.')],
 'faure.hpp': [('P22','.'),('P23','.'),('P24','.')],
 'sobol.hpp': [('P22','.'),('P23','.'),('P24','.')],
 'niederreiter_base2.hpp': [('P22','.'),('P23','.'),('P24','.')],
 'discrete_distribution.hpp': [P17,('P19','Tdouble'),('P20','Tdouble'),('P21','Tdouble')],
 'piecewise_constant_distribution.hpp': [P17,('P15','Tdouble'),('P14','Tdouble'),('P19','Tdouble'),('P20','Tdouble')],
 'piecewise_linear_distribution.hpp': [P17,('P15','Tdouble'),('P14','Tdouble'),('P19','Tdouble'),('P20','Tdouble')],
 'hyperexponential_distribution.hpp': [P17,('P15','Tdouble'),('P14','Tdouble'),('P19','Tdouble'),('P20','Tdouble')],
}
DISTC = [('P19','Tdouble'),('P20','Tdouble'),('P14','Tdouble'),('P15','Tdouble'),('P21','Tdouble'),('P26','PART[23]')]
DISTI = [('P16','T(double|float)'),('P14','Tdouble'),('P19','Tdouble'),('P20','Tdouble'),('P21','Tdouble'),('P26','PART[23]')]
for f in ('bernoulli','binomial','geometric','negative_binomial','poisson'): MAP[f + '_distribution.hpp'] = DISTI
def ops(line):
    out = []
    def sub(pat, rep):
        for m in re.finditer(pat, line): out.append(line[:m.start()] + m.expand(rep) + line[m.end():])
    sub(r'(?<![<>=!\-\w&])\s<=\s', ' < '); sub(r'\s>=\s', ' > '); sub(r'(?<=[\w\)\]]) < (?=[\w\(])', ' <= '); sub(r'(?<=[\w\)\]]) > (?=[\w\(])', ' >= ')
    sub(r' == ', ' != '); sub(r' != ', ' == '); sub(r' && ', ' || '); sub(r' \|\| ', ' && ')
    sub(r' \+ ', ' - '); sub(r' - ', ' + '); sub(r' \* ', ' / '); sub(r' / ', ' * '); sub(r' % ', ' / ')
    sub(r' << (?=[\w\(])', ' >> ') if 'os' not in line else None
    sub(r' >> (?=[\w\(])', ' << ') if 'is ' not in line else None
    sub(r' \| ', ' & '); sub(r' & ', ' | '); sub(r' \^ ', ' | ')
    sub(r' \+= ', ' -= '); sub(r' -= ', ' += ')
    sub(r'\+\+', '--'); sub(r'(?<=[\w\)\]])([+-])1\b', r'\g<1>2'); sub(r' - 1\b', ''); sub(r' \+ 1\b', '')
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', line): out.append(line[:m.start()] + str(int(m.group(1)) + 1) + line[m.end():])
    for m in re.finditer(r'(?<![\w.])(\d+)\.(\d+)', line):
        out.append(line[:m.start()] + m.group(1) + '.' + m.group(2)[:-1] + str((int(m.group(2)[-1]) + 1) % 10) + line[m.end():])
    m = re.match(r'(\s*)(if|while)\s*\((.*)\)(\s*\{?.*)$', line)
    if m: out.append('%s%s(!(%s))%s' % (m.group(1), m.group(2), m.group(3), m.group(4))) if m.group(3).count('(') == m.group(3).count(')') else None
    if re.match(r'\s*[\w\[\]\.\->_:]+(\(.*\))?\s*([+\-*/|&^]|<<|>>)?=?[^=].*;\s*$', line) and not re.match(r'\s*(return|typedef|using|template|static|const|friend|BOOST|class|struct|namespace|throw|break|for|if|while)\b', line): out.append(re.match(r'\s*', line).group(0) + ';')
    if re.match(r'\s*(break|continue);', line): out.append(';')
    return [o for o in out if o and o != line]
def candidates(path):
    L = open(path).read().split('\n'); c = []; com = False
    for i, l in enumerate(L):
        s = l.strip()
        if '/*' in s: com = True
        if not com and s and not s.startswith(('//', '#', '*', 'template', 'typedef', 'BOOST_RANDOM_DETAIL', 'BOOST_STATIC_ASSERT')):
            for o in ops(l): c.append((i, o))
        if '*/' in s: com = False
    return L, c
def main():
    f, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); workers = int(sys.argv[4]) if len(sys.argv) > 4 else 3
    checks = MAP.get(f, DISTC); sys.path.insert(0, V)
    from checks_conf import CHECKS; import check
    checks = [(a, b) for a, b in checks if any(re.search(b, check.tuname(t)) for t in CHECKS[a]['tus'] if not t.get('tier'))]; src = '/repo/include/boost/random/' + f
    L, c = candidates(src); r = random.Random(seed); r.shuffle(c); c = c[:n]
    loc = threading.local(); ids = iter(range(100)); lock = threading.Lock()
    def one(m):
        i, new = m
        if not hasattr(loc, 'dir'):
            with lock: k = next(ids)
            loc.dir = '/tmp/mut/%d-%d' % (os.getpid(), k); shutil.copytree('/repo/include', loc.dir + '/include'); shutil.copytree('/repo/src', loc.dir + '/src')
        t = L[:]; t[i] = new; open(loc.dir + '/include/boost/random/' + f, 'w').write('\n'.join(t))
        by = None
        p = subprocess.run(['g++', '-std=gnu++17', '-w', '-fsyntax-only', '-I' + loc.dir + '/include', '-x', 'c++', loc.dir + '/include/boost/random/' + f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.returncode: return m, 'nocompile'
        for pid, tu in checks:
            p = subprocess.run(['nice', sys.executable, V + '/check.py', pid, '--tu', tu], env=dict(os.environ, VERIF_REPO=loc.dir), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if 'does not build' in p.stdout: return m, 'nobuild'
            if p.returncode: by = pid; break
        return m, by
    surv = 0; kill = {}
    with ThreadPoolExecutor(workers) as ex:
        for (i, new), by in ex.map(one, c):
            kill[by] = kill.get(by, 0) + 1
            if by is None: print('SURVIVED %s:%d\n   - %s\n   + %s' % (f, i + 1, L[i].strip(), new.strip()), flush=True)
    print('%s: %d mutants of %d: %s' % (f, len(c), len(candidates(src)[1]), kill), flush=True)
    for k in range(100): shutil.rmtree('/tmp/mut/%d-%d' % (os.getpid(), k), ignore_errors=True)
if __name__ == '__main__': main()
