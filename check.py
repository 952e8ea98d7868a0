#!/usr/bin/env python3
"""Runs the monitors of one property: check.py P07 [--tier quick|thorough] [--keep]

Builds the property's harness shards from /repo's current working tree in a
scratch directory, runs every scenario in its own process, and compares the
violations with known_findings.json."""
import sys, os, json, shlex, time, subprocess, tempfile, shutil, resource, hashlib, signal, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
from checks_conf import CHECKS
TU = None

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = os.environ.get('VERIF_SEED') or '1'
    keep = '--keep' in sys.argv
    global TU
    only = None
    for i, a in enumerate(sys.argv):
        if a == '--tier': tier = sys.argv[i+1]
        if a == '--seed': seed = sys.argv[i+1]
        if a == '--only': only = sys.argv[i+1]
        if a == '--tu': TU = sys.argv[i+1]   # part of the shards, for trying things out
    seed = str(int(re.sub(r'\D', '', seed) or '1') % (1 << 63))
    conf = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        rc = run(pid, conf, tier, seed, work, t0, only)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, conf, tier, seed, work, t0, only):
    viols = []   # (key, msg, replay command)
    jobs = []
    for tu in conf['tus']:
        if tu.get('tier') and tu['tier'] != tier: continue
        if TU and not re.search(TU, tuname(tu)): continue
        jobs.append(tu)
    ncpu = os.cpu_count() or 4
    cmds = {}
    def build(k):
        tu = jobs[k]
        out = os.path.join(work, 'b%d' % k)
        cxx = tu.get('cxx', 'g++')
        cmd = [cxx] + ([] if tu.get('std') else ['-std=gnu++17']) + tu.get('flags', ['-O1']) + ['-w', '-I' + REPO + '/include', '-I' + V + '/harness', '-I/opt/vp/guard'] \
            + ['-DVERIF_%s=%s' % kv for kv in tu.get('defs', {}).items()] + ['-DVERIF_REPO="%s"' % REPO] \
            + [os.path.join(V, 'harness', tu['src'])] + [REPO + '/' + s for s in tu.get('repo_src', [])] + ['-o', out] + tu.get('libs', [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return k, cmd, p.returncode, p.stdout
    order = sorted(range(len(jobs)), key=lambda k: -jobs[k].get('cost', 1))
    with ThreadPoolExecutor(ncpu) as ex:
        res = list(ex.map(build, order))
    tb = time.time() - t0
    tasks = []
    for k, cmd, rc, out in res:
        cmds[k] = cmd
        if rc != 0:
            if jobs[k].get('optional'): continue
            errs = [l for l in out.splitlines() if 'error' in l or 'undefined' in l]
            viols.append(('%s/build' % tuname(jobs[k]), 'the harness does not build against the library: ' + ' | '.join(errs[:3] or out.splitlines()[-3:])[:600], shlex.join(cmd)))
            continue
        b = os.path.join(work, 'b%d' % k)
        ls = subprocess.run([b, '--list'], stdout=subprocess.PIPE, text=True, env=env_for(jobs[k], work)).stdout.split('\n')
        for s in ls:
            s = s.strip()
            if s and (only is None or only in s): tasks += [(k, b, s, str(int(seed) + 1000003 * r)) for r in range(conf.get('reps', 4) if tier == 'thorough' else 1)]
    limit = 60 if tier == 'quick' else 600
    def runone(t):
        k, b, s, seed = t
        if jobs[k].get('variant'): jobs[k].setdefault('traces', {})[s, seed] = os.path.join(work, 'trace-%d-%s-%s' % (k, hashlib.sha1(s.encode()).hexdigest()[:12], seed))
        r = one(jobs[k], b, s, seed, tier, work, limit)
        if r['status'] == 'hang':   # a slow machine is not a hang: confirm once
            r = one(jobs[k], b, s, seed, tier, work, limit)
        return t, r
    agg = dict(evals=0, distinct=0, events={}, samples=[], scen=0)
    ends = []
    tot = []
    with ThreadPoolExecutor(conf.get('jobs', ncpu)) as ex:
        for (k, b, s, sd), r in ex.map(runone, tasks):
            replay = shlex.join(cmds[k]) + ' ; ' + shlex.join(runcmd(jobs[k], b, s, sd, tier, work))
            for v in r['viols']: viols.append((s + '/' + v['key'], v['msg'], replay))
            if r['status'] != 'ok': viols.append((s + '/' + r['status'], r['msg'], replay))
            d = r['done']
            agg['scen'] += 1
            tot.append((r['wall'], s))
            if d:
                agg['evals'] += d['evals']; agg['distinct'] += d['distinct']
                for e, n in d['events'].items(): agg['events'][e] = agg['events'].get(e, 0) + n
                if d['samples']: agg['samples'].append('%s: %s' % (s, d['samples'][0]))
                if d['evals'] == 0 and not r['viols'] and not conf.get('allow_empty'):
                    viols.append((s + '/nothing', 'the scenario observed nothing', replay))
    compare_traces(jobs, cmds, viols, agg)
    if not tasks and not viols: viols.append(('nothing', 'no scenario ran', ''))
    if conf.get('min_evals') and agg['evals'] < conf['min_evals'] and not viols and only is None and TU is None:
        viols.append(('nothing', 'only %d observations' % agg['evals'], ''))
    known = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
    shown, new = set(), {}
    for key, msg, replay in viols:
        f = next((f for f in known if f['property'] == pid and re.fullmatch(f['key'], key)), None)
        if f:
            shown.add(f['id'])
        else: new.setdefault(key, (msg, replay))
    for f in known:
        if f['id'] in shown: print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    rdir = os.path.join(V, 'evidence', 'replay')
    for key, (msg, replay) in list(new.items())[:60]:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s-%s.txt' % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
        open(rp, 'w').write('property: %s\nkey: %s\nwhat: %s\nseed: %s tier: %s\nreplay: %s\n' % (pid, key, msg, seed, tier, replay))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  %s: %s' % (key, msg[:500]))
    import random
    random.Random(1).shuffle(agg['samples'])
    ev = dict(property=pid, tier=tier, seed=int(seed), level='exploration',
              coverage=dict(evaluations=agg['evals'], distinct_nontrivial=agg['distinct'],
                            rule=conf['rule'], samples=agg['samples'][:8],
                            scenarios=agg['scen'], events=dict(sorted(agg['events'].items())[:60]),
                            known_findings_seen=sorted(shown)),
              assumptions=conf.get('assumptions', []), wall_s=round(time.time() - t0, 2),
              violations=[dict(key=k, what=m[:300]) for k, (m, r) in list(new.items())[:20]])
    if only is None and TU is None:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    tot.sort(reverse=True)
    print('%s %s seed=%s: %d scenarios, %d observations, %d distinct, %d violations, %d known; build %.1fs total %.1fs; slowest %s' % (
        pid, tier, seed, agg['scen'], agg['evals'], agg['distinct'], len(new), len(shown), tb, time.time() - t0,
        ', '.join('%s %.1fs' % (s, w) for w, s in tot[:3])))
    return 1 if new else 0

# the same scenario in differently built programs: the values must be the same (real values: up to rounding)
def compare_traces(jobs, cmds, viols, agg):
    groups = {}
    for k, tu in enumerate(jobs):
        if tu.get('variant') and 'traces' in tu: groups.setdefault((tu['src'], tuple(sorted(tu.get('defs', {}).items()))), []).append(k)
    todo = [(g, ks[0], k, s) for g, ks in groups.items() for k in ks[1:] for s in jobs[ks[0]]['traces']]
    if groups and not todo: viols.append(('nothing', 'no two builds to compare', ''))
    def cmp(t):
        g, a, b, s = t
        fa, fb = jobs[a]['traces'][s], jobs[b]['traces'].get(s)
        if not fb or not os.path.exists(fa) or not os.path.exists(fb): return t, 0, []
        x, y = open(fa, errors='replace').read(), open(fb, errors='replace').read()
        n = x.count('\n')
        if x == y: return t, n, []
        return t, n, difference(x.split('\n'), y.split('\n'), 1e-3 if 'float' in str(g) else 1e-9)
    with ThreadPoolExecutor(4) as ex:
        for (g, a, b, s), n, d in ex.map(cmp, todo):
            agg['events']['values compared between builds'] = agg['events'].get('values compared between builds', 0) + n
            for name, x, y in d[:5]:
                viols.append(('%s/%s' % (s[0], name), 'built as %s: %s; built as %s: %s' % (jobs[a]['variant'], x, jobs[b]['variant'], y), '%s ; %s' % (shlex.join(cmds[a]), shlex.join(cmds[b]))))

def close(x, y, tol):
    if x == y: return True
    tx, ty = x.split(), y.split()
    if len(tx) != len(ty): return False
    for p, q in zip(tx, ty):
        if p == q: continue
        if not re.search(r'[.e]', p + q): return False   # integers are exact
        try: u, v = float(p), float(q)
        except ValueError: return False
        if not abs(u - v) <= tol * max(abs(u), abs(v)) : return False
    return True

def difference(xs, ys, tol):
    out, name, skip = [], '', False
    for i in range(max(len(xs), len(ys))):
        x = xs[i] if i < len(xs) else '(nothing)'
        y = ys[i] if i < len(ys) else '(nothing)'
        if x.startswith('# ') and y == x: name, skip = x[2:], False; continue
        if skip and not (x.startswith('#') or y.startswith('#')): continue
        if not close(x, y, tol):
            out.append((name, x[:200], y[:200]))
            if x.startswith('#') != y.startswith('#') or len(out) > 20: break   # out of step
            skip = True
    return out

def tuname(tu): return tu['src'].replace('.cpp', '') + ''.join('-%s%s' % kv for kv in sorted(tu.get('defs', {}).items())) + ('-' + tu['variant'] if tu.get('variant') else '')

def env_for(tu, work):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'abort_on_error=1:detect_leaks=1:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1:exitcode=66'
    e['TMPDIR'] = work
    e.update(tu.get('env', {}))
    return e

def runcmd(tu, b, s, seed, tier, work):
    return tu.get('wrap', []) + [b, '--run', s, '--seed', seed, '--tier', tier]

def one(tu, b, s, seed, tier, work, limit):
    lim = tu.get('limit', limit)
    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = time.time()
    env = env_for(tu, work)
    if tu.get('traces', {}).get((s, seed)): env['VERIF_TRACE_FILE'] = tu['traces'][s, seed]
    p = subprocess.Popen(runcmd(tu, b, s, seed, tier, work), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                         preexec_fn=pre, env=env, start_new_session=True, cwd=work)
    try:
        out, err = p.communicate(timeout=lim * 4)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate(); to = True
    viols, done = [], None
    for l in out.splitlines():
        if l.startswith('{'):
            try: o = json.loads(l)
            except ValueError: continue
            if o['t'] == 'viol': viols.append(o)
            elif o['t'] == 'done': done = o
    status, msg = 'ok', ''
    rc = p.returncode
    if to or rc == -signal.SIGXCPU or (rc == -signal.SIGKILL and time.time() - t > lim * 0.9):
        status, msg = 'hang', 'no end after %d s of CPU time' % lim
    elif rc != 0 or done is None:
        kind = 'crash'
        m = re.search(r'(runtime error: .*|ERROR: \w+Sanitizer: .*|WARNING: ThreadSanitizer: .*|Conditional jump or move depends.*|Use of uninitialised.*|Invalid (?:read|write|free).*|.* bytes in .* definitely lost.*|Syscall param .*|ERROR: LeakSanitizer.*|Assertion.*)', err)
        loc = re.search(r'(/\S*boost/random/\S+?:\d+)', err)
        if m: kind = 'assertion' if m.group(1).startswith('Assertion') else 'sanitizer'
        status = kind
        msg = 'exit status %s; %s; %s' % (rc, m.group(1)[:300] if m else err[-300:], loc.group(1) if loc else '')
    return dict(viols=viols, done=done, status=status, msg=msg, wall=time.time() - t)

if __name__ == '__main__': main()
