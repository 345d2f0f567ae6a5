#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] : decide one property by symbolic execution of /repo's current code.

1. generate the corpus headers with /repo's generator (scratch copy), 2. compile the harness with /repo's sources to LLVM
bitcode, 3. explore every path of every harness entry with the engine (Z3 decides each branch and assertion),
4. replay sampled paths natively (translation validation) and every counterexample (only a reproduced one is reported),
5. write evidence/<id>.json. Exit 0: held; 1: VIOLATION line; 2: no answer."""
import sys, os, json, subprocess, hashlib, shutil, time, tempfile, threading, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
import checks

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

class Fail(Exception): pass

def engine():
    h = hashlib.sha256()
    for f in ('expr.h', 'solver.h', 'symex.cpp'): h.update(open(os.path.join(HERE, 'engine', f), 'rb').read())
    exe = os.path.join(BUILD, 'symex-' + h.hexdigest()[:16])
    if os.path.exists(exe): return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = sh(['llvm-config-18', '--cxxflags']).stdout.decode().split()
    flags = [f for f in flags if not f.startswith('-std=') and f != '-fno-exceptions']
    libs = sh(['llvm-config-18', '--ldflags', '--libs']).stdout.decode().split()
    tmp = exe + '.tmp%d' % os.getpid()
    r = sh(['clang++', '-O2', '-std=c++17'] + flags + ['-fexceptions', '-Wno-everything', os.path.join(HERE, 'engine', 'symex.cpp'), '-o', tmp] + libs + ['-lz3'])
    if r.returncode: raise Fail('cannot build the engine: ' + r.stderr.decode()[-2000:])
    os.rename(tmp, exe)
    return exe

SAN = ['-fsanitize=bounds,shift,signed-integer-overflow,bool,integer-divide-by-zero,return,unreachable', '-fsanitize-trap=all']
class Tree:
    """Everything built from /repo's working tree for one check, in a scratch directory."""
    def __init__(self, work):
        self.w = work; self.gen = os.path.join(work, 'gen'); self.lock = threading.Lock(); self.nat = {}
    def headers(self):
        r = sh([os.path.join(HERE, 'tools', 'gen_headers.sh'), self.gen], env=dict(os.environ, REPO=REPO))
        if r.returncode: raise Fail('generator failed on the schema corpus: ' + (r.stdout + r.stderr).decode()[-3000:])
        src = os.path.join(REPO, 'src')
        with open(os.path.join(self.gen, 'all_sources.inc'), 'w') as f: f.write(''.join('#include "%s"\n' % os.path.join(d, n) for d, _, fs in sorted(os.walk(src)) for n in sorted(fs) if n.endswith(('.cpp', '.cc', '.cxx'))))
    def inc(self): return ['-I' + os.path.join(REPO, 'src'), '-I' + self.gen, '-I' + os.path.join(HERE, 'harness')]
    def bitcode(self, tu, defs, std):
        o = os.path.join(self.w, tu + '.bc'); o0 = o + '.0'
        r = sh(['clang++', '-std=' + std, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti', '-D_GLIBCXX_ASSERTIONS', '-DSYMEX', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-gline-tables-only', '-Wno-everything']
               + SAN + self.inc() + defs + ['-emit-llvm', '-c', os.path.join(HERE, 'harness', tu + '.cpp'), '-o', o0])
        if r.returncode: raise Fail('harness %s does not compile with the current tree: ' % tu + r.stderr.decode()[-3000:])
        r = sh(['opt-18', '-passes=function(sroa,instsimplify,simplifycfg)', o0, '-o', o])
        if r.returncode: raise Fail('opt failed: ' + r.stderr.decode()[-2000:])
        return o
    def native(self, tu, defs, std, kind):
        """kind: asan (address+undefined), plain (for valgrind and the heap stand-ins), tsan and threads (two real threads)"""
        with self.lock:
            k = (tu, kind)
            if k not in self.nat: self.nat[k] = threading.Lock()
            l = self.nat[k]
        with l:
            o = os.path.join(self.w, tu + '.' + kind)
            if not os.path.exists(o):
                fl = {'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'], 'plain': ['-O0', '-DPLAIN_REPLAY'], 'tsan': ['-O1', '-fsanitize=thread', '-DRACE_REPLAY'], 'threads': ['-O0', '-DRACE_REPLAY']}[kind]
                r = sh(['clang++', '-std=' + std, '-g1', '-fno-exceptions', '-fno-rtti', '-D_GLIBCXX_ASSERTIONS', '-Wno-everything', '-rdynamic'] + fl + self.inc() + defs
                       + [os.path.join(HERE, 'harness', tu + '.cpp'), os.path.join(HERE, 'harness', 'replay.cpp'), '-o', o + '.t', '-ldl', '-pthread'])
                if r.returncode: raise Fail('native build of %s failed: ' % tu + r.stderr.decode()[-3000:])
                os.rename(o + '.t', o)
            return o

def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, h in inputs: f.write('%s %s\n' % (n.replace(' ', '_') or '_', h))

def run_native(exe, entry, infile, params, valgrind=False, timeout=60):
    cmd = (['valgrind', '-q', '--error-exitcode=99', '--tool=helgrind'] if valgrind == 'helgrind' else ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes'] if valgrind else []) + [exe, entry, infile] + ['%s=%s' % kv for kv in params.items()]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=98', TSAN_OPTIONS='halt_on_error=1:exitcode=96', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=97')
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return -14, '', 'timeout'
    return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')

def reproduce(tree, job, v, infile):
    """Replay a counterexample against the natively compiled real code. Returns (reproduced, transcript)."""
    kind = v['kind']; params = job['params']
    tries = []
    if kind == 'uninit': tries = [('plain', True)]
    elif kind == 'race': tries = [('tsan', False), ('threads', 'helgrind')]
    elif kind == 'heap': tries = [('plain', False)]
    else: tries = [('asan', False), ('plain', True)] if kind in ('memory',) else [('asan', False)]
    log = ''
    for k, vg in tries:
        exe = tree.native(job['tu'], job['defs'], job['std'], k)
        rc, out, err = run_native(exe, job['entry'], infile, params, vg, timeout=120 if vg else 15 if kind == 'termination' else 60)
        log += '$ %s replay of %s -> exit %d\n%s%s\n' % (k + ('+' + str(vg) if vg else ''), job['entry'], rc, out[-2000:], err[-3000:])
        if rc not in (0, 8, 9): return True, log
    return False, log

def main():
    if sys.argv[1:] == ['--setup']: print(engine()); return 0
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1'); t0 = time.time()
    spec = checks.CHECKS[pid]
    evid = os.path.join(HERE, 'evidence', pid + '.json'); os.makedirs(os.path.dirname(evid), exist_ok=True)
    if os.path.exists(evid): os.unlink(evid)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=BUILD)
    rdir = os.path.join(BUILD, 'replay-' + pid); shutil.rmtree(rdir, ignore_errors=True)
    rc = 2
    try: rc = check(pid, spec, tier, seed, t0, work, rdir, evid)
    except Fail as e:
        msg = str(e)
        if spec.get('generator_failure_is_violation') and ('generator failed' in msg or 'does not compile' in msg):
            os.makedirs(rdir, exist_ok=True); p = os.path.join(rdir, 'failure.txt'); open(p, 'w').write(msg + '\n')
            print(msg); print('VIOLATION property=%s replay=%s' % (pid, p)); rc = 1
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [msg[-500:]]}, 'wall_s': time.time() - t0, 'violations': 1}, open(evid, 'w'))
        else: print('ERROR', msg); rc = 2
    finally:
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return rc

STOPPED = dict(violations=[], samples=[], covers={}, functions=[], error='', incomplete_why='another harness found a violation', complete=False, paths=0, paths_completed=0, forks=0, enum_forks=0, queries=0, unsat=0, sat=0, solver_s=0, rc=2)
def check(pid, spec, tier, seed, t0, work, rdir, evid):
    budget = spec.get('budget', {}).get(tier, 800 if tier == 'quick' else 3000)
    tree = Tree(work)
    with ThreadPoolExecutor(NPROC) as ex:
        fe = ex.submit(engine); tree.headers(); exe = fe.result()
        jobs = []
        for j in spec['jobs']:
            if tier not in j.get('tiers', ('quick', 'thorough')): continue
            j = dict(j); j.setdefault('params', {}); j.setdefault('defs', []); j.setdefault('std', 'c++17'); j.setdefault('tu', pid.lower())
            j['params'] = dict(j['params']); j['params'].update(j.get(tier + '_params', {})); j.setdefault('covers', ['checked'])
            jobs.append(j)
        tus = {(j['tu'], tuple(j['defs']), j['std']) for j in jobs}
        bcs = {t: ex.submit(tree.bitcode, t[0], list(t[1]), t[2]) for t in tus}
        nats = {t: ex.submit(tree.native, t[0], list(t[1]), t[2], 'asan') for t in tus}
        bcs = {t: f.result() for t, f in bcs.items()}
        def runjob(n, j):
            out = os.path.join(work, 'r%d.json' % n); left = max(20, budget - (time.time() - t0))
            cmd = [exe, bcs[(j['tu'], tuple(j['defs']), j['std'])], '--entry', j['entry'], '--out', out, '--time', str(min(left, j.get('time', 900 if j.get('optional') else 1e9))), '--samples', '6', '--max-viol', '2', '--max-steps', str(j.get('max_steps', 3000000))]
            for k, v in j['params'].items(): cmd += ['--param', '%s=%s' % (k, v)]
            if spec.get('no_heap'): cmd.append('--no-heap')
            if spec.get('query_s'): cmd += ['--query-time', str(spec['query_s'])]
            # once a violation is found the remaining runs get a minute
            ts = time.time(); p = None
            if not (found and time.time() - found[0] > 60):
                p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'wb'))
                while True:
                    try: p.wait(2); break
                    except subprocess.TimeoutExpired:
                        if found and time.time() - found[0] > 60: p.kill(); p.wait(); p = None; break
            if p is None: return dict(STOPPED, wall=time.time() - ts)
            try: d = json.load(open(out))
            except Exception: raise Fail('engine gave no result on %s: exit %s %s' % (j['entry'], p.returncode, open(out + '.err', errors='replace').read()[-1000:]))
            d['rc'] = p.returncode; d['wall'] = time.time() - ts
            if not found and any(not v['msg'].startswith('KF:') for v in d['violations']): found.append(time.time())
            return d
        found = []
        order = sorted(range(len(jobs)), key=lambda n: -jobs[n].get('cost', 1))
        futs = {ex.submit(runjob, n, jobs[n]): n for n in order}
        res = {}
        for f in as_completed(futs): res[futs[f]] = f.result()
        for f in nats.values(): f.result()
        # ---- translation validation: sampled paths, natively
        vals = []
        for n, j in enumerate(jobs):
            for k, s in enumerate(res[n]['samples']):
                p = os.path.join(work, 's%d_%d.txt' % (n, k)); write_inputs(p, s['inputs']); vals.append((n, p, s))
        def val(n, p, s):
            j = jobs[n]; e = tree.native(j['tu'], j['defs'], j['std'], 'asan'); r = run_native(e, j['entry'], p, j['params'])
            obs = ''.join(l[4:] for l in r[1].splitlines() if l.startswith('OBS '))
            return n, p, s, r, r[0] == 0 and obs.strip() == s['obs']
        validated = 0; mism = []
        for n, p, s, r, ok in ex.map(lambda a: val(*a), vals):
            if ok: validated += 1
            else: mism.append((n, s, r))
    problems = []; partial = []; violations = []; known = {}; trep = time.time()
    kf = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == pid]
    for n, j in enumerate(jobs):
        d = res[n]; name = j['entry'] + ''.join(' %s=%s' % kv for kv in j['params'].items())
        for v in d['violations']:
            if len(violations) >= 3 and time.time() - trep > 60 and not v['msg'].startswith('KF:'): continue   # enough is replayed
            os.makedirs(rdir, exist_ok=True); inf = os.path.join(rdir, '%s_%d_%d.txt' % (j['entry'], n, len(violations) + len(known)))
            write_inputs(inf, v['inputs'])
            ok, log = reproduce(tree, j, v, inf)
            doc = {'property': pid, 'entry': j['entry'], 'tu': j['tu'], 'params': j['params'], 'defs': j['defs'], 'std': j['std'], 'kind': v['kind'], 'message': v['msg'], 'at': v['loc'], 'stack': v['stack'], 'inputs': v['inputs'], 'reproduced_natively': ok, 'transcript': log}
            rp = inf[:-4] + '.json'; json.dump(doc, open(rp, 'w'), indent=1)
            m = next((k for k in kf if v['msg'] == k['message'] and j['entry'] in k['entries']), None)
            if not ok: problems.append('counterexample of %s (%s: %s) did not reproduce natively, see %s' % (name, v['kind'], v['msg'], rp))
            elif m: known[m['id']] = m
            else: violations.append((name, v, rp))
        if d['error']: problems.append('%s: %s' % (name, d['error']))
        elif d['incomplete_why'] and ((j.get('optional') and tier == 'thorough') or (spec.get('query_s') and d['incomplete_why'].endswith('in time'))): partial.append('%s: %s' % (name, d['incomplete_why']))
        elif d['incomplete_why']: problems.append('%s: exploration incomplete (%s)' % (name, d['incomplete_why']))
        if not d['violations'] and not (j.get('optional') and not d['complete']) and d['incomplete_why'] != STOPPED['incomplete_why']:
            for c in j['covers']:
                if not d['covers'].get(c): problems.append('%s: never reached "%s" (vacuous)' % (name, c))
    for n, s, r in mism[:3]: problems.append('translation validation: native run of %s disagrees with the engine: exit %d %s' % (jobs[n]['entry'], r[0], (r[1] + r[2])[-600:]))
    fns = sorted({'%s (%s:%s)' % (f[0], f[1].replace(REPO + '/', ''), f[2]) for d in res.values() for f in d['functions'] if ('/repo/' in f[1] or REPO in f[1] or '/gen/' in f[1] or f[1].endswith('vs.h'))})
    tot = lambda k: sum(d.get(k, 0) or 0 for d in res.values())
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
          'coverage': {
              'states': tot('paths'), 'transitions': tot('instructions'), 'traces_validated_against_impl': validated,
              'exhaustive': not problems and not violations and not partial, 'stopped_by_time_limit': partial,
              'explanation': 'states = symbolic paths explored to their end (each covers every input satisfying its path condition), transitions = LLVM instructions executed symbolically, traces_validated = sampled paths replayed natively (ASan+UBSan build) with identical observations',
              'harnesses': [{'entry': j['entry'], 'params': j['params'], 'paths': res[n]['paths'], 'paths_completed': res[n]['paths_completed'], 'forks': res[n]['forks'], 'enumerated_forks': res[n]['enum_forks'], 'queries': res[n]['queries'], 'unsat': res[n]['unsat'], 'sat': res[n]['sat'], 'solver_s': round(res[n]['solver_s'], 3), 'covers': res[n]['covers'], 'complete': res[n]['complete']} for n, j in enumerate(jobs)],
              'solver_queries': tot('queries'), 'solver_unsat': tot('unsat'), 'solver_sat': tot('sat'), 'solver_s': round(tot('solver_s'), 2), 'assertions_checked': tot('asserts'),
              'functions_encoded': fns, 'functions_encoded_count': len(fns), 'bounds': spec['bounds'], 'outside_the_claim': spec.get('outside', ''),
              'known_findings_observed': sorted(known),
              'samples': [{'entry': jobs[n]['entry'], 'inputs': s['inputs'][:12], 'observed': s['obs'][:80]} for n, p, s in vals[:4]]},
          'assumptions': checks.ASSUMPTIONS + spec.get('assumptions', [])}
    json.dump(ev, open(evid, 'w'), indent=1)
    for k in sorted(known): print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what']))
    print('%s %s: %d harness runs, %d paths, %d instructions, %d queries (%.1f s solver), %d traces validated, %.1f s' % (pid, tier, len(jobs), tot('paths'), tot('instructions'), tot('queries'), tot('solver_s'), validated, time.time() - t0))
    for p in problems: print('PROBLEM', p)
    if violations:
        for name, v, rp in violations:
            print('%s: %s: %s at %s' % (name, v['kind'], v['msg'], v['loc']))
        for name, v, rp in violations[:1]: print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 2 if problems else 0

if __name__ == '__main__': sys.exit(main())
