#!/usr/bin/env python3
"""check.py PROPERTY -- decide one property on /repo's current working tree.

 1. compile /repo + harness + environment model to one LLVM module (whole program, std included);
 2. execute every harness of the property symbolically (engine/), one process per harness and case;
 3. replay every counterexample, and a sample of the explored paths, natively on the same module;
 4. write evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION (reproduced natively); 2: no verdict."""
import fcntl, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, ASSUMPTIONS

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
WORK = os.path.join(HERE, 'work')
BUDGET = {'quick': 600, 'thorough': 6 * 3600}
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'


def die(msg, code=2):
    print(msg)
    sys.stdout.flush()
    sys.exit(code)


def build(run):
    """One cargo invocation: LLVM IR to encode and the shared object used for native replay."""
    os.makedirs(WORK, exist_ok=True)
    target = os.path.join(WORK, 'target')
    with open(os.path.join(WORK, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fpd = os.path.join(target, 'release', '.fingerprint')
        if os.path.isdir(fpd):      # never trust time stamps of /repo
            for d in os.listdir(fpd):
                if d.startswith(('knx-ip-client-', 'harness-', 'tokio-', 'log-', 'tracing')): shutil.rmtree(os.path.join(fpd, d), ignore_errors=True)
        env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
        env.pop('RUSTFLAGS', None); env.pop('CARGO_TARGET_DIR', None)
        cmd = ['cargo', 'rustc', '--offline', '--release', '--target-dir', target, '--', '--emit=llvm-ir,link',
               '-C', 'link-arg=-Wl,--unresolved-symbols=ignore-all', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp']
        p = subprocess.run(cmd, cwd=os.path.join(HERE, 'harness'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            die('the harnesses do not build against /repo:\n' + '\n'.join(p.stdout.splitlines()[-60:]))
        shutil.copy(os.path.join(target, 'release', 'deps', 'harness.ll'), run)
        shutil.copy(os.path.join(target, 'release', 'deps', 'libharness.so'), run)
        fcntl.flock(lk, fcntl.LOCK_UN)
    p = subprocess.run(['gcc', '-O1', '-rdynamic', '-o', os.path.join(run, 'runner'), os.path.join(HERE, 'replay', 'runner.c'), '-ldl'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: die('replay runner does not build:\n' + p.stdout)


def native(run, harness, inputs, timeout=20):
    """-> (outcome, detail, emits)"""
    fd, path = tempfile.mkstemp(dir=run, suffix='.in')
    with os.fdopen(fd, 'w') as f: f.write('\n'.join(map(str, inputs)) + '\n')
    try:
        p = subprocess.run([os.path.join(run, 'runner'), os.path.join(run, 'libharness.so'), harness, path, TIER],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'hang', 'no end within %d s' % timeout, []
    finally:
        os.unlink(path)
    out = p.stdout.decode('utf-8', 'replace')
    emits = [int(l[5:]) for l in out.splitlines() if l.startswith('EMIT ')]
    if p.returncode == 0:
        m = re.search(r'^DONE (\d+) (\d+)$', out, re.M)
        return ('return' if m and m.group(1) == m.group(2) else 'inputs left'), '', emits
    if p.returncode == 3: return 'check', re.search(r'^CHECKFAIL (.*)$', out, re.M).group(1), emits
    if p.returncode == 4: return 'assume', '', emits
    if p.returncode < 0: return 'crash', 'signal %d: %s' % (-p.returncode, p.stderr.decode('utf-8', 'replace').strip()[:500]), emits
    return 'error %d' % p.returncode, p.stderr.decode('utf-8', 'replace')[:300], emits


def reproduces(v, got):
    kind, detail, _ = got
    if v['kind'] == 'check': return kind == 'check' and detail == v['msg']
    if v['kind'] in ('panic', 'abort'): return kind == 'crash'
    if v['kind'] == 'steps': return kind in ('hang', 'crash')
    return kind in ('crash', 'hang')     # ub / unreachable


def demangle(n):
    m = re.match(r'@?_ZN(.*)E$', n.strip('"@'))
    if not m: return n.strip('@"')
    s, out = m.group(1), []
    while s and s[0].isdigit():
        k = re.match(r'\d+', s).group(0)
        out.append(s[len(k):len(k) + int(k)]); s = s[len(k) + int(k):]
    if out and re.match(r'h[0-9a-f]{16}$', out[-1]): out.pop()
    t = '::'.join(out)
    for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$RF$', '&'), ('$u7b$', '{'), ('$u7d$', '}'), ('$C$', ','), ('$BP$', '*'), ('..', '::')):
        t = t.replace(a, b)
    return t.lstrip('_')


class Pool:
    """Runs jobs in worker processes; `stop` ends the ones still running."""
    def __init__(self): self.procs = set(); self.stopped = False

    def run(self, job):
        if self.stopped: return None
        p = subprocess.Popen([PY, os.path.join(HERE, 'engine', 'worker.py'), json.dumps(job)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.procs.add(p)
        try:
            out, err = p.communicate(timeout=job['budget'] + 60)
        except subprocess.TimeoutExpired:
            p.kill(); out, err = p.communicate()
            return {'harness': job['harness'], 'case': job.get('case'), 'status': 'inconclusive', 'why': 'worker did not end in time'}
        finally:
            self.procs.discard(p)
        if self.stopped: return None
        try:
            return json.loads(out)
        except ValueError:
            return {'harness': job['harness'], 'case': job.get('case'), 'status': 'error',
                    'why': 'worker ended with %s: %s' % (p.returncode, err.decode('utf-8', 'replace')[-800:])}

    def stop(self):
        self.stopped = True
        for p in list(self.procs): p.kill()


def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    return json.load(open(path))['findings'] if os.path.exists(path) else []


def main():
    if sys.argv[1:] == ['--setup']:         # everything a check needs is there and builds
        if subprocess.run([PY, '-c', 'import z3'], stdout=subprocess.DEVNULL).returncode: die('no z3 bindings')
        run = os.path.join(WORK, 'setup')
        os.makedirs(run, exist_ok=True)
        build(run)
        shutil.rmtree(run)
        return 0
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS: die('usage: check.py PROPERTY   (%s)' % ' '.join(PROPS), 64)
    prop = sys.argv[1]
    only = sys.argv[2:]                 # optional harness names (development)
    spec = PROPS[prop]
    t0 = time.time()
    run = os.path.join(WORK, 'run-%s-%d' % (prop, os.getpid()))
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    try:
        return check(prop, spec, run, t0, only)
    finally:
        shutil.rmtree(run, ignore_errors=True)


def check(prop, spec, run, t0, only):
    build(run)
    t_build = time.time() - t0
    ll = os.path.join(run, 'harness.ll')
    prefix = 'h_%s_' % prop.lower()
    names = []
    with open(ll) as f:
        for line in f:
            if line.startswith('define'):
                m = re.search(r'@(%s\w+)\(' % prefix, line)
                if m: names.append(m.group(1))
    names = [n for n in sorted(names) if not only or n in only]
    base = json.load(open(os.path.join(HERE, 'covers.json'))) if os.path.exists(os.path.join(HERE, 'covers.json')) else {}
    known = [k for k in known_findings() if k.get('property') == prop]
    budget = BUDGET[TIER]
    pool = Pool()
    results, problems, violations, knownhits = [], [], [], {}
    validated, mismatches, samples = 0, [], []

    def job(h, case):
        o = spec.get('options', {}).get(h, {})
        return dict(ll=ll, harness=h, case=case, tier=int(TIER == 'thorough'), seed=SEED, samples=3, stop_after=1 if not known else 0,
                    budget=max(20, budget - (time.time() - t0)), **o)

    cases_seen = {}
    with ThreadPoolExecutor(JOBS) as tp:
        todo = {tp.submit(pool.run, job(h, None)) for h in names}
        try:
            while todo:
                for fut in as_completed(list(todo)):
                    todo.discard(fut)
                    r = fut.result()
                    if r is None: continue
                    if r['status'] == 'cases':
                        cases_seen[r['harness']] = r['n']
                        for c in range(r['n']): todo.add(tp.submit(pool.run, job(r['harness'], c)))
                        break
                    results.append(r)
                    tag = r['harness'] + ('' if r.get('case') is None else '[%d]' % r['case'])
                    if os.environ.get('VERIF_VERBOSE'):
                        print('%-34s %-12s paths %-6s queries %-6s %6.1fs %s' % (tag, r['status'], r.get('paths'), r.get('queries'), r.get('wall_s', 0), r.get('why', '')))
                        sys.stdout.flush()
                    if r['status'] in ('unsupported', 'inconclusive', 'error'): problems.append('%s: %s: %s' % (tag, r['status'], r.get('why')))
                    for v in r.get('violations', []):
                        k = next((k for k in known if k['harness'] == r['harness'] and k['check'] in (v['msg'], v['kind'] + ': ' + v['msg'])), None)
                        if k:
                            knownhits[k['what']] = v
                            continue
                        got = native(run, r['harness'], v['inputs'])
                        if reproduces(v, got):
                            violations.append((r, v, got))
                        else:
                            problems.append('%s: counterexample for "%s %s" (%s) not reproduced natively: %s' % (tag, v['kind'], v['msg'], v['where'], got[:2]))
                    if violations:
                        pool.stop()
                        todo = set()
                        break
                    for s in r.get('samples', []):
                        got = native(run, r['harness'], s['inputs'])
                        if got[0] == 'return' and got[2] == s['emits']:
                            validated += 1
                            if len(samples) < 5 and not any(x['harness'] == tag for x in samples): samples.append(dict(harness=tag, inputs=s['inputs'][:80], emits=s['emits'][:40]))
                        else:
                            mismatches.append('%s on %s: engine %s, native %s' % (tag, s['inputs'][:60], s['emits'][:20], (got[0], got[1], got[2][:20])))
        finally:
            pool.stop()

    covers = {}
    for r in results:
        c = covers.setdefault(r['harness'], {})
        for k, n in r.get('covers', {}).items(): c[k] = c.get(k, 0) + n
    if os.environ.get('VERIF_WRITE_COVERS') and not problems and not violations:
        base = json.load(open(os.path.join(HERE, 'covers.json'))) if os.path.exists(os.path.join(HERE, 'covers.json')) else {}
        for h in names: base[h] = sorted(covers.get(h, {}))
        for h in [h for h in base if h.startswith(prefix) and h not in names and not only]: del base[h]
        json.dump(base, open(os.path.join(HERE, 'covers.json'), 'w'), indent=1, sort_keys=True)
    if not violations and not only:
        for h, want in base.items():
            if not h.startswith(prefix): continue
            for c in want:
                if not covers.get(h, {}).get(c): problems.append('%s: nothing reaches "%s" (vacuous)' % (h, c))
    problems += ['translation mismatch: ' + m for m in mismatches]

    funcs = set()
    for r in results: funcs.update(r.get('functions', ()))
    crate = sorted({demangle(f) for f in funcs if 'knx_ip_client' in f})
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': sum(r.get('paths', 0) for r in results),
            'transitions': sum(r.get('blocks', 0) for r in results),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'rule': 'states: symbolic paths explored to their end (each stands for every input satisfying its path condition); '
                    'transitions: basic blocks of the LLVM module executed symbolically; traces: explored paths re-executed natively with equal outputs',
            'harnesses': [{'name': r['harness'], 'case': r.get('case'), 'status': r['status'], 'paths': r.get('paths'), 'queries': r.get('queries'),
                           'queries_unsat': r.get('unsat'), 'solver_s': r.get('solver_s'), 'wall_s': r.get('wall_s')} for r in results],
            'queries': sum(r.get('queries', 0) for r in results),
            'queries_unsat': sum(r.get('unsat', 0) for r in results),
            'solver_s': round(sum(r.get('solver_s', 0) for r in results), 2),
            'functions_encoded': len(funcs),
            'functions_encoded_of_crate': crate,
            'checks_evaluated': {k: n for k, n in sorted(merge(r.get('checks', {}) for r in results).items())},
            'covers': covers,
            'bounds': spec['bounds'],
            'exhaustive': False,
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if problems: ev['coverage']['problems'] = problems[:40]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

    for what in sorted(knownhits): print('KNOWN-FINDING: property=%s %s' % (prop, what))
    print('%s: %d runs, %d paths, %d queries (%d unsat), %.1f s solver, %d paths validated natively, build %.1f s, wall %.1f s' % (
        prop, len(results), ev['coverage']['states'], ev['coverage']['queries'], ev['coverage']['queries_unsat'], ev['coverage']['solver_s'], validated, t_build, time.time() - t0))
    if violations:
        r, v, got = violations[0]
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'harness': r['harness'], 'case': r.get('case'), 'tier': TIER, 'kind': v['kind'], 'check': v['msg'], 'at': v['loc'],
                       'where': v['where'], 'inputs': v['inputs'], 'native': got[:2],
                       'reproduce': 'python3 %s %s' % (os.path.join(HERE, 'replay.py'), path)}, f, indent=1)
        print('%s: %s "%s" in %s; native replay: %s %s' % (r['harness'], v['kind'], v['msg'], v['where'][:300], got[0], got[1]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if problems:
        for p in problems[:20]: print('NO VERDICT: ' + p)
        return 2
    return 0


def merge(ds):
    o = {}
    for d in ds:
        for k, n in d.items(): o[k] = o.get(k, 0) + n
    return o


if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    os._exit(r)
