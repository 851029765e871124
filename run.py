#!/usr/bin/env python3
"""Decides one property: run.py C01 [quick|thorough].

Regenerates the LLVM IR of /repo's current source (together with the harnesses of the property),
executes the harnesses symbolically with symir, lets the SMT solver decide every assertion for all
values within the bounds, replays counterexamples (and a sample of witnesses) against the natively
compiled library, and writes evidence/<id>.json.
"""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS
B = os.path.join(V, '.build')
SYM = os.path.join(V, 'symir/target/release/symir')
ENV = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ.get('PATH', ''), RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')

def die(msg, code=2):
    print('ERROR: ' + msg)
    sys.exit(code)

def sh(cmd, env=None, cwd=V, limit=600):
    return subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=limit)

def build_engine():
    e = dict(ENV); e.pop('RUSTFLAGS', None); e.pop('CARGO_TARGET_DIR', None)
    r = sh(['cargo', 'build', '--release', '--offline', '-q', '--locked'], e, os.path.join(V, 'symir'))
    if r.returncode: die('the engine does not build\n' + r.stdout[-3000:])

def build_ir():
    r = sh(['bash', os.path.join(V, 'build_ir.sh')])
    if r.returncode: die('the IR of /repo cannot be built\n' + r.stdout[-3000:])

def build_native(kind='native'):
    e = dict(ENV, RUSTFLAGS='-A semicolon_in_expressions_from_macros -A warnings', CARGO_TARGET_DIR=os.path.join(B, kind))
    r = sh(['cargo', 'build', '--offline', '-q', '--locked'], e, os.path.join(V, kind))
    if r.returncode: die('the native harness cannot be built\n' + r.stdout[-3000:])
    return os.path.join(B, kind, 'debug', 'hseq' if kind == 'native-seq' else 'hnative')

def replay(exe, harness, path, limit=120):
    """0 passed, 1 fails for real, else cannot tell"""
    try:
        r = sh([exe, harness, path], limit=limit)
    except subprocess.TimeoutExpired:
        return 1, 'does not terminate within %d s' % limit
    out = r.stdout.strip()[-400:]
    if r.returncode < 0: return 1, 'killed by signal %d' % -r.returncode
    return r.returncode, out

def known(pid):
    f = os.path.join(V, 'known-findings.txt')
    out = []
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r'known: property=(\S+) harness=(\S+) message=(.*)$', l.strip())
        if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    p = PROPS[pid]
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence/replay'), exist_ok=True)
    build_engine()
    build_ir()
    kn = known(pid)
    res, viol, errors, knownhit = [], [], [], []
    for h in p['harnesses']:
        if tier == 'quick' and h.get('thorough'): continue
        kf = os.path.join(B, 'known-%s.txt' % h['name'])
        open(kf, 'w').write('\n'.join(m for n, m in kn if n == h['name']) + '\n')
        of = os.path.join(B, h['name'] + '.json')
        if os.path.exists(of): os.remove(of)
        limit = h.get('time', 400) if tier == 'quick' else h.get('time_thorough', 1800)
        cmd = [SYM, '--ir', os.path.join(B, 'hir.ll'), '--harness', h['name'], '--jobs', '8', '--time', str(limit), '--qtime', str(h.get('qtime', 60000) if tier == 'quick' else 300000), '--known', kf, '--out', of] + h.get('args', [])
        if h.get('solver'): cmd += ['--solver', h['solver']]
        try:
            r = sh(cmd, limit=limit + 60)
            d = json.load(open(of))
        except Exception as e:
            errors.append('%s: the engine gave no result (%s)' % (h['name'], e)); continue
        res.append(d)
        errors += ['%s: %s' % (h['name'], x) for x in d['errors']]
        for v in d['violations']: viol.append((h['name'], v))
        for k in d['known']: knownhit.append((h['name'], k, d['known'][k]))
        missing = [c for c in h.get('covers', []) if c not in d['covered']]
        if missing and not d['violations'] and not d['errors']: errors.append('%s: vacuous, never reached: %s' % (h['name'], ', '.join(missing)))
    exe = build_native()
    confirmed = []
    for n, (h, v) in enumerate(viol):
        path = os.path.join(V, 'evidence/replay', '%s-%s-%d.txt' % (pid, h, n))
        open(path, 'w').write('# %s\n# harness %s, run: %s %s %s\n' % (v['what'].replace('\n', ' '), h, exe, h, path) + '\n'.join(v['inputs']) + '\n')
        rc, out = replay(exe, h, path)
        if rc == 0 and any(x['name'] == h and x.get('schedules') for x in p['harnesses']):
            # what needs a certain order of the work is replayed with the compiled code and that order
            rc, out = replay(build_native('native-seq'), h, path)
        if rc == 1: confirmed.append((h, v, path, out))
        else: errors.append('%s: counterexample for "%s" does not reproduce natively (rc %d: %s)' % (h, v['what'], rc, out))
    # the encoding against the implementation: inputs of explored paths must pass natively
    validated, samples = 0, []
    if not confirmed:
        for d in res:
            for k, (c, w) in enumerate(sorted(d['witnesses'].items())):
                if tier == 'quick' and k >= 40: break
                path = os.path.join(B, 'witness.txt')
                open(path, 'w').write('\n'.join(w) + '\n')
                rc, out = replay(exe, d['harness'], path)
                if rc == 0:
                    validated += 1
                    if len(samples) < 3: samples.append({'harness': d['harness'], 'reaches': c, 'inputs': [x[:200] for x in w]})
                elif any(n == d['harness'] and out.startswith('FAILED: ' + m) for n, m in kn): pass
                else: errors.append('%s: a witness of "%s" that the encoding accepts fails natively (rc %d: %s)' % (d['harness'], c, rc, out))
    tot = lambda k: sum(d.get(k, 0) for d in res)
    funcs = sorted({f for d in res for f in d['functions'] if '9rawloader' in f})
    dem = demangle(funcs)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': int(tot('paths')), 'transitions': int(tot('instructions')), 'traces_validated_against_impl': validated, 'samples': samples or [{'violation': v[1]['what']} for v in confirmed[:3]] or ['none'],
            'harnesses': [d['harness'] for d in res], 'bounds': p['bounds'], 'outside_bounds': p['outside'],
            'cases': int(tot('cases')), 'assertions_decided': int(tot('asserts')), 'assertions_identical_after_rewriting': int(tot('asserts_by_rewriting')), 'assertions_sent_to_solver': int(tot('asserts_by_solver')),
            'solver': 'z3 4.8.12 (SMT-LIB2 over a pipe)', 'queries': int(tot('queries')), 'queries_sat': int(tot('sat')), 'queries_unsat': int(tot('unsat')), 'queries_unknown': int(tot('unknown')), 'solver_time_s': round(tot('solver_time'), 3), 'branch_forks': int(tot('forks')), 'choice_forks': int(tot('choice_forks')),
            'reached': {k: v for d in res for k, v in d['covered'].items()}, 'functions_encoded': dem, 'errors': errors,
        },
        'assumptions': p['assumptions'], 'wall_s': round(wall, 2), 'violations': len(confirmed),
    }
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for h, k, _ in knownhit: print('KNOWN-FINDING: property=%s %s (%s)' % (pid, k, h))
    print('%s %s: %d harnesses, %d paths, %d assertions (%d to the solver), %d queries, %.1f s solver, %d witnesses replayed natively, %.1f s' % (pid, tier, len(res), tot('paths'), tot('asserts'), tot('asserts_by_solver'), tot('queries'), tot('solver_time'), validated, wall))
    for h, v, path, out in confirmed[:20]:
        print('violated: %s -- native replay: %s' % (v['what'], out))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if confirmed: sys.exit(1)
    if errors:
        for e in errors[:20]: print('ERROR: ' + e[:600])
        sys.exit(2)

def demangle(names):
    # v0 symbols to readable paths: the identifiers after the crate name
    out = set()
    for n in names:
        i = n.find('9rawloader')
        ids, k = [], i
        s = n[i:]
        for m in re.finditer(r'(?<![0-9])(\d+)_?([a-zA-Z_][a-zA-Z0-9_]*)', s):
            l = int(m.group(1)); w = m.group(2)[:l]
            if len(w) == l: ids.append(w)
        out.add('::'.join(ids[:5]))
    return sorted(out)

main()
