#!/usr/bin/env python3
"""Decides one property: rebuilds the harness (and through it /repo's crates) to LLVM IR, executes the property's
entries symbolically with rsx, replays counterexamples and sampled paths on a native build, writes the evidence.

  check.py PROPERTY [--tier quick|thorough]

exit 0: held on every path within the bounds      exit 1: VIOLATION line, reproduced natively
exit 2: no verdict (build failure, counterexample that does not reproduce, vacuity)
An exploration that could not be completed (never the case on the unchanged tree) is reported as NOT ALL EXPLORED and in
the evidence; the exit code then says whether the property held on everything that was explored.
"""
import argparse, concurrent.futures as cf, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import checks  # noqa: E402

TOOL = 'nightly-2024-10-18'
BUILD = os.path.join(V, 'build')
ENGINE = os.path.join(BUILD, 'engine', 'release', 'rsx')


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', **kw)
    return e


def run(cmd, cwd, e, log):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    with open(log, 'w') as f:
        f.write(p.stdout)
    return p


class NoVerdict(Exception):
    pass


def build_engine():
    p = run(['cargo', 'build', '--release', '--offline', '--locked'], os.path.join(V, 'engine'),
            env(RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=os.path.join(BUILD, 'engine')), os.path.join(BUILD, 'engine.log'))
    if p.returncode:
        raise NoVerdict('engine does not build:\n' + p.stdout[-3000:])


def build_ir(group, features):
    d = os.path.join(V, 'harness', group)
    tgt = os.path.join(BUILD, 't')
    os.makedirs(os.path.join(BUILD, 'ir'), exist_ok=True)
    ll = os.path.join(BUILD, 'ir', group + '-' + features[-1].replace(',', '-') + '.ll')
    def go():
        p = run(['cargo', 'rustc', '--lib', '--crate-type', 'staticlib', '--release', '--offline', '--locked', *features, '--', '--emit=llvm-ir=' + ll], d,
                env(RUSTUP_TOOLCHAIN=TOOL, CARGO_TARGET_DIR=tgt, RUSTFLAGS='--cfg rsx -C no-vectorize-loops -C no-vectorize-slp'),
                os.path.join(BUILD, f'ir-{group}.log'))
        if p.returncode:
            raise NoVerdict(f'harness {group} does not build against /repo:\n' + p.stdout[-3000:])
    go()
    if not os.path.exists(ll):  # cargo believes it is there
        run(['cargo', 'clean', '--release', '-p', 'h-' + group, '--offline'], d, env(RUSTUP_TOOLCHAIN=TOOL, CARGO_TARGET_DIR=tgt), os.path.join(BUILD, f'clean-{group}.log'))
        go()
    if not os.path.exists(ll):
        raise NoVerdict('no LLVM IR produced')
    return ll


def build_native(group, features):
    d = os.path.join(V, 'harness', group)
    tgt = os.path.join(BUILD, 'n')
    # release code generation (as users run it) but with the overflow checks of the development profile
    p = run(['cargo', 'build', '--bin', f'replay-{group}', '--release', '--offline', '--locked', *features], d,
            env(RUSTUP_TOOLCHAIN=TOOL, CARGO_TARGET_DIR=tgt, CARGO_PROFILE_RELEASE_LTO='off', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='16'),
            os.path.join(BUILD, f'native-{group}.log'))
    if p.returncode:
        raise NoVerdict(f'replay binary of {group} does not build:\n' + p.stdout[-3000:])
    return os.path.join(tgt, 'release', f'replay-{group}')


def inputs_file(path, inputs):
    with open(path, 'w') as f:
        for n, h in inputs:
            f.write(f'{n}\t{h}\n')


def native(binary, entry, path, tier, label=None, timeout=30):
    e = env(SYM_INPUTS=path, SYM_TIER=str(tier))
    if label is not None:
        e['SYM_LABEL'] = label
    try:
        p = subprocess.run([binary, entry], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        return None, 'timeout'


def reproduces(v, rc, err):
    if v['kind'] == 'check':
        return rc == 101 and 'CHECK FAILED ' + v['label'] in err
    if v['kind'] == 'limit':
        return rc is None
    return (rc is not None and rc < 0) or (rc == 101 and 'panicked at' in err) or rc == 134


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    prop = checks.PROPS[a.property]
    tier = 0 if a.tier == 'quick' else 1
    limit = prop.get('time', (400, 2400))[tier]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'replays'), exist_ok=True)
    entries = prop['entries']  # [(group, entry)]
    groups = sorted({g for g, _ in entries})
    # one cargo feature per entry family: the harness compiles what this property needs and nothing else
    features = {g: ['--no-default-features', '--features', ','.join(sorted({n.split('_')[0] for h, n in entries if h == g}))] for g in groups}
    problems, known, viol = [], [], []
    results, tiers, ll, nat = {}, {}, {}, {}
    partial = []
    ev = {'property': a.property, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking'}
    validated = mismatched = 0
    samples = []
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            fe = ex.submit(build_engine)
            fn = {g: ex.submit(build_native, g, features[g]) for g in groups}
            for g in groups:  # same target directory: one after another
                ll[g] = build_ir(g, features[g])
            fe.result()

            def go(ge):
                g, n = ge
                out = os.path.join(BUILD, f'out-{a.property}-{n}.json')
                if os.path.exists(out):
                    os.remove(out)

                def explore(t, lim):
                    cmd = [ENGINE, '--ll', ll[g], '--entry', n, '--time', str(lim), '--tier', str(t), '--out', out]
                    for f in checks.FILTER:
                        cmd += ['--fn-filter', f]
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
                    if p.returncode or not os.path.exists(out):
                        return None, p.stderr[-1500:]
                    with open(out) as f:
                        return json.load(f), ''

                narrow = n in checks.NARROW
                r, err = explore(tier, 100 if narrow and not tier else limit)
                tiers[ge] = tier
                if narrow and r and not r['complete'] and not r['violations']:
                    wide = r
                    r, err = explore(2, limit)
                    tiers[ge] = 2
                    if r:
                        r['narrowed_after'] = {k: wide[k] for k in ('paths', 'wall_s', 'unsupported')}
                return ge, r, err

            with cf.ThreadPoolExecutor(a.jobs) as ex2:
                for ge, r, err in ex2.map(go, entries):
                    results[ge] = r
                    if r is None:
                        problems.append(f'{ge[1]}: engine failed: {err}')
            for g in groups:
                nat[g] = fn[g].result()
    except NoVerdict as e:
        problems.append(str(e))

    kf = checks.known_findings()
    for (g, n), r in results.items():
        if r is None or g not in nat:
            continue
        had = False
        for i, v in enumerate(r['violations']):
            path = os.path.join(BUILD, 'replays', f'{a.property}-{n}-{i}.inputs')
            inputs_file(path, v['inputs'])
            rc, err = native(nat[g], n, path, tiers[g, n], v['label'] if v['kind'] == 'check' else None)
            shown = [(k, bytes.fromhex(h).decode('latin-1')) for k, h in v['inputs'] if not k.startswith('rnd')]
            if reproduces(v, rc, err):
                tail = [l for l in err.splitlines() if 'CHECK FAILED' in l or 'panicked' in l or l.startswith('SYM: ')]
                rec = {'entry': n, 'label': v['label'], 'kind': v['kind'], 'message': v['msg'], 'inputs': shown, 'stack': v['stack'], 'native': tail[-8:],
                       'replay_cmd': f'SYM_TIER={tiers[g, n]} SYM_INPUTS={path} {nat[g]} {n}'}
                k = [x for x in kf if x['property'] == a.property and x['entry'] == n and x['label'] == v['label']]
                if k:
                    known.append((k[0], rec))
                else:
                    had = True
                    with open(path + '.json', 'w') as f:
                        json.dump(rec, f, indent=1)
                    viol.append((path, rec))
            elif v['kind'] == 'limit':
                partial.append(f"{n}: {v['msg']} (terminates natively): outside the exploration bound")
            else:
                problems.append(f"{n}: counterexample for '{v['label']}' does not reproduce natively (rc={rc}): {shown} {err[-600:]}")
        # everything explored counts; what was not explored is reported as such (never the case on the unchanged tree)
        if not r['complete']:
            partial.append(f"{n}: {r['paths']} paths explored in {r['wall_s']}s, but not all: {r['unsupported']}")
        if 'narrowed_after' in r:
            partial.append(f"{n}: one random draw at a time instead of all at once (all at once: {r['narrowed_after']})")
        if not had:
            for c in checks.expected_covers(n):
                if c not in r['covers']:
                    problems.append(f"{n}: vacuous: '{c}' is never reached")
            if not r['covers'] or not r['checks'] and not checks.panic_only(n):
                problems.append(f'{n}: vacuous: no assertion reached')
        # engine validation: sampled symbolic paths must behave identically in the native build
        if 'uf' not in checks.flags(n):
            for j, s in enumerate(r['samples'][: 12 if tier else 6]):
                path = os.path.join(BUILD, 'replays', f'{a.property}-{n}-sample.inputs')
                inputs_file(path, s['inputs'])
                rc, err = native(nat[g], n, path, tiers[g, n], '(none)')
                cov = re.findall(r'^SYM: reached (.*)$', err, re.M)
                if rc == 0 and cov == s['covers'] and 'CHECK FAILED' not in err:
                    validated += 1
                    if j == 1 or len(r['samples']) == 1:
                        samples.append({'entry': n, 'inputs': [(k, bytes.fromhex(h).decode('latin-1')) for k, h in s['inputs'] if not k.startswith('rnd')][:24], 'reached': cov})
                else:
                    mismatched += 1
                    if not had:
                        problems.append(f'{n}: native run of a symbolic path differs: rc={rc} covers {cov} expected {s["covers"]} {err[-400:]}')
    ok = [r for r in results.values() if r]
    S = lambda k: sum(r[k] for r in ok)
    ev['coverage'] = {
        'states': S('paths'), 'transitions': S('forks'), 'traces_validated_against_impl': validated, 'samples': samples[:12],
        'method': 'bounded symbolic execution of the compiled code (LLVM IR of the harness linked with /repo\'s crates); every branch and assertion decided by Z3 or by an exact byte-table procedure cross-checked with Z3',
        'states_are': 'completed symbolic paths (each one a set of inputs)', 'transitions_are': 'symbolic branch decisions',
        'entries': {n: ({k: r[k] for k in ('complete', 'paths', 'assumed_away', 'instructions', 'checks', 'queries', 'sat', 'unsat', 'table_queries', 'crosschecked_sat', 'crosschecked_unsat', 'solver_s', 'wall_s', 'symbols', 'covers', 'labels')} if r else None) for (_, n), r in results.items()},
        'functions_encoded': sorted({f for r in ok for f in r['functions']})[:400],
        'functions_encoded_total_including_dependencies': max([r['functions_total'] for r in ok], default=0),
        'queries_discharged': S('queries'), 'solver_seconds': round(S('solver_s'), 2), 'assertions_evaluated': S('checks'),
        'paths_excluded_by_assumption': S('assumed_away'),
        'bounds': prop['bounds'], 'outside_bounds': prop.get('outside', ''), 'stubs_and_assumptions': checks.assumptions(prop),
        'crosscheck': {'paths_confirmed_feasible_by_z3': S('crosschecked_sat'), 'table_unsat_confirmed_by_z3': S('crosschecked_unsat')},
        'violations': [r for _, r in viol], 'known_findings': [r for _, r in known], 'problems': problems, 'not_explored': partial,
    }
    ev['wall_s'] = round(time.time() - t0, 2)
    with open(os.path.join(V, 'evidence', a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, r in known:
        print(f"KNOWN-FINDING: property={a.property} {k['what']}")
    for p, r in viol:
        print(f"  {r['entry']}: {r['label']}: {r['message']}\n    inputs {r['inputs']}\n    native {r['native']}\n    {r['replay_cmd']}")
        print(f'VIOLATION property={a.property} replay={p}.json')
    for p in partial:
        print('NOT ALL EXPLORED: ' + p)
    for p in problems:
        print('NO VERDICT: ' + p)
    print(f"{a.property} {a.tier}: {S('paths')} paths, {S('queries')} queries, {S('solver_s'):.1f}s solving, {validated} paths replayed natively, {ev['wall_s']}s")
    sys.exit(1 if viol else 2 if problems else 0)


if __name__ == '__main__':
    try:
        main()
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
