#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Builds the compiler driver if needed, lets it type-check /repo's current working tree and dump its MIR,
runs the dataflow analysis, applies the property's rule and writes evidence/<property>.json."""
import sys, os, json, time, subprocess, tempfile, shutil, glob
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('NR_REPO', '/repo')
KEEP = ";".join("file:core/src/" + x for x in ("option.rs", "result.rs", "bool.rs", "ops/function.rs", "ops/control_flow.rs", "convert/mod.rs", "cmp.rs", "cmp/impls.rs"))

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS'): e.pop(k, None)
    e['CARGO_INCREMENTAL'] = '0'; e['CARGO_NET_OFFLINE'] = 'true'
    return e
def driver():
    exe = f'{ROOT}/driver/target/release/nrmir'
    src = max(os.path.getmtime(f) for f in [f'{ROOT}/driver/src/main.rs', f'{ROOT}/driver/Cargo.toml'])
    if not os.path.exists(exe) or os.path.getmtime(exe) < src:
        r = run(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', f'{ROOT}/driver/target'], cwd=f'{ROOT}/driver', env=env())
        if r.returncode or not os.path.exists(exe):
            print(r.stdout); print('the driver does not build'); sys.exit(3)
    return exe
def dump(scratch, repo=None, release=False, target=None, extra=()):
    """type-checks the crate with the driver; returns the dumped program"""
    exe = driver(); e = env()
    e['LD_LIBRARY_PATH'] = run(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip() + '/lib'
    out = f'{scratch}/mir{"-rel" if release else ""}.json'
    tgt = target or f'{scratch}/target'
    for p in glob.glob(f'{tgt}/*/build/nodejs-resolver') + glob.glob(f'{tgt}/*/.fingerprint/nodejs-resolver-*'): shutil.rmtree(p, ignore_errors=True)
    e.update(NRMIR_CRATE='nodejs_resolver', NRMIR_OUT=out, NRMIR_KEEP=KEEP, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tgt)
    if os.path.exists(out): os.remove(out)
    # cargo would write a lock file when there is none: work on the lock file there is
    r = run(['cargo', '+nightly', 'check', '--offline', '--lib'] + (['--release'] if release else []) + list(extra), cwd=repo or REPO, env=e)
    if r.returncode or not os.path.exists(out):
        print(r.stdout[-4000:]); print('the crate does not compile'); sys.exit(3)
    return json.load(open(out))

def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for i, x in enumerate(sys.argv):
        if x == '--tier': tier = sys.argv[i + 1]; a = [y for y in a if y != tier]
    ids = a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import rules, signal
    def late(*_): raise TimeoutError('the analysis ran out of time')
    signal.signal(signal.SIGALRM, late); signal.alarm(int(os.environ.get('NR_LIMIT', '800')))
    scratch = tempfile.mkdtemp(prefix='nrcheck.')
    rc = 0
    try:
        progs = []
        tgt = os.environ.get('NR_TARGET')
        progs.append(('dev', dump(scratch, target=tgt)))
        if tier == 'thorough': progs.append(('release', dump(scratch, release=True, target=tgt)))
        res = {}
        for cfg, m in progs:
            c = None
            try:
                c = rules.Ctx(m, cfg, scratch=scratch, repo=REPO)
                for pid in ids: res.setdefault(pid, []).append((cfg, c, rules.apply(pid, c)))
            except Exception as x:
                # the analysis does not know what to make of the tree: that is no evidence of a violation
                if os.environ.get('NR_DEBUG'): raise
                for pid in ids:
                    r = rules.R(''); r.note(f'the analysis gave up: {type(x).__name__}: {x}')
                    res.setdefault(pid, []).append((cfg, c, r))
        known = json.load(open(f'{ROOT}/known_findings.json'))
        for pid in ids:
            rc = max(rc, report(pid, res[pid], known, tier, seed, t0))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc

def report(pid, rs, known, tier, seed, t0):
    kf = {k['key']: k for k in known['findings'] if k['property'] == pid}
    viol = {}; cov = {}; notes = []
    for cfg, c, r in rs:
        for key, msg in r.violations: viol.setdefault(key, []).append(f'[{cfg}] {msg}')
        cov[cfg] = {'functions_analysed': len(r.functions), 'functions': sorted(r.functions)[:200], 'paths': r.paths, 'obligations': r.obl, 'obligations_by_rule': r.by, 'sites': sorted(r.sites)[:400]}
        notes += [f'[{cfg}] {n}' for n in r.notes]
    new = {k: v for k, v in viol.items() if k not in kf}
    for k in viol:
        if k in kf: print(f'KNOWN-FINDING: property={pid} {kf[k]["what"]}')
    for n in dict.fromkeys(notes): print('note:', n)
    r0 = rs[0][2]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2),
          'coverage': {'explanation': r0.rule, 'configurations': cov, 'unanalysed': sorted(set(notes)),
                       'obligations': sum(x['obligations'] for x in cov.values()), 'violations': [{'key': k, 'at': v} for k, v in viol.items()], 'known_findings': [k for k in viol if k in kf]}}
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    json.dump(ev, open(f'{ROOT}/evidence/{pid}.json', 'w'), indent=1)
    if new:
        rp = f'{ROOT}/evidence/{pid}.violation.txt'
        with open(rp, 'w') as f:
            for k, v in new.items():
                f.write(k + '\n' + ''.join('   ' + x + '\n' for x in v))
        for k, v in new.items(): print(f'  {k}: {v[0][:600]}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    print(f'{pid}: held ({sum(x["obligations"] for x in cov.values())} obligations, {sum(x["functions_analysed"] for x in cov.values())} functions, {time.time()-t0:.1f}s)')
    return 0
if __name__ == '__main__': sys.exit(main())
