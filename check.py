#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code (see DESIGN.md).

usage: check.py <property id>           run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
       check.py --replay <file>         run a counterexample natively
       check.py --setup                 build everything once
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, '.build')
sys.path.insert(0, os.path.join(V, 'tools'))
import prep
from props import PROPS
REPO = '/repo'
ENV = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO', 'RUST', 'VH_'))}
for k in ('CARGO_HOME', 'RUSTUP_HOME'):
    if k in os.environ: ENV[k] = os.environ[k]
ENV['RUSTUP_TOOLCHAIN'] = 'stable'

class Broken(Exception): pass

def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.build'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(('.rs', '.toml', '.c', '.lock', '.py')):
                    h.update(p.encode() + b'\0'); h.update(open(p, 'rb').read()); h.update(b'\0')
    return h.hexdigest()

def build_engine():
    r = subprocess.run(['cargo', 'build', '--release', '--offline'], cwd=V + '/engine', env=dict(ENV, CARGO_TARGET_DIR=B + '/engine'), capture_output=True, text=True)
    if r.returncode: raise Broken('engine build failed\n' + r.stderr[-3000:])
    return B + '/engine/release/engine'

def build_harness(features):
    """Build the harness crate (and with it /repo's crates) to one LLVM module and a native executable."""
    prep.tokio(B, os.path.join(V, 'models/vh'))
    target = B + '/target'
    stamp = B + '/sources'
    now = tree_hash(REPO + '/paladin-core', REPO + '/paladin-opkind-derive', V + '/models', V + '/harness')
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != now:
        # never trust modification times: rebuild every local crate when any content differs
        for d in glob.glob(target + '/release/.fingerprint/*'):
            if re.match(r'(paladin|harness|vh-|lapin|tokio-executor-trait|tokio-reactor-trait|ops)', os.path.basename(d)): shutil.rmtree(d)
        if os.path.exists(stamp): os.remove(stamp)
    for f in glob.glob(target + '/release/deps/harness-*') + glob.glob(target + '/release/harness*'):
        if not os.path.isdir(f): os.remove(f)
    for d in glob.glob(target + '/release/.fingerprint/harness-*'): shutil.rmtree(d)
    r = subprocess.run(['cargo', 'rustc', '--release', '--offline', '--features', features, '--', '--emit=llvm-ir,link', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'],
        cwd=V + '/harness', env=dict(ENV, CARGO_TARGET_DIR=target), capture_output=True, text=True)
    if r.returncode: raise Broken('harness build failed\n' + '\n'.join(re.findall(r'^error.*(?:\n .*)*', r.stderr, re.M))[:4000])
    ll = glob.glob(target + '/release/deps/harness-*.ll')
    if len(ll) != 1: raise Broken(f'expected one LLVM module, found {ll}')
    open(stamp, 'w').write(now)
    return ll[0], target + '/release/harness'

def scheduled(ll):
    """An executable of the same module whose threads follow the schedule of a path: calls of vh_sched before every atomic
    operation (see vh.c)."""
    src, dst = ll[:-3] + '-sched.ll', B + '/target/release/harness-sched'
    with open(ll) as i, open(src, 'w') as o:
        for l in i:
            if re.match(r'  (%\S+ = )?(load atomic|store atomic|atomicrmw|cmpxchg) ', l): o.write('  call void @vh_sched()\n')
            o.write(l.replace('@llvm.x86.sse2.pause()', '@vh_pause()') if l.startswith('  ') else l)
        o.write('declare void @vh_sched()\ndeclare void @vh_pause()\n')
    sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=ENV, capture_output=True, text=True).stdout.strip() + '/lib/rustlib/x86_64-unknown-linux-gnu'
    r = subprocess.run([sysroot + '/bin/llc', '-O1', '-filetype=obj', '-relocation-model=pic', '-function-sections', src, '-o', src + '.o'], capture_output=True, text=True)
    vh = max(glob.glob(B + '/target/release/build/harness-*/out/vh.o'), key=os.path.getmtime)
    if r.returncode == 0:
        r = subprocess.run(['cc', src + '.o', vh, '-o', dst, '-pie', '-Wl,--gc-sections', *glob.glob(sysroot + '/lib/libcompiler_builtins-*.rlib'), '-lgcc_s', '-lpthread', '-lm', '-ldl', '-lc'], capture_output=True, text=True)
    for f in (src, src + '.o'):
        if os.path.exists(f): os.remove(f)
    if r.returncode: raise Broken('building the scheduled executable failed\n' + r.stderr[-3000:])
    return dst

def native(exe, harness, values, trace=False, timeout=20, wrap=(), preempt=None):
    """Run a harness natively with the given values. -> (verdict, label, lines)"""
    os.makedirs(B + '/replay', exist_ok=True)
    vf = f'{B}/replay/values-{os.getpid()}-{native.n}'; native.n += 1
    open(vf, 'w').write('\n'.join(str(v) for v in values) + '\n')
    env = {'PATH': '/usr/bin:/bin', 'VH_REPLAY': vf}
    if trace: env['VH_TRACE'] = '1'
    if preempt is not None: env['VH_PREEMPT'] = str(preempt)
    try: r = subprocess.run([*wrap, exe, harness], env=env, capture_output=True, text=True, errors='replace', timeout=timeout, cwd='/')
    except subprocess.TimeoutExpired as e: return 'hang', '', (e.stdout or b'').decode(errors='replace').splitlines(), ''
    finally: os.remove(vf)
    lines = r.stdout.splitlines()
    for l in lines:
        if l.startswith('VH-FAIL '): return 'check', l[8:], lines, r.stderr
        if l == 'VH-DEADLOCK': return 'deadlock', '', lines, r.stderr
        if l == 'VH-ASSUME': return 'assume', '', lines, r.stderr
    if r.returncode == 0 and 'VH-DONE' in lines: return 'done', '', lines, r.stderr
    if r.returncode in (-6, 134, 101, -4): return 'panic', '', lines, r.stderr
    return f'exit {r.returncode}', '', lines, r.stderr
native.n = 0

def reproduce(exe, v, preempt=None):
    """Does the real code, run natively with the solver's values, fail the same way?"""
    kind = v['kind']
    wrap = ('valgrind', '--error-exitcode=99', '-q') if kind == 'memory' else ()
    verdict, label, lines, err = native(exe, v['harness'], v['values'], wrap=wrap, timeout=60 if wrap else 20, preempt=preempt)
    if kind == 'check': ok = verdict == 'check' and label == v['label']
    elif kind == 'panic': ok = verdict == 'panic'
    elif kind in ('deadlock', 'budget'): ok = verdict in ('hang', 'panic', 'deadlock')
    elif kind == 'stack': ok = verdict not in ('done', 'check', 'assume')
    else: ok = verdict.startswith('exit') or verdict == 'panic'
    return ok, verdict, label, err

def validate(exe, h, preempt=None):
    """Replay complete symbolic paths natively and compare everything observable: what was asked for, in which order,
    what was covered and logged."""
    good, bad = 0, []
    for s in h['samples']:
        verdict, label, lines, err = native(exe, h['harness'], s['values'], trace=True, preempt=preempt)
        asked = [l[7:] for l in lines if l.startswith('VH-ASK ')]
        covers = sorted({l[9:] for l in lines if l.startswith('VH-COVER ')})
        logs = [l[7:] for l in lines if l.startswith('VH-LOG ')]
        want = [f'{a} {b}' for a, b in s['logs']]
        if verdict == 'done' and asked == s['labels'] and covers == sorted(s['covers']) and logs == want: good += 1
        else:
            at = next((i for i, (a, b) in enumerate(zip(asked, s['labels'])) if a != b), min(len(asked), len(s['labels'])))
            bad.append(dict(harness=h['harness'], verdict=verdict, differ_at=at, native_labels=asked[at:at + 5], labels=s['labels'][at:at + 5], native_covers=covers, covers=s['covers'], native_logs=logs, logs=want, stderr=err[-500:], values=s['values']))
    return good, bad

def known(pid):
    p = V + '/known-findings.txt'
    out = []
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\w+) harness=(\S+) kind=(\w+) label="([^"]*)" (.*)', l)
        if m and m[1] == pid: out.append(dict(harness=m[2], kind=m[3], label=m[4], what=m[5]))
    return out

def specs(p, tier):
    """[(cargo feature to build, [(harness, seconds, preemptions)])]"""
    out = {}
    for s in (p['quick'] + ' ' + (p.get('thorough', '') if tier == 'thorough' else '')).split():
        feature, _, s = s.rpartition('/')
        f = s.split(':')
        secs = int(f[1]) if len(f) > 1 and f[1] else 30
        if tier == 'thorough': secs = min(secs * 3, 300)
        out.setdefault(feature or p['features'], []).append((f[0], secs, int(f[2]) if len(f) > 2 else 0))
    return list(out.items())

def explore(engine, ll, todo, pid, p, total):
    """Execute harnesses symbolically."""
    out = f'{B}/engine-{pid}.json'
    if os.path.exists(out): os.remove(out)
    r = subprocess.run([engine, '--ll', ll, '--threads', str(os.cpu_count() or 8), '--samples', '4', '--out', out, '--total', str(max(int(total), 20)), '--skip', ';'.join(p.get('skip', []))] + [f'{n}:{s}:{pre}' for n, s, pre in todo],
        env=ENV, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out): raise Broken(f'engine failed ({r.returncode})\n' + r.stderr[-3000:])
    return json.load(open(out))['harnesses']

def judge(h, exe, preempt, pid, features, kf, errors, violations, known_hits, unreproduced):
    """Sort out what the exploration of a harness found. -> how many of its paths were replayed natively"""
    good, bad = validate(exe, h, preempt)
    if bad: errors.append(f'{h["harness"]}: the encoding and the native run disagree: ' + json.dumps(bad[0])[:2500])
    tried = {}
    for v in h['violations'] + ([h['budget_sample']] if h['budget_sample'] else []):
        v['harness'] = h['harness']
        key = (v['kind'], v['label'])
        if tried.get(key, 0) >= 3: continue
        ok, verdict, label, err = reproduce(exe, v, preempt)
        tried[key] = 9 if ok else tried.get(key, 0) + 1
        if not ok: unreproduced.append((v, verdict, label)); continue
        k = next((k for k in kf if k['harness'] == h['harness'] and k['kind'] == v['kind'] and k['label'] == v['label']), None)
        if k: known_hits.append(k); continue
        path = f'{B}/replay/{pid}-{h["harness"]}-{len(violations)}.json'
        json.dump(dict(property=pid, harness=h['harness'], features=features, preempt=preempt, kind=v['kind'], label=v['label'], values=v['values'], labels=v['labels'], logs=v['logs'], stack=v['stack'], stderr=err[-2000:]), open(path, 'w'), indent=1)
        violations.append((v, path))
    if not h['covers'] and not h['violations']: errors.append(f'{h["harness"]}: no path reached a cover point (paths {h["paths"]}, unsupported {h["unsupported"]})')
    if h['paths'] == 0 and not h['violations']: errors.append(f'{h["harness"]}: nothing explored ({h["unsupported"]})')
    return good

def main(pid):
    t0 = time.time()
    p = PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    ev_path = f'{V}/evidence/{pid}.json'
    if os.path.exists(ev_path): os.remove(ev_path)
    lock = open(B + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    engine = build_engine()
    kf = known(pid)
    errors, violations, known_hits, unreproduced, hs = [], [], [], [], []
    validated = t_build = 0
    # the whole exploration has to fit: 900 s per check
    total = (2400 if tier == 'thorough' else 600)
    for features, todo in specs(p, tier):
        t2 = time.time()
        ll, exe = build_harness(features)
        threads = any(pre for _, _, pre in todo)
        if threads: exe = scheduled(ll)
        t_build += time.time() - t2
        for h in explore(engine, ll, todo, pid, p, total):
            total -= h['secs']
            hs.append(h)
            validated += judge(h, exe, h['preempt'] if threads else None, pid, features, kf, errors, violations, known_hits, unreproduced)
    checks = {}
    for h in hs:
        for l, (c, s) in h['checks'].items():
            if any(k in l for k in p.get('skip', [])): continue
            a = checks.setdefault(l, [0, 0]); a[0] += c; a[1] += s
    fns = sorted({f for h in hs for f in h['functions'] if 'paladin' in f})
    sm = lambda k: sum(h[k] for h in hs)
    cov = dict(
        states=sm('states'), transitions=sm('instructions'), traces_validated_against_impl=validated,
        exhaustive=all(h['exhaustive'] and not h['unsupported'] and not h['unknown'] for h in hs),
        units='states: symbolic states (path prefixes) explored; transitions: LLVM instructions executed symbolically; traces: complete symbolic paths replayed natively with equal observations',
        paths=sm('paths'), queries=sm('queries'), query_cache_hits=sm('cache_hits'), sat=sm('sat'), unsat=sm('unsat'), unknown=sm('unknown'), solver_s=round(sm('solver_secs'), 2), max_query_s=max(h['max_query_secs'] for h in hs),
        assertions={l: dict(decided_by_folding=c, decided_by_solver=s) for l, (c, s) in sorted(checks.items())},
        harnesses=[dict(name=h['harness'], exhaustive=h['exhaustive'], timed_out=h['timed_out'], paths=h['paths'], infeasible=h['killed'], states=h['states'], instructions=h['instructions'], longest_path=h['max_path_instructions'], max_symbolic_inputs=h['max_vars'],
            secs=round(h['secs'], 2), covers=h['covers'], preemptions=h['preempt'], unsupported=h['unsupported'], sampled=h['sampled'], violations=h['violations_total'], functions=h['functions_total']) for h in hs],
        functions_encoded=fns, build_s=round(t_build, 1),
        samples=[dict(harness=h['harness'], inputs=list(zip(s['labels'], s['values'])), covers=s['covers'], logs=s['logs']) for h in hs for s in h['samples'][:1]][:8])
    json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
        assumptions=p.get('assumptions', []) + ['inputs, sizes, scheduling deviations and environment events bounded as in DESIGN.md; scheduling bounds are per harness', 'tokio is the pinned version with four patched decision points; lapin is replaced by a model of a broker'],
        wall_s=round(time.time() - t0, 2), violations=len(violations)), open(ev_path, 'w'), indent=1)
    seen = set()
    for k in kf:
        if k in known_hits and k['what'] not in seen:
            seen.add(k['what']); print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    for k in kf:
        # a listed finding whose harness takes too long for this tier
        if k['harness'] not in {h['harness'] for h in hs}: print(f'KNOWN-FINDING: property={pid} {k["what"]} (looked for by the thorough check only)')
    for v, path in violations:
        print(f'{pid} {v["harness"]}: {v["kind"]}: {v["label"]}  values={v["values"]}')
        print(f'VIOLATION property={pid} replay={path}')
    print(f'{pid}: {len(hs)} harnesses, {cov["paths"]} paths, exhaustive={cov["exhaustive"]}, {cov["queries"]} queries, {validated} traces validated, build {t_build:.0f} s, total {time.time() - t0:.0f} s')
    if violations: return 1
    for v, verdict, label in unreproduced: errors.append(f'{v["harness"]}: {v["kind"]} "{v["label"]}" does not reproduce natively ({verdict} {label}) values={v["values"]} stack={v["stack"][:6]}')
    if errors:
        print('ERROR\n' + '\n'.join(errors[:10]))
        return 3
    return 0

if __name__ == '__main__':
    try:
        if sys.argv[1] == '--setup':
            os.makedirs(B, exist_ok=True)
            build_engine(); build_harness('fold')
        elif sys.argv[1] == '--replay':
            d = json.load(open(sys.argv[2]))
            os.makedirs(B, exist_ok=True)
            ll, exe = build_harness(d['features'])
            if d.get('preempt') is not None: exe = scheduled(ll)
            ok, verdict, label, err = reproduce(exe, d, d.get('preempt'))
            print(verdict, label); print(err[-3000:])
            sys.exit(1 if ok else 0)
        else: sys.exit(main(sys.argv[1]))
    except Broken as e:
        print(f'ERROR {e}'); sys.exit(3)
