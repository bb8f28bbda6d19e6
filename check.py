#!/usr/bin/env python3
"""Decide one property by symbolic execution of the code in /repo.

check.py <property> [quick|thorough]     run a check (exit 0 held, 1 VIOLATION, other: no answer)
check.py --setup                         build the engine and every harness
check.py --replay <replay.json>          run one recorded counterexample on the machine build
"""
import collections, glob, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS, CRATES
B = os.path.join(V, '.build')
ENGINE = os.path.join(B, 'engine', 'release', 'symx')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'SX_THOROUGH', 'CARGO_ENCODED_RUSTFLAGS'):
    ENV.pop(k, None)

def die(msg, code=2):
    print('ERROR', msg)
    sys.stdout.flush()
    sys.exit(code)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=kw.pop('env', ENV), **kw)

def build_engine():
    r = sh(['cargo', 'build', '--release', '--offline', '--target-dir', os.path.join(B, 'engine')], cwd=os.path.join(V, 'engine'))
    if r.returncode: die('the engine does not build:\n' + r.stdout[-4000:])

def env_for(tier):
    e = dict(ENV)
    if tier == 'thorough': e['SX_THOROUGH'] = '1'
    return e

def build_bc(crate, tier):
    """the harness and everything it calls in /repo, as one LLVM bitcode module"""
    t = os.path.join(B, 'h-' + tier)
    deps = os.path.join(t, 'release', 'deps')
    for f in glob.glob(os.path.join(deps, 'h_%s-*.bc' % crate)): os.remove(f)
    r = sh(['cargo', 'rustc', '--release', '--offline', '-p', 'h-' + crate, '--target-dir', t, '--', '--emit=llvm-bc'], cwd=os.path.join(V, 'harness'), env=env_for(tier))
    bc = glob.glob(os.path.join(deps, 'h_%s-*.bc' % crate))
    # the machine link of the symbolic build cannot succeed (engine intrinsics are undefined); the bitcode is what counts
    if not bc: die('the harness for %s does not build against /repo:\n%s' % (crate, r.stdout[-6000:]))
    return bc[0]

def build_native(crate, tier):
    t = os.path.join(B, 'h-' + tier)
    r = sh(['cargo', 'build', '--profile', 'replay', '--features', 'native', '--offline', '-p', 'h-' + crate, '--target-dir', t], cwd=os.path.join(V, 'harness'), env=env_for(tier))
    if r.returncode: die('the native replay build failed:\n' + r.stdout[-4000:])
    return os.path.join(t, 'replay', 'h-' + crate)

def native_run(exe, entry, values, prop):
    d = os.path.join(B, 'values-%d' % os.getpid())
    with open(d, 'w') as f: f.write('\n'.join(str(v) for v in values))
    try:
        r = sh([exe, entry], env=dict(ENV, SX_VALUES=d, SX_PROP=prop, RUST_BACKTRACE='0'), timeout=120)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        os.remove(d)

def reproduced(v, rc, out):
    if v['kind'] == 'assertion': return rc == 1 and ('VIOLATED ' + v['msg']) in out
    # a panic or an invalid memory access ends the process
    return rc in (-6, -11, 134, 139) or (rc == 1 and 'VIOLATED' in out)

def demangle(names):
    try:
        r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        if r.returncode == 0: return r.stdout.split('\n')
    except OSError:
        pass
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split('\n')
    except OSError:
        return names

def known(prop):
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) msg="([^"]*)"(?: values=(\S+))?(.*)', l)
            if m and m.group(1) == prop: out.append(dict(entry=m.group(2), msg=m.group(3), values=m.group(4), text=m.group(5).strip(), seen=False))
    return out

def merge(path):
    A = {}
    for l in open(path):
        r = json.loads(l)
        e = A.setdefault(r['entry'], dict(n=collections.Counter(), labels=collections.Counter(), checked={}, err=collections.Counter(), lim=collections.Counter(), v=[], fn=set(), samples=[]))
        for k in ('paths', 'infeasible', 'instrs', 'forks', 'choices', 'checks_conc', 'checks_sym', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'solver_us', 'unfinished'): e['n'][k] += r[k]
        for k in ('max_path', 'vars_max', 'solver_max_us'): e['n'][k] = max(e['n'][k], r[k])
        for a, b in r['labels']: e['labels'][a] += b
        for a, b, c in r['checked']:
            x = e['checked'].setdefault(a, [0, 0]); x[0] += b; x[1] += c
        for a, b in r['errors']: e['err'][a] += b
        for a, b in r['limits']: e['lim'][a] += b
        e['v'] += r['violations']; e['fn'] |= set(r['functions'])
        if len(e['samples']) < 6: e['samples'] += r['samples'][:2]
    return A

def run(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    quick = P['quick']
    entries = list(quick) + ([e for e in P.get('thorough', []) if e not in quick] if tier == 'thorough' else [])
    budget = P.get('time', 200) if tier == 'quick' else P.get('time_thorough', 3600)
    os.makedirs(B, exist_ok=True)
    build_engine()
    by = collections.OrderedDict()
    for e in entries:
        c, n = e.split(':') if ':' in e else (P['crate'], e)
        by.setdefault(c, []).append(n)
    R = {}
    t_build = 0
    for c, ns in by.items():
        table = open(os.path.join(V, 'harness', c, 'src', 'main.rs')).read()
        for n in ns:
            if '"%s"' % n not in table: die('%s is not in the table of harness/%s/src/main.rs: run tools/entries.py' % (n, c))
        tb = time.time()
        bc = build_bc(c, tier)
        t_build += time.time() - tb
        out = os.path.join(B, 'report-%s-%s-%s.jsonl' % (prop, tier, c))
        cmd = [ENGINE, bc, '--prop', prop, '--entry', ','.join(ns), '--out', out, '--jobs', '8', '--max-time', str(budget), '--timeout-ms', '20000', '--max-instr', str(P.get('max_instr', 200_000_000))]
        r = sh(cmd)
        if r.returncode or not os.path.exists(out): die('the engine failed (%s):\n%s' % (r.returncode, r.stdout[-3000:]))
        for k, v in merge(out).items(): R[k] = dict(v, crate=c)
    # ---- violations: only what the machine build reproduces is reported
    kf = known(prop)
    confirmed, phantom = [], []
    for entry, e in R.items():
        seen = collections.Counter()
        done = set()
        for v in e['v']:
            if v['msg'] in done or seen[v['msg']] >= 4: continue
            seen[v['msg']] += 1
            exe = build_native(e['crate'], tier)
            vals = [x[1] for x in v['values']]
            rc, o = native_run(exe, entry, vals, prop)
            if reproduced(v, rc, o):
                done.add(v['msg'])
                confirmed.append(dict(property=prop, entry=entry, crate=e['crate'], tier=tier, kind=v['kind'], msg=v['msg'], values=vals, notes=v['notes'], stack=demangle(v['stack'][:12]), native_rc=rc, native_output=o[-3000:]))
            else:
                phantom.append((entry, v['kind'], v['msg'], rc, o[-300:], vals[:40]))
    new = []
    for v in confirmed:
        k = next((k for k in kf if k['entry'] == v['entry'] and k['msg'] == v['msg']), None)
        if k: k['seen'] = True
        else: new.append(v)
    # ---- vacuity and completeness
    problems, vac = [], []
    for n in [n for ns in by.values() for n in ns]:
        e = R.get(n)
        if not e: vac.append('%s: no report' % n); continue
        stopped = bool(e['v'])
        if e['n']['paths'] - sum(e['err'].values()) - sum(e['lim'].values()) <= 0 and not stopped: vac.append('%s: no path completed: %s %s' % (n, dict(e['err']), dict(e['lim'])))
        for l in P.get('reach', {}).get(n, []):
            if not e['labels'].get(l) and not stopped: vac.append('%s: "%s" was never reached' % (n, l))
        for m, k in e['err'].items(): problems.append('%s: engine: %s (%d paths)' % (n, m, k))
        for m, k in e['lim'].items(): problems.append('%s: bound: %s (%d paths)' % (n, m, k))
    tot = collections.Counter()
    for e in R.values():
        for k in ('paths', 'infeasible', 'instrs', 'forks', 'choices', 'checks_conc', 'checks_sym', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'solver_us'): tot[k] += e['n'][k]
    fns = sorted(set().union(*[e['fn'] for e in R.values()])) if R else []
    own = [x for x in dict.fromkeys(demangle([f for f in fns if any(k in f for k in ('astro_run', 'astro_runner', 'astro_run_'))])) if x]
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Symbolic execution of the LLVM bitcode rustc emits for /repo\'s current source together with the harness; every branch on a symbolic value is decided by Z3, every assertion is checked on every path; a path ends when the harness entry returns.',
            'bounds': P['bounds'],
            'outside': P['outside'],
            'exhausted': not problems and not R == {},
            'incomplete': problems[:20],
            'entries': {n: {'paths': e['n']['paths'], 'infeasible': e['n']['infeasible'], 'instructions': e['n']['instrs'], 'solver_decided_forks': e['n']['forks'], 'schedule_or_case_splits': e['n']['choices'], 'assertions_folded_to_constants': e['n']['checks_conc'], 'assertions_sent_to_solver': e['n']['checks_sym'], 'queries': e['n']['queries'], 'unsat': e['n']['unsat'], 'sat': e['n']['sat'], 'solver_s': round(e['n']['solver_us'] / 1e6, 3), 'most_symbolic_variables_on_a_path': e['n']['vars_max'], 'witnesses_reached': dict(e['labels']), 'assertions': {m: {'constant': c[0], 'by_solver': c[1]} for m, c in sorted(e['checked'].items()) if not m.startswith('[') or prop in m[1:m.find(']')].split(',')}} for n, e in R.items()},
            'paths': tot['paths'], 'queries_discharged': tot['queries'], 'queries_unsat': tot['unsat'], 'queries_sat': tot['sat'], 'queries_unknown': tot['unknown'], 'query_cache_hits': tot['cache_hits'], 'solver_s': round(tot['solver_us'] / 1e6, 3), 'instructions_executed': tot['instrs'],
            'functions_encoded': len(fns), 'functions_of_the_repository': own[:400],
            'samples': [json.loads(s) if isinstance(s, str) else s for e in R.values() for s in e['samples'][:2]][:8],
            'build_s': round(t_build, 1),
        },
        'assumptions': P.get('assumptions', []) + COMMON,
        'wall_s': 0, 'violations': len(new),
    }
    if tier == 'thorough' and not new and not phantom:
        # the encoding against the machine: recorded paths run on the native build and must complete
        ok = bad = 0
        for n, e in R.items():
            exe = build_native(e['crate'], tier)
            for s in e['samples'][:3]:
                s = json.loads(s) if isinstance(s, str) else s
                rc, o = native_run(exe, n, s['values'], prop)
                if rc == 0: ok += 1
                else: bad += 1; problems.append('%s: a completed path does not replay natively: rc %s %s' % (n, rc, o[-200:]))
        ev['coverage']['paths_replayed_on_the_machine_build'] = ok
        if bad: vac.append('%d recorded paths do not replay natively: %s' % (bad, problems[-1]))
    rd = os.path.join(V, 'evidence', prop + '.replay')
    shutil.rmtree(rd, ignore_errors=True)
    rc = 0
    lines = []
    for k in kf:
        if k['seen']: lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['text'] or k['msg']))
    for i, v in enumerate(new):
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, '%s-%d.json' % (v['entry'], i))
        json.dump(v, open(p, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(p, V)))
        lines.append('  %s: %s' % (v['entry'], v['msg']))
        rc = 1
    if rc == 0 and phantom:
        rc = 3
        for x in phantom: lines.append('NOT-REPRODUCED %s %s "%s": native run gave %s %s values=%s' % x)
    if rc == 0 and vac:
        rc = 4
        lines += ['NO-ANSWER ' + x for x in vac]
    for x in problems[:6]: lines.append('INCOMPLETE ' + x[:600])
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    print('%s %s: %d paths, %d queries (%d unsat), solver %.2f s, wall %.1f s, exit %d' % (prop, tier, tot['paths'], tot['queries'], tot['unsat'], tot['solver_us'] / 1e6, ev['wall_s'], rc))
    return rc

COMMON = [
    'rustc\'s lowering to LLVM bitcode (opt-level 1, fat LTO, overflow and debug assertions on) preserves the source semantics; Z3 is sound; the engine\'s encoding of LLVM is faithful (cross-checked by replaying counterexamples, and in the thorough tier completed paths, on the machine build)',
    'tokio, parking_lot and octocrate are replaced by the stand-ins in /verif/stubs: cooperative tasks under a scheduler the harness controls, virtual time, an in-memory GitHub API; interleavings happen at suspension points (and, where a harness says so, at lock operations)',
    'the iteration order of hash maps is that of the hash seeds listed in the bounds; memory allocation does not fail',
]

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        os.makedirs(B, exist_ok=True)
        build_engine()
        for c in CRATES: build_bc(c, 'quick')
        return 0
    if a and a[0] == '--replay':
        v = json.load(open(a[1]))
        exe = build_native(v['crate'], v['tier'])
        rc, o = native_run(exe, v['entry'], v['values'], v['property'])
        print(o); print('exit', rc)
        return 0
    if not a or a[0] not in PROPS: die('usage: check.py <property> [quick|thorough]')
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return run(a[0], 'thorough' if tier == 'thorough' else 'quick')

if __name__ == '__main__':
    sys.exit(main())
