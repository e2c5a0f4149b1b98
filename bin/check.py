#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decides one property on /repo's current tree.
 (A) deductive: extract the functions from /repo (vx), verify them with Verus; Kani harnesses on the real crates
 (B) bounded stand-in for the glue around them (zv: real crates against independent oracles)
 (C) verdict and evidence; see /verif/DESIGN.md"""
import sys, os, json, subprocess, time, re, fcntl, threading, signal
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, '.build')
sys.path.insert(0, os.path.join(V, 'bin'))
import config
T0 = time.time()

def run(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=cwd, start_new_session=True, errors='replace')
    try:
        o, er = p.communicate(timeout=timeout); return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, er = p.communicate(); return 124, o or '', (er or '') + '\nTIMEOUT'

class Lock:
    def __init__(s, n): os.makedirs(B, exist_ok=True); s.f = open(os.path.join(B, n + '.lock'), 'w')
    def __enter__(s): fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): fcntl.flock(s.f, fcntl.LOCK_UN)

CARGO = {'CARGO_NET_OFFLINE': 'true'}
for k in ('CARGO_RESOLVER_LOCKFILE_PATH', 'RUSTFLAGS', 'CARGO_TARGET_DIR'): os.environ.pop(k, None)

def build_vx():
    with Lock('vx'):
        rc, o, e = run(['cargo', 'build', '--manifest-path', V + '/vx/Cargo.toml'], env={**CARGO, 'CARGO_TARGET_DIR': B + '/vx'}, timeout=600)
    if rc: raise SystemExit('cannot build vx:\n' + e[-3000:])
    return B + '/vx/debug/vx'

def build_native(features):
    with Lock('native'):
        rc, o, e = run(['cargo', 'build', '--release', '--manifest-path', V + '/native/Cargo.toml', '--features', ' '.join(features)], env={**CARGO, 'CARGO_TARGET_DIR': B + '/native', **config.NATIVE_ENV}, timeout=800)
        if rc: return None, e
        # keep a private copy: another check may rebuild with other features
        src = B + '/native/release/zv'; dst = f'{B}/zv-{"-".join(sorted(features))}'
        run(['cp', src, dst])
    return dst, ''

def build_nostd():
    """zune-core without std: the same io cases run against the no_std readers and writers"""
    with Lock('nostd'):
        rc, o, e = run(['cargo', 'build', '--release', '--manifest-path', V + '/nostd/Cargo.toml'], env={**CARGO, 'CARGO_TARGET_DIR': B + '/nostd'}, timeout=800)
    return (None, e) if rc else (B + '/nostd/release/zvn', '')

# ---------------- Verus ----------------
VERIF_ERR = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion failed|assertion not satisfied|invariant not satisfied|possible arithmetic|possible division|possible bit shift|decreases not satisfied|recommendation not met|unable to prove|constructed value may fail|type invariant|could not prove|index out of bounds|possible overflow|conversion|failed this|assertion fail|unwind|cannot show|loop invariant|out of range|cannot prove', re.I)
def parse_verus(err, text):
    """group rustc-style errors, map each to the function it is in"""
    lines = text.split('\n')
    fn_at = []; cur = '?'
    for l in lines:
        m = re.match(r'// <<< (.+)$', l)
        if m: cur = m.group(1)
        else:
            m2 = re.match(r'\s*(?:pub )?(?:open |closed |broadcast )*proof fn (\w+)', l)
            if m2: cur = 'lemma ' + m2.group(1)
        fn_at.append(cur)
        if l.startswith('// >>>'): cur = '?'
    out = []
    for m in re.finditer(r'^error(?:\[[A-Z0-9]+\])?: (.*?)$\n(?:^\s*-->\s*\S+?:(\d+):\d+)?((?:.*\n)*?)(?=^error|^note:|^warning|^verification results|\Z)', err, re.M):
        msg, ln, det = m.group(1), m.group(2), m.group(3)
        if msg.startswith('aborting'): continue
        n = int(ln) if ln else 0
        out.append({'msg': msg, 'line': n, 'fn': fn_at[n - 1] if n and n <= len(fn_at) else '?', 'src': lines[n - 1].strip() if n and n <= len(lines) else '', 'detail': det[:1500]})
    return out

def verus(tpl, vx, work, rlimit, canary=True, deadline=None):
    name = os.path.basename(tpl)[:-4]
    r = {'template': os.path.relpath(tpl, V), 'status': None}
    outs = {}
    for can in ([False, True] if canary else [False]):
        f = f'{work}/{name}{"_canary" if can else ""}.rs'
        rc, o, e = run([vx, R, tpl, f] + (['--canary'] if can else []))
        if rc:
            r.update(status='degraded', reason=(e.strip().split('\n') or [''])[-1] if 'VX-STRUCTURE' in e else 'vx failed: ' + e[-500:]); return r
        outs[can] = f
    r['meta'] = json.load(open(outs[False] + '.json')); r['file'] = outs[False]
    res = {}
    def go(can, rl):
        cmd = ['verus', '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--multiple-errors', '20', '--rlimit', str(rl), '--num-threads', '4', os.path.basename(outs[can])]
        t = time.time(); rc, o, e = run(cmd, timeout=max(20, (deadline or T0 + 600) - time.time()), cwd=work)
        try: j = json.loads(o[o.index('{'):])
        except ValueError: j = {}
        res[can] = (rc, j, e, time.time() - t, ' '.join(cmd))
    th = [threading.Thread(target=go, args=(c, min(rlimit, 6) if c else rlimit)) for c in outs]
    [t.start() for t in th]; [t.join() for t in th]
    rc, j, e, wall, cmd = res[False]
    if re.search(r'rlimit|Resource limit', e) and rc != 124 and (deadline or T0 + 600) - time.time() > 4 * res[False][3]:
        go(False, rlimit * 4); rc, j, e, wall, cmd = res[False]
    vr = j.get('verification-results', {})
    tm = j.get('times-ms', {}).get('smt', {})
    fb = [f for mt in tm.get('smt-run-module-times', []) for f in mt.get('function-breakdown', [])]
    r.update(cmd=cmd, wall=wall, verified=vr.get('verified', 0), errors=vr.get('errors', 0), smt_ms=tm.get('smt-run', 0), functions=[f['function'].split('::')[-1] for f in fb if not f['function'].split('::')[-1].startswith('vx_')])
    text = open(outs[False]).read()
    r['scan'] = {k: len(re.findall(p, text)) for k, p in (('assume', r'\bassume\('), ('admit', r'\badmit\('), ('external_body', r'external_body'), ('assume_specification', r'assume_specification'), ('axiom', r'\baxiom fn\b|broadcast axiom'))}
    r['trusted'] = re.findall(r'//TRUST: (.*)', text)
    if canary:
        crc, cj, ce, cw, _ = res[True]
        m = json.load(open(outs[True] + '.json'))
        ctext = open(outs[True]).read().split('\n')
        bad = {int(x) for x in re.findall(r'-->\s*\S+?:(\d+):\d+', ce)}
        # a canary whose function ran out of (small) resources is not provable either
        out_of = {int(x) for x in re.findall(r'(?:Resource limit|rlimit)[^\n]*\n\s*-->\s*\S+?:(\d+):\d+', ce)}
        start = 0; failing = 0; spans = []
        for i, l in enumerate(ctext):
            if l.startswith('// <<<'): start = i + 1
            if l.startswith('// >>>'): spans.append((start, i + 1))
        exhausted = [sp for sp in spans if any(sp[0] <= x <= sp[1] for x in out_of)]
        failing = sum(1 for i, l in enumerate(ctext) if '// CANARY' in l and ((i + 1) in bad or any(a <= i + 1 <= b for a, b in exhausted)))
        r['canaries'] = sum('// CANARY' in l for l in ctext); r['canaries_failing'] = failing
    if rc == 0 and vr.get('success'): r['status'] = 'ok'; return r
    errs = parse_verus(e, text)
    hard = [x for x in errs if not VERIF_ERR.search(x['msg'])]
    rl = [x for x in errs if re.search(r'rlimit|Resource limit|could not be completed', x['msg'], re.I)]
    vf = [x for x in errs if VERIF_ERR.search(x['msg'])]
    r['log'] = e[-20000:]
    if rc == 124: r.update(status='degraded', reason='verifier timed out')
    elif vr.get('encountered-vir-error') or (hard and not rl and not vf) or not vr:
        r.update(status='degraded', reason='the extracted text is outside the verifier\'s subset: ' + (hard[0]['msg'] if hard else e[-300:]))
    elif vf: r.update(status='rejected', failed=vf)
    elif rl: r.update(status='degraded', reason='solver resource limit in ' + rl[0]['fn'])
    else: r.update(status='degraded', reason='unclassified verifier failure: ' + e[-300:])
    return r

# ---------------- Kani ----------------
def kani(harnesses, crate, timeout):
    """harnesses: list of names in /verif/kani/<crate>"""
    d = f'{V}/kani/{crate}'
    res = {'crate': f'kani/{crate}', 'harnesses': {}, 'status': 'ok'}
    env = {**CARGO, 'RUSTFLAGS': '--cfg zune_verif', 'CARGO_TARGET_DIR': f'{B}/kani-{crate}'}
    cmd = ['cargo', 'kani', '-j', '6', '--output-format', 'terse', '--exact'] + sum((['--harness', h] for h in harnesses), []) + ['-Z', 'unstable-options', '--harness-timeout', f'{timeout}s']
    t = time.time()
    with Lock('kani-' + crate):
        rc, o, e = run(cmd, cwd=d, env=env, timeout=timeout + 300)
    res['cmd'] = ' '.join(cmd); res['wall'] = time.time() - t; txt = o + '\n' + e
    # with -j output of threads is prefixed "Thread N: Checking harness x..."
    cur = {}
    for l in txt.split('\n'):
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', l)
        if m: cur[m.group(1)] = m.group(2); continue
        m = re.match(r'(?:Thread (\d+): ?)?.*?\*\* (\d+) of (\d+) failed', l)
        if m and cur.get(m.group(1)): res['harnesses'].setdefault(cur[m.group(1)], {})['checks'] = int(m.group(3))
        m = re.match(r'(?:Thread (\d+): ?)?.*VERIFICATION:- (\w+)', l)
        if m: k = m.group(1) if m.group(1) in cur else (list(cur)[-1] if cur else None); res['harnesses'].setdefault(cur.get(k, '?'), {})['result'] = m.group(2)
        m = re.match(r'(?:Thread (\d+): ?)?.*Verification Time: ([\d.]+)s', l)
        if m and cur.get(m.group(1)): res['harnesses'].setdefault(cur[m.group(1)], {})['time'] = float(m.group(2))
    failed = set(re.findall(r'Verification failed for - (\S+)', txt))
    tot = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', txt)
    res['log'] = txt[-6000:]
    if tot:
        res['verified'] = int(tot.group(1)); res['total'] = int(tot.group(3))
        if int(tot.group(2)):
            timed = 'timed out' in txt or 'CBMC failed' in txt or 'out of memory' in txt.lower()
            fc = re.findall(r'Failed Checks: (.*)', txt)
            if fc and not all('unwinding' in x or 'is not currently supported' in x for x in fc): res.update(status='rejected', failed=sorted(failed) or ['?'], checks=fc[:10])
            else: res.update(status='degraded', reason='kani: ' + ('; '.join(fc[:3]) if fc else ('timeout' if timed else 'no result')))
    else: res.update(status='degraded', verified=0, total=len(harnesses), reason='kani could not compile or run the harnesses: ' + txt[-600:])
    return res

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = config.P[prop]
    work = f'{B}/work/{prop}'; os.makedirs(work, exist_ok=True)
    rep = f'{V}/findings/replays'; os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + '-'): os.unlink(f'{rep}/{f}')
    ver, kan, nat = [], [], {}
    vx = build_vx() if c.get('verus') else None
    results = {}
    def do_verus():
        for t in c.get('verus', []):
            ver.append(verus(f'{V}/verus/{t}.vrs', vx, work, c.get('rlimit', 30) * (2 if tier == 'thorough' else 1), deadline=T0 + (470 if tier == 'quick' else 1800)))
    def do_kani():
        for k in c.get('kani', []):
            hs = k['harnesses'] + (k.get('thorough', []) if tier == 'thorough' else [])
            kan.append(kani(hs, k['crate'], k.get('timeout', 300) * (3 if tier == 'thorough' else 1)))
    zv = {}
    def do_native_build():
        zv['bin'], zv['err'] = build_native(c['native'])
        if c.get('nostd'): zv['nostd'], zv['nerr'] = build_nostd()
        if c.get('second'): zv['nostd'], zv['nerr'] = build_native(c['second'])
    ths = [threading.Thread(target=f) for f in (do_verus, do_kani, do_native_build)]
    [t.start() for t in ths]; [t.join() for t in ths]
    violations = []; notes = []
    known = [l.strip() for l in open(f'{V}/known_findings.txt')] if os.path.exists(f'{V}/known_findings.txt') else []
    known = [re.match(r'known: property=(\S+) tag=(\S+) \|\| (.*)', l) for l in known if l.startswith('known:')]
    known = {m.group(2): m.group(3) for m in known if m and m.group(1) == prop}; hits = {}
    rejected = [x for x in ver + kan if x['status'] == 'rejected']
    degraded = [x for x in ver + kan if x['status'] == 'degraded']
    secs = c.get('secs', 25) if tier == 'quick' else c.get('secs_thorough', 420)
    if rejected: secs = max(secs, 60)
    def search(secs, seed, which='bin'):
        if which == 'bin' and zv.get('nostd'):
            a = search(secs, seed, 'nostd'); b = search(secs, seed, 'std')
            st = {**b['stats']}
            for k in ('evaluations', 'distinct_nontrivial', 'wall_s'): st[k] = st.get(k, 0) + a['stats'].get(k, 0)
            st['per_case'] = {**st.get('per_case', {}), **{c.get('second', ['no_std'])[0] + ':' + k: v for k, v in a['stats'].get('per_case', {}).items()}}
            r = a if a['witness'] else b
            return {**r, 'stats': st}
        exe = zv['nostd'] if which == 'nostd' else zv['bin']
        cmd = [exe, 'search', prop, '--secs', str(secs), '--seed', str(seed), '--out', rep] + (['--known', ','.join(known)] if known else [])
        rc, o, e = run(cmd, timeout=secs + 240)
        m = re.search(r'STATS (\{.*\})', o); st = json.loads(m.group(1)) if m else {}
        for t, n, d in re.findall(r'^KNOWN (\S+) (\d+) (.*)$', o, re.M): hits[t] = (int(n), d)
        w = re.search(r'WITNESS (\S+)', o); msg = re.search(r'MSG (.*)', o)
        if rc not in (0, 1) or (rc == 1 and not w):
            # the process died (stack overflow, abort, out of memory): find the case by a journal
            j = f'{work}/journal'; rc2, o2, e2 = run(cmd + ['--journal', j], timeout=secs + 240)
            for t in range(8):
                if os.path.exists(f'{j}.{t}'):
                    rc3, o3, e3 = run([exe, 'replay', f'{j}.{t}'], timeout=120)
                    if rc3 not in (0, 2):
                        p = f'{rep}/{prop}-died-{t}.replay'; os.rename(f'{j}.{t}', p); return {'stats': st, 'witness': p, 'msg': f'process died: rc={rc3} {e3[-300:]}'}
            notes.append(f'native search ended abnormally rc={rc}: {e[-300:]}')
            return {'stats': st, 'witness': None, 'msg': None, 'abnormal': True}
        return {'stats': st, 'witness': w.group(1) if w else None, 'msg': msg.group(1) if msg else None}
    if (c.get('nostd') or c.get('second')) and zv.get('nostd') is None: notes.append('second native crate does not build against this tree: ' + zv.get('nerr', '')[-800:])
    if zv.get('bin') is None:
        notes.append('native crate does not build against this tree: ' + zv['err'][-800:])
    else:
        nat = search(secs, seed)
        if nat['witness'] is None and rejected and not nat.get('abnormal'):
            n2 = search(60, seed + 1000)
            if n2['witness']: nat['witness'], nat['msg'] = n2['witness'], n2['msg']
    if nat.get('witness'):
        with open(nat['witness'], 'a') as f:
            for x in rejected:
                for o in x.get('failed', []): f.write('failed obligation: ' + (json.dumps(o) if isinstance(o, dict) else str(o)) + '\n')
        violations.append((nat['witness'], nat['msg'], False))
    elif rejected:
        for x in rejected:
            nm = (x.get('template') or x.get('crate')).replace('/', '_')
            p = f'{rep}/{prop}-obligation-{nm}.txt'
            with open(p, 'w') as f:
                f.write(f'property: {prop}\nno failing input found by {secs + 60} s of search\nverifier command: {x.get("cmd")}\n')
                for o in x.get('failed', []): f.write('failed obligation: ' + (f'{o["fn"]}: {o["msg"]} at `{o["src"]}`' if isinstance(o, dict) else str(o)) + '\n')
                f.write('\n--- verifier output ---\n' + x.get('log', ''))
            violations.append((p, '; '.join((f'{o["fn"]}: {o["msg"]}' if isinstance(o, dict) else str(o)) for o in x['failed'][:3]), True))
    # -------- evidence --------
    items = [i for v in ver for i in v.get('meta', {}).get('items', []) if i['kind'] == 'fn']
    rules = {}
    for i in items:
        for k, n in i.get('rules', {}).items(): rules[k] = rules.get(k, 0) + n
    obl = sum(v.get('verified', 0) + v.get('errors', 0) for v in ver) + sum(h.get('checks', 1) for k in kan for h in k['harnesses'].values())
    dis = sum(v.get('verified', 0) for v in ver) + sum(h.get('checks', 1) for k in kan for h in k['harnesses'].values() if h.get('result') == 'SUCCESSFUL')
    st = nat.get('stats', {})
    level = c['level'] if not degraded else 'exploration'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(time.time() - T0, 1), 'violations': len(violations),
      'coverage': {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': '; '.join([v['cmd'] for v in ver if v.get('cmd')] + [k['cmd'] for k in kan]) or 'none',
        'trusted_base': sorted({t for v in ver for t in v.get('trusted', [])}) + c.get('trusted', []) + config.TRUST_COMMON,
        'back_ends': {'verus+z3': {'verified_items': sum(v.get('verified', 0) for v in ver), 'smt_ms': sum(v.get('smt_ms', 0) for v in ver), 'wall_s': round(sum(v.get('wall', 0) for v in ver), 1)},
                      'kani+cbmc': {'harnesses': {h: d for k in kan for h, d in k['harnesses'].items()}, 'wall_s': round(sum(k['wall'] for k in kan), 1)}},
        'functions_under_contract': [f"{i['item']} ({i['file']}:{i['line']}-{i['end_line']}, {i['loops']} loops)" for i in items],
        'kani_functions': [f for k in c.get('kani', []) for f in k.get('functions', [])],
        'extraction_rules_applied': rules,
        'unverified_escape_hatches': {k: sum(v.get('scan', {}).get(k, 0) for v in ver) for k in ('assume', 'admit', 'external_body', 'assume_specification', 'axiom')},
        'vacuity_canaries': {'inserted': sum(v.get('canaries', 0) for v in ver), 'rejected_as_they_must_be': sum(v.get('canaries_failing', 0) for v in ver)},
        'proof_status': {(v.get('template') or v.get('crate')): (v['status'] + (': ' + v['reason'] if v.get('reason') else '')) for v in ver + kan},
        'bounded_standin': {'label': 'BOUNDED - sampled executions of the real crates, never counted as proved', 'evaluations': st.get('evaluations', 0), 'per_case': st.get('per_case', {}), 'wall_s': st.get('wall_s', 0)},
        'evaluations': st.get('evaluations', 0), 'distinct_nontrivial': st.get('distinct_nontrivial', 0),
        'rule': c.get('rule', 'seeded random cases of growing size (bounded part only); non-trivial = the case reached the operation under test; distinct by hash of the whole input'),
        'samples': st.get('samples', [])[:6] or ['(none)'],
        'known_findings_hit': {t: n for t, (n, d) in hits.items()},
        'explanation': c.get('explanation', ''),
      },
      'assumptions': c.get('assumptions', []) + config.ASSUME_COMMON + notes}
    os.makedirs(f'{V}/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for v in ver: print(f"  verus {v['template']}: {v['status']} verified={v.get('verified', 0)} errors={v.get('errors', 0)} canaries={v.get('canaries_failing')}/{v.get('canaries')} smt={v.get('smt_ms', 0)}ms {v.get('reason', '')}")
    for k in kan: print(f"  kani {k['crate']}: {k['status']} {k.get('verified')}/{k.get('total')} {k.get('reason', '')} {k.get('checks', '')} wall={k['wall']:.0f}s")
    print(f"  bounded: {st.get('evaluations', 0)} evaluations {st.get('per_case', {})}")
    for n in notes: print('  note: ' + n)
    for d in degraded: print('  DEGRADED (no proof on this tree, bounded part only): ' + d.get('reason', ''))
    rc = 0
    for t, (n, d) in sorted(hits.items()): print(f'KNOWN-FINDING: property={prop} {known[t]} ({n} inputs, first: {d[:160]})')
    for p, m, nofi in violations:
        print('  failure: ' + (m or ''))
        print(f'VIOLATION property={prop} replay={p}' + (' no-failing-input-found' if nofi else '')); rc = 1
    if rc == 0 and zv.get('bin') is None and not any(x['status'] == 'ok' for x in ver + kan): rc = 2
    sys.exit(rc)
main()
