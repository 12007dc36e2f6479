#!/usr/bin/env python3
"""check.py PID: decide one property on the current /repo tree.

Three layers, see DESIGN.md:
  verus   unbounded proofs of functions extracted from /repo's source on this run
  kani    proofs of functions of the real crates, compiled from /repo's source on this run
  conform bounded contract check of the real crates (stand-in and counterexample search)
"""
import argparse, json, os, re, subprocess, sys, time, hashlib, concurrent.futures as cf
V = '/verif'
BUILD = f'{V}/build'
OUT = f'{BUILD}/out'
sys.path.insert(0, f'{V}/tools')
import registry

def sh(cmd, timeout, env=None, cwd=None, out=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), executable='/bin/bash' if isinstance(cmd, str) else None, cwd=cwd,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, start_new_session=True)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace'), time.time() - t
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode(errors='replace'), (e.stderr or b'').decode(errors='replace'), time.time() - t

def native_build():
    rc, o, e, w = sh(f'. {V}/native/env.sh; cd {V}/native && flock {BUILD}/native.lock cargo build --offline', 800)
    return rc == 0, (o + e)[-3000:], w

SHARDS = 6

def native_run(pid, seed, tier, budget):
    os.makedirs(OUT, exist_ok=True)
    b = f'{BUILD}/native/debug/conform'
    def shard(i):
        out = f'{OUT}/{pid}.{i}.json'
        if os.path.exists(out): os.remove(out)
        cmd = [b, pid, '--seed', str(seed), '--tier', tier, '--budget', str(budget), '--out', out, '--shard', f'{i}/{SHARDS}']
        rc, o, e, w = sh(cmd, budget * 2 + 150)
        if rc in (0, 1) and os.path.exists(out): return json.load(open(out)), None
        if rc is not None and rc < 0 and rc != -9:
            return {'evaluations': 0, 'nontrivial': 0, 'samples': [], 'by_op': {}, 'failures': [
                {'sig': f'process|any|signal {-rc}', 'count': 1, 'detail': f'the process running the operations died with signal {-rc}: ' + e[-1500:]}]}, None
        return None, f'conform ended with {rc}: {(o + e)[-1500:]}'
    t = time.time()
    with cf.ThreadPoolExecutor(max_workers=SHARDS + 1) as ex: rs = list(ex.map(shard, range(SHARDS + 1)))
    r = {'cmd': f'for i in $(seq 0 {SHARDS}); do {b} {pid} --seed {seed} --tier {tier} --budget {budget} --shard $i/{SHARDS}; done', 'wall_s': time.time() - t}
    errs = [e for _, e in rs if e]
    ds = [d for d, _ in rs if d]
    if errs: r['shard_errors'] = errs
    if not ds or (errs and not any(d['failures'] for d in ds)):
        r['error'] = '; '.join(errs)[:1500]
        if not ds: return r
    m = {'evaluations': sum(d.get('evaluations', 0) for d in ds), 'nontrivial': sum(d.get('nontrivial', 0) for d in ds), 'samples': [s for d in ds for s in d.get('samples', [])[:2]],
         'unimplemented': sum(d.get('unimplemented', 0) for d in ds), 'cut_short': any(d.get('cut_short') for d in ds), 'by_op': {}}
    fl = {}
    for d in ds:
        for k, v in d.get('by_op', {}).items(): m['by_op'][k] = m['by_op'].get(k, 0) + v
        for f in d['failures']:
            g = fl.setdefault(f['sig'], dict(f, count=0)); g['count'] += f['count']
            if len(f['detail']) < len(g['detail']): g['detail'] = f['detail']
    m['failures'] = list(fl.values())
    r['data'] = m
    return r

def load_known():
    k = []
    p = f'{V}/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\S+) sig=(.*?) :: (.*)$', l.strip())
            if m: k.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return k

def settle(fut, name):
    try: return fut.result()
    except Exception as e:
        return {'obligations': [{'name': f'{name} layer', 'backend': name, 'status': 'undecided', 'count': 0, 'detail': f'the layer could not run: {e!r}'}]}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--layers', default='verus,kani,conform')
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        print(json.dumps(r, indent=1)[:4000])
        print('re-running:', r['rerun'])
        return subprocess.call(r['rerun'], shell=True, cwd=V)
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    pid = a.pid
    P = registry.PROPS[pid]
    layers = a.layers.split(',')
    os.makedirs(OUT, exist_ok=True); os.makedirs(f'{V}/evidence', exist_ok=True)

    ex = cf.ThreadPoolExecutor(max_workers=4)
    fut_v = fut_k = None
    if 'verus' in layers and P.get('verus'):
        import verus_layer
        fut_v = ex.submit(verus_layer.run, P['verus'], tier)
    if 'kani' in layers and P.get('kani'):
        import kani_layer
        fut_k = ex.submit(kani_layer.run, P['kani'], tier)
    nat = None
    if 'conform' in layers and P.get('conform', True):
        ok, log, w = native_build()
        if ok: nat = native_run(pid, a.seed, tier, P.get('budget', 45) if tier == 'quick' else 400)
        else: nat = {'error': 'the bounded harness does not build against this tree: ' + log[-1500:], 'wall_s': w}
    obl = []           # every obligation: dict(name, backend, status, detail, ...)
    extra = {}
    if fut_v:
        rv = settle(fut_v, 'verus'); obl += rv['obligations']; extra['verus'] = {k: v for k, v in rv.items() if k != 'obligations'}
    if fut_k:
        rk = settle(fut_k, 'kani'); obl += rk['obligations']; extra['kani'] = {k: v for k, v in rk.items() if k != 'obligations'}

    known = load_known()
    violations, known_hit = [], {}
    def sort_failures(data):
        for f in (data or {}).get('data', {}).get('failures', []):
            k = next((w for (p, rx, w) in known if p == pid and rx.fullmatch(f['sig'])), None)
            if k is not None: known_hit[k] = known_hit.get(k, 0) + f['count']
            else: violations.append(f)
    sort_failures(nat)
    # an obligation that is not discharged: look longer for an input on which the real code fails
    if not violations and nat and 'data' in nat and any(o['status'] in ('failed', 'undecided') for o in obl):
        more = []
        for k in (1, 2):
            n2 = native_run(pid, a.seed + 1000 * k, 'thorough', 100)
            more.append(n2.get('cmd'))
            if 'data' not in n2: break
            nat['data']['evaluations'] += n2['data']['evaluations']; nat['data']['nontrivial'] += n2['data']['nontrivial']
            sort_failures(n2)
            if violations: nat['cmd'] = n2['cmd']; break
        extra['search_after_undischarged_obligation'] = more
    refuted = [o for o in obl if o['status'] == 'refuted']       # counterexample replayed on the real code
    failed = [o for o in obl if o['status'] == 'failed']         # definite failed obligation, no failing input from the verifier
    undecided = [o for o in obl if o['status'] == 'undecided']
    for w, n in sorted(known_hit.items()):
        print(f'KNOWN-FINDING: property={pid} {w}')

    nviol = len(violations) + len(refuted) + len(failed)
    ev = evidence(pid, P, tier, a.seed, obl, nat, extra, known_hit, nviol, time.time() - t0)
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    if not nviol:
        bits = []
        if obl: bits.append(f"{sum(o.get('count', 1) for o in obl if o['status'] == 'discharged')} obligations discharged, {len(undecided)} units undecided")
        if nat: bits.append(f"{nat.get('data', {}).get('evaluations', 0)} bounded evaluations" if 'data' in nat else 'bounded check not run: ' + nat['error'].strip().splitlines()[0])
        print(f"{pid}: held; " + '; '.join(bits) + f'; {time.time() - t0:.0f} s')
        return 0
    rp = f'{OUT}/replay-{pid}.json'
    rep = {'property': pid, 'failing_inputs': violations[:40], 'refuted_obligations': refuted, 'failed_obligations': failed,
           'rerun': f'cd {V} && VERIF_SEED={a.seed} VERIF_TIER={tier} python3 check.py {pid}'}
    if nat and 'cmd' in nat: rep['bounded_cmd'] = nat['cmd']
    json.dump(rep, open(rp, 'w'), indent=1)
    for o in refuted[:3] + failed[:3]: print(f"failed obligation ({o['backend']}): {o['name']}: {str(o.get('detail',''))[:600]}")
    for f in violations[:5]: print(f"failing input: {f['sig']}: {f['detail'][:500]}")
    tail = '' if violations or refuted else ' no-failing-input-found'
    print(f'VIOLATION property={pid} replay={rp}{tail}')
    return 1

def evidence(pid, P, tier, seed, obl, nat, extra, known_hit, nviol, wall):
    cov = {}
    if obl:
        disc = [o for o in obl if o['status'] == 'discharged' and not o.get('bounded')]
        cov['obligations'] = sum(o.get('count', 1) for o in obl if not o.get('bounded'))
        cov['discharged'] = sum(o.get('count', 1) for o in disc)
        cov['checker_cmd'] = f'python3 /verif/check.py {pid}'
        cov['trusted_base'] = (P.get('trusted') or []) + registry.TRUSTED
        cov['functions_under_contract'] = [{'unit': o['name'], 'source': o.get('source'), 'backend': o['backend'], 'status': o['status'], 'obligations': o.get('count', 1), 'solver_s': round(o.get('solver_s', 0), 2), **({'bounded': o['bounded']} if o.get('bounded') else {}), **({'detail': str(o['detail'])[:400]} if o.get('detail') and o['status'] != 'discharged' else {})} for o in obl]
        cov['undecided'] = [o['name'] for o in obl if o['status'] == 'undecided']
        cov['solver_s'] = round(sum(o.get('solver_s', 0) for o in obl), 2)
        cov.update(extra)
    if nat is not None:
        if 'data' in nat:
            d = nat['data']
            cov['evaluations'] = d.get('evaluations', 0)
            cov['distinct_nontrivial'] = d.get('nontrivial', 0)
            cov['rule'] = P.get('rule') or registry.RULE
            cov['samples'] = [s[:500] for s in d.get('samples', [])][:6]
            cov['bounded_by_operation'] = dict(sorted(d.get('by_op', {}).items(), key=lambda x: -x[1])[:60])
            cov['bounded_note'] = 'the bounded contract check is a stand-in with the stated rule; it is never counted as proved'
            cov['bounded_wall_s'] = round(nat['wall_s'], 1)
            cov['bounded_cut_short_by_budget'] = d.get('cut_short', False)
        else:
            cov['bounded_error'] = nat['error'][:1500]
            cov.setdefault('evaluations', 0)
    ass = list(P.get('assumptions') or []) + registry.ASSUMPTIONS
    if known_hit: cov['known_findings'] = known_hit
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov, 'assumptions': ass, 'wall_s': round(wall, 1), 'violations': nviol}

if __name__ == '__main__':
    sys.exit(main())
