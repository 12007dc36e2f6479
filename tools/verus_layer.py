"""Deductive layer: extract the functions of a unit file from /repo's current source, weave the contracts in,
and have Verus discharge every obligation, for all inputs and all iterations."""
import json, os, re, subprocess, time, concurrent.futures as cf
V = '/verif'
REPO = os.environ.get('VERIF_REPO', '/repo')
WEAVE = f'{V}/build/weave/release/weave'
DEFINITE = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
            'possible arithmetic', 'possible division', 'possible bit shift', 'decreases not satisfied', 'could not prove termination',
            'unable to prove', 'failed this postcondition', 'requires not satisfied', 'recommendation not met')
PRELUDE = {'vec_filled', 'vassert', 'vpanic', 'vmin', 'vsub_sat'}
VARGS = ['--triggers-mode', 'silent', '--num-threads', '2']

def build():
    p = subprocess.run(['bash', f'{V}/weave/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return p.returncode == 0, p.stdout.decode(errors='replace')[-2000:]

def verus(path, rlimit, timeout):
    t = time.time()
    cmd = ['verus', path, *VARGS, '--rlimit', str(rlimit), '--output-json', '--time', '--error-format=json']
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(path), start_new_session=True)
    except subprocess.TimeoutExpired:
        return {'timeout': True, 'wall': time.time() - t}
    r = {'wall': time.time() - t, 'msgs': [], 'rc': p.returncode}
    try: r['json'] = json.loads(p.stdout.decode())
    except Exception: r['raw'] = p.stdout.decode(errors='replace')[-1000:]
    for l in p.stderr.decode(errors='replace').splitlines():
        try: m = json.loads(l)
        except Exception: continue
        if m.get('level') == 'error' and not m['message'].startswith('aborting due to'): r['msgs'].append(m)
    return r

def one(u, rlimit, timeout):
    name = u['unit']
    if 'error' in u:
        return {'name': name, 'backend': 'verus', 'status': 'undecided', 'count': 1, 'solver_s': 0, 'source': None, 'detail': u['error'][:600]}
    src = [f"{f['source']}:{f['lines'][0]}-{f['lines'][1]} {f['path']}" for f in u['fns']]
    txt = open(u['file']).read()
    # contracts discharged in another unit are not assumptions
    atxt = re.sub(r'#\[verifier::external_body\] /\* proved: \w+ \*/\s*(?:pub )?fn', '', txt)
    ext = sorted(set(re.findall(r'external_body\]?\)?\s*\]?\s*(?:pub )?(?:proof |exec |spec )*fn (\w+)', atxt)) | set(re.findall(r'\badmit\(\)', atxt)) | set(re.findall(r'\bassume\([^\n]*', atxt)) | set('assume_specification ' + x for x in re.findall(r'assume_specification[^\n;]*', atxt)))
    ext = [e for e in ext if e != 'vpanic']
    o = {'name': name, 'backend': 'verus/z3', 'source': src, 'assumed': ext,
         'extraction': {f['name']: {'rewritten': f['rewritten'], 'dropped': f['dropped']} for f in u['fns'] if f['rewritten'] or f['dropped']}}
    r = verus(u['file'], rlimit, timeout)
    o['solver_s'] = r['wall']; o['count'] = 1
    if r.get('timeout'): return {**o, 'status': 'undecided', 'detail': 'verus ran out of time'}
    vr = (r.get('json') or {}).get('verification-results')
    if not vr: return {**o, 'status': 'undecided', 'detail': 'no verification result: ' + ' | '.join(m['message'] for m in r['msgs'][:4])[:500]}
    try: o['solver_s'] = r['json']['times-ms']['smt']['smt-run'] / 1000.0
    except Exception: pass
    o['count'] = max(1, vr.get('verified', 0) + vr.get('errors', 0))
    try:
        fb = [f for m in r['json']['times-ms']['smt']['smt-run-module-times'] for f in m['function-breakdown']]
        o['functions'] = sorted({f['function'].split('::')[-1] for f in fb} - PRELUDE)
        o['count'] = max(1, len([f for f in fb if f['function'].split('::')[-1] not in PRELUDE]))
    except Exception: pass
    if vr.get('success') and vr.get('errors', 0) == 0 and not r['msgs']:
        if vr.get('verified', 0) < len(u['fns']): return {**o, 'status': 'undecided', 'detail': 'verus generated fewer obligations than functions'}
        return {**o, 'status': 'discharged'}
    if vr.get('encountered-vir-error') or 'verified' not in vr or vr.get('errors', 0) == 0:
        return {**o, 'status': 'undecided', 'detail': 'not accepted by the verifier front end: ' + ' | '.join(m['message'] for m in r['msgs'][:3])[:500]}
    lines = txt.splitlines()
    def fn_at(n):
        for i in range(min(n, len(lines)) - 1, -1, -1):
            m = re.match(r'\s*(?:pub )?(?:(?:proof|exec|spec|broadcast) )*fn (\w+)', lines[i])
            if m: return m.group(1)
        return '?'
    definite, other = [], []
    for m in r['msgs']:
        sp = next((s for s in m['spans'] if s['is_primary']), (m['spans'] or [None])[0])
        at = f"{fn_at(sp['line_start'])}: `{lines[sp['line_start'] - 1].strip()[:160]}`" if sp else ''
        lab = '; '.join(f"{s.get('label') or 'at'} `{lines[s['line_start'] - 1].strip()[:120]}`" for s in m['spans'][1:3]) if sp else ''
        (definite if m['message'].startswith(DEFINITE) else other).append(f"{m['message']} in {at} {lab}")
    if other or not definite:
        return {**o, 'status': 'undecided', 'detail': ' | '.join(other)[:600]}
    return {**o, 'status': 'failed', 'detail': ' || '.join(definite)[:1500], 'failed_count': len(definite)}

def vacuous(u, timeout):
    """Every `assert(false)` of the twin must be refuted; returns None when it is, a complaint otherwise."""
    p = u['file'][:-3] + '_vac.rs'
    n = [i + 1 for i, l in enumerate(open(p).read().splitlines()) if 'VACUITY' in l]
    r = verus(p, 20, timeout)
    if r.get('timeout'): return None
    hit = {s['line_start'] for m in r['msgs'] for s in m['spans'] if s['is_primary']}
    rl = any('rlimit' in m['message'] or 'Resource limit' in m['message'] for m in r['msgs'])
    miss = [x for x in n if x not in hit]
    if miss and not rl and r.get('json', {}).get('verification-results', {}).get('verified') is not None and not r['json']['verification-results'].get('encountered-vir-error'):
        return f'assert(false) at line {miss[0]} of {os.path.basename(p)} is provable: the contract above it is contradictory'
    return None

def units(unitfile, outdir):
    os.makedirs(outdir, exist_ok=True)
    p = subprocess.run([WEAVE, REPO, f'{V}/contracts/{unitfile}.unit', outdir, f'{V}/contracts/common.rs'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    try: d = json.loads(p.stdout.decode())
    except Exception: return [{'unit': unitfile, 'error': 'extractor: ' + p.stderr.decode(errors='replace')[-500:]}]
    if 'units' not in d: return [{'unit': unitfile, 'error': str(d)}]
    return d['units']

def run(wanted, tier):
    t0 = time.time()
    ok, log = build()
    if not ok:
        return {'obligations': [{'name': w, 'backend': 'verus', 'status': 'undecided', 'count': 1, 'solver_s': 0, 'source': None, 'detail': 'extractor does not build: ' + log} for w in wanted]}
    todo, seen = [], set()
    for w in wanted:                                     # 'file' or 'file:unit,unit'
        f, _, sel = w.partition(':')
        out = f'{V}/build/wv/{os.getpid()}/{f}'
        us = units(f, out)
        names = [s for s in sel.split(',') if s]
        pick = [u for u in us if not names or any(u['unit'] == s or u['unit'].startswith(s + '_') for s in names)]
        if not pick: pick = [{'unit': w, 'error': 'no such unit'}]
        for u in pick:
            if (f, u['unit']) not in seen: seen.add((f, u['unit'])); todo.append(u)
    rlimit, timeout = (30, 150) if tier == 'quick' else (120, 600)
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        fr = [ex.submit(one, u, rlimit, timeout) for u in todo]
        fv = [ex.submit(vacuous, u, timeout) if 'error' not in u else None for u in todo]
        res = [f.result() for f in fr]
        for o, f in zip(res, fv):
            v = f.result() if f else None
            if v and o['status'] == 'discharged': o['status'] = 'undecided'; o['detail'] = v
            elif f: o['vacuity'] = 'every contract refutes false'
    subprocess.run(['rm', '-rf', f'{V}/build/wv/{os.getpid()}'])
    return {'obligations': res, 'wall_s': round(time.time() - t0, 1)}

if __name__ == '__main__':
    import sys
    for o in run(sys.argv[1:], 'quick')['obligations']:
        print(o['status'], o['name'], o['count'], round(o['solver_s'], 2), o.get('detail', '')[:1500], o.get('assumed') or '')
