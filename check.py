#!/usr/bin/env python3
"""check.py PID  -- decides one property on /repo's current working tree.

1. extracts the functions under contract from /repo/src (tools/vx.py) and lets Verus
   discharge every obligation (contracts/PID_*.rs);
2. vacuity guard: every extracted function is verified once more with assert(false) at
   its head; each of these must fail;
3. runs the executable form of the contract on the real crate (harness/), which is the
   bounded stand-in for the functions outside Verus' reach and the search for a failing
   input when an obligation fails.
exit 0: held.  exit 1: VIOLATION line.  exit 2: error of the check.
"""
import json, os, re, subprocess, sys, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import vx
from props import PROPS

REPO = os.environ.get('VP_REPO', '/repo')
WORK = os.path.join(HERE, 'work')
EVID = os.path.join(HERE, 'evidence')
REPLAY = os.path.join(HERE, 'replay')
VERUS = 'verus'

VERIF_ERR = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'possible arithmetic',
             'invariant not satisfied', 'decreases not satisfied', 'loop invariant', 'possible division by zero',
             'requires not satisfied', 'unable to prove', 'cannot prove', 'might not', 'possible bit shift',
             'failed this postcondition', 'termination', 'unreachable', 'index out of bounds', 'possible overflow',
             'failed precondition', 'recommendation not met', 'refutation')
UNDECIDED = ('resource limit', 'rlimit', 'timed out', 'while loop: not all errors may have been reported')

def run_verus(path, timeout=420):
    cmd = [VERUS, path, '--output-json', '--time-expanded', '--multiple-errors', '4', '--', '--error-format=json']
    env = dict(os.environ)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=WORK)
    except subprocess.TimeoutExpired:
        return dict(ok=False, timeout=True, verified=0, errors=0, diags=[], fails=[], smt_ms=0, cmd=' '.join(cmd), wall=time.time() - t0)
    diags = []
    for l in p.stderr.splitlines():
        try: j = json.loads(l)
        except Exception: continue
        if j.get('level') != 'error' or j['message'].startswith('aborting due to'): continue
        diags.append(j)
    res = dict(verified=0, errors=0, fails=[], smt_ms=0)
    try:
        d = json.loads(p.stdout)
        vr = d.get('verification-results', {})
        res['verified'] = vr.get('verified', 0); res['errors'] = vr.get('errors', 0)
        res['success'] = bool(vr.get('success'))
        smt = d.get('times-ms', {}).get('smt', {})
        res['smt_ms'] = smt.get('smt-run', 0)
        fb = []
        for m in smt.get('smt-run-module-times', []): fb += m.get('function-breakdown', [])
        res['fns'] = [(f['function'].split('::', 1)[-1], f['success'], f.get('time', 0)) for f in fb]
    except Exception:
        res['success'] = False
    res.update(timeout=False, diags=diags, cmd=' '.join(cmd), wall=time.time() - t0, rc=p.returncode, raw=p.stderr[-4000:] if not diags else '')
    res['ok'] = res['success'] and not diags and res['verified'] > 0
    return res

def classify(msg):
    m = msg.lower()
    if any(x in m for x in UNDECIDED): return 'undecided'
    if any(x in m for x in VERIF_ERR): return 'verif'
    return 'rustc'

def fn_of(u, d):
    for s in sorted(d.get('spans', []), key=lambda s: not s.get('is_primary')):
        for f in u.fns:
            if f['first'] <= s['line_start'] <= f['last']: return f
    return None

def bare_closure(text):
    tk = vx.lex(text)
    for i in range(1, len(tk) - 2):
        if tk[i][1] == '|' and tk[i-1][1] in ('(', ',', '=', 'move', 'return', '{'):
            j = i + 1
            while j < len(tk) and tk[j][1] != '|':
                if tk[j][1] in ('{', '}', ';', '&') and tk[j+1][1] == '&': break
                j += 1
            if j + 1 < len(tk) and tk[j][1] == '|' and tk[j+1][1] != '-' and tk[i-1][1] != '{' and not any(t[1] in ('int', 'nat') for t in tk[i:j]) and not any(t[1] in ('forall', 'exists', 'choose') for t in tk[max(0, i-2):i]): return True
    return False

def verify_unit(unit):
    contract = os.path.join(HERE, 'contracts', unit + '.rs')
    out = dict(unit=unit, drift={}, failures=[], undecided=[], verified=0, errors=0, smt_ms=0, functions=[], trusted=[], cmd='', fatal=None, fns=[])
    external = {}
    for rnd in range(14):
        try:
            u = vx.generate(REPO, contract, external=external)
        except vx.Drift as ex:
            out['fatal'] = str(ex)
            return out
        out['drift'].update(u.drift)
        path = os.path.join(WORK, unit + '.rs')
        open(path, 'w').write(u.text)
        r = run_verus(path)
        out['cmd'] = r['cmd']; out['smt_ms'] += r['smt_ms']
        if r['timeout']:
            out['fatal'] = 'verifier timed out'
            return out
        rustc = [d for d in r['diags'] if classify(d['message']) == 'rustc']
        if rustc:
            progress = False
            for d in rustc:
                f = fn_of(u, d)
                if f and not f['external']:
                    external[f['key']] = d['message']; progress = True
            if not progress:
                out['fatal'] = 'not expressible: ' + rustc[0]['message'] + ' ' + str([(s['line_start'], s.get('text', [{}])[0].get('text', '')[:120]) for s in rustc[0].get('spans', [])][:1])
                return out
            continue
        break
    else:
        out['fatal'] = 'no stable extraction'
        return out
    for k, v in external.items(): out['drift'][k] = v
    if not r['ok'] and not r['diags']:
        out['fatal'] = 'verifier gave no result: ' + r.get('raw', '')[-600:]
        return out
    out['verified'], out['errors'] = r['verified'], r['errors']
    out['fns'] = r.get('fns', [])
    for d in r['diags']:
        k = classify(d['message'])
        f = fn_of(u, d)
        ob = dict(message=d['message'], function=f['key'] if f else 'lemma/specification', rendered=d.get('rendered', ''), where=[(s['line_start'], (s.get('label') or ''), ' '.join(t['text'].strip() for t in s.get('text', []))[:300]) for s in d.get('spans', [])])
        if k == 'verif' and f and bare_closure('\n'.join(u.text.split('\n')[f['first'] - 1:f['last']])):
            # a closure without a contract is opaque to the verifier: nothing was refuted
            ob['message'] += ' (the function now uses a closure without a contract)'; k = 'undecided'
        (out['undecided'] if k == 'undecided' else out['failures']).append(ob)
    out['functions'] = [f['key'] for f in u.fns if not f['external']]
    # trusted base: everything in the generated text that is assumed
    lines = u.text.split('\n')
    for i, l in enumerate(lines):
        if 'verifier::external_body' in l or 'external_type_specification' in l:
            for j in range(i, min(i + 4, len(lines))):
                m = re.search(r'\b(fn|struct)\s+(\w+)', lines[j])
                if m: out['trusted'].append(unit + ': ' + m.group(0) + ' (assumed contract)'); break
        m = re.search(r'\b(assume|admit)\s*\(', l)
        if m and not l.strip().startswith('//'): out['trusted'].append('%s: %s at generated line %d' % (unit, m.group(1), i + 1))
        m = re.search(r'assume_specification.*?\[(.*?)\]', l)
        if m: out['trusted'].append(unit + ': std ' + m.group(1).strip() + ' (assumed specification)')
    # vacuity guard
    if not out['failures']:
        us = vx.generate(REPO, contract, smoke=True, external=external)
        path = os.path.join(WORK, unit + '_smoke.rs')
        open(path, 'w').write(us.text)
        rs = run_verus(path)
        hit = set()
        for d in rs['diags']:
            f = fn_of(us, d)
            if f: hit.add(f['key'])
        want = [f['key'] for f in us.fns if not f['external']]
        out['smoke_total'] = len(want)
        out['smoke_refuted'] = len([k for k in want if k in hit])
        out['vacuous'] = [k for k in want if k not in hit]
        out['smt_ms'] += rs['smt_ms']
    return out

def build_harness():
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(HERE, 'harness'), env=env, capture_output=True, text=True)
    return p.returncode == 0, p.stderr[-4000:]

def run_harness(pid, tier, seed, budget):
    out = os.path.join(WORK, '%s_harness_%s_%d.json' % (pid, tier, seed))
    try: os.unlink(out)
    except OSError: pass
    exe = os.path.join(HERE, 'harness', 'target', 'debug', 'vp-harness')
    scratch = os.path.join(WORK, 'scratch_' + pid)
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, VP_SCRATCH=scratch)
    try:
        # a runaway allocation must not take the sandbox down
        p = subprocess.run(['bash', '-c', 'ulimit -v 12000000; exec "$0" "$@"', exe, pid, tier, str(seed), out, str(budget)], capture_output=True, text=True, timeout=budget * 3 + 240, env=env, cwd=scratch)
        rc, err = p.returncode, p.stderr[-2000:]
    except subprocess.TimeoutExpired:
        rc, err = -999, 'timeout'
    if os.path.exists(out):
        return json.load(open(out))
    cur = ''
    try: cur = open(out + '.current').read()
    except OSError: pass
    return dict(property=pid, evaluations=0, distinct_nontrivial=0, sections={}, samples=[], crashed=True,
                violations=[dict(key='abnormal-end', what='the process ended abnormally (%s) %s' % (rc, err[-500:]), case=cur)])

def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    for d in (WORK, EVID, REPLAY): os.makedirs(d, exist_ok=True)
    P = PROPS[pid]
    budget = 400 if tier == 'thorough' else 60
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build_harness)
        fu = [ex.submit(verify_unit, u) for u in P['units']]
        ok, berr = fb.result()
        h = None
        if ok: h = run_harness(pid, tier, seed, budget)
        units = [f.result() for f in fu]
    failures = [dict(f, unit=u['unit']) for u in units for f in u['failures']]
    drift = {u['unit'] + ': ' + k: v for u in units for k, v in u['drift'].items()}
    for u in units:
        if u['fatal']: drift[u['unit'] + ': whole unit'] = u['fatal']
        for o in u['undecided']: drift[u['unit'] + ': ' + o['function']] = o['message']
        for k in u.get('vacuous') or []: drift[u['unit'] + ': ' + k] = 'vacuous precondition'
    searched = []
    viols = list(h['violations']) if h else []
    kf = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'known']
    def is_known(v): return any(v['key'] == k['key'] and (k.get('case') is None or k['case'] == v['case']) and (k.get('case_re') is None or re.search(k['case_re'], v['case'])) for k in kf)
    if ok and (failures or drift) and not [v for v in viols if not is_known(v)] and tier == 'quick':
        # the verifier did not accept (or could not read) the changed code: search longer.
        for s2 in range(2, 5):
            hh = run_harness(pid, 'thorough', seed * 100 + s2, 40)
            searched.append(dict(seed=seed * 100 + s2, evaluations=hh['evaluations']))
            viols += hh['violations']
            if [v for v in viols if not is_known(v)]: break
    known = [v for v in viols if is_known(v)]
    new = [v for v in viols if not is_known(v)]
    nver = sum(u['verified'] for u in units); nerr = sum(u['errors'] for u in units)
    trusted = sorted({t for u in units for t in u['trusted']})
    level = P['level']
    cov = dict(
        obligations=nver + nerr, discharged=nver,
        checker_cmd='; '.join(u['cmd'] for u in units if u['cmd']) or 'none',
        trusted_base=trusted + P.get('trusted', []),
        back_end='Verus 0.2026.09.13 / Z3',
        functions_under_contract=sorted({f for u in units for f in u['functions']}),
        solver_ms=sum(u['smt_ms'] for u in units),
        units=[dict(unit=u['unit'], verified=u['verified'], errors=u['errors'], functions=len(u['functions']), vacuity_refuted='%s/%s' % (u.get('smoke_refuted'), u.get('smoke_total')), fatal=u['fatal']) for u in units],
        not_verified_this_run=drift,
        failed_obligations=[dict(unit=f['unit'], function=f['function'], message=f['message']) for f in failures],
        bounded_stand_in=dict(label='bounded: executable contract on the real crate, never counted as proved', covers=P['bounded'], sections=h['sections'] if h else {}, extra_search=searched, built=ok),
        evaluations=h['evaluations'] if h else 0,
        distinct_nontrivial=h['distinct_nontrivial'] if h else 0,
        rule=P['rule'], samples=h['samples'] if h else [],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=P['assumptions'], wall_s=round(time.time() - t0, 2), violations=len(new) + (1 if failures and not new else 0))
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for k in kf:
        if any(v['key'] == k['key'] for v in known): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if not ok and not failures:
        sys.stderr.write(berr)
        print('check error: the harness does not build against /repo')
        sys.exit(2)
    rp = os.path.join(REPLAY, '%s.json' % pid)
    if new:
        json.dump(dict(property=pid, kind='failing input on the real crate', replay_cmd='cd %s/harness && cargo build --offline && ./target/debug/vp-harness %s %s %d /tmp/out.json' % (HERE, pid, tier, seed), violations=new, failed_obligations=failures), open(rp, 'w'), indent=1, ensure_ascii=False)
        for v in new[:5]: print('  [%s] %s\n    input: %s' % (v['key'], v['what'][:600], v['case'][:600]))
        for f in failures[:5]: print('  failed obligation: %s in %s (%s)' % (f['message'], f['function'], f['unit']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    if failures:
        json.dump(dict(property=pid, kind='failed obligation, no failing input found', failed_obligations=failures, searched=searched), open(rp, 'w'), indent=1, ensure_ascii=False)
        for f in failures[:8]: print('  failed obligation: %s in %s (%s)' % (f['message'], f['function'], f['unit']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        sys.exit(1)
    print('%s held: %d obligations discharged over %d functions, %d bounded cases%s (%.1f s)' % (pid, nver, len(cov['functions_under_contract']), cov['evaluations'], ('; not verified this run: %d' % len(drift)) if drift else '', time.time() - t0))
    for k, v in list(drift.items())[:10]: print('  not verified: %s: %s' % (k, str(v)[:300]))
    sys.exit(0)

main()
