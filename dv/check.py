"""One property: discharge its contracts on the current source of the repository,
run the concrete cross-check beside it, write the evidence file."""
import sys, os, json, time, subprocess, importlib, re, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = os.environ.get('DV_PY', '/opt/venv/bin/python')
NOINPUT = 'no-failing-input-found'
EVD = os.environ.get('DV_EVID') or os.path.join(HERE, 'evidence')


def known(pid):
    """open findings of a property: list of (pattern, text)"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


class Replay:
    """concrete cases on the real code, in the repository's own interpreter"""

    def __init__(self, pid, seed, tier, budget, tag, extra=()):
        self.out = os.path.join(EVD, 'replay', '%s-%s.json' % (pid, tag))
        os.makedirs(os.path.dirname(self.out), exist_ok=True)
        if os.path.exists(self.out):
            os.remove(self.out)
        env = dict(os.environ, JAX_PLATFORMS='cpu', JAX_ENABLE_COMPILATION_CACHE='false', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
        env.pop('PYTHONPATH', None)
        self.budget = budget
        self.cmd = [PY, os.path.join(HERE, 'replay', 'driver.py'), pid, '--seed', str(seed), '--tier', tier, '--budget', str(budget),
                    '--out', self.out] + list(extra)
        self.log = open(self.out + '.log', 'w')
        self.p = subprocess.Popen(self.cmd, env=env, stdout=self.log, stderr=subprocess.STDOUT, cwd=HERE)

    def result(self):
        try:
            self.p.wait(self.budget * 2 + 120)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.log.close()
        if not os.path.exists(self.out):
            return {'cases': 0, 'failures': [], 'error': 'replay process ended with status %s: %s' % (self.p.returncode, open(self.out + '.log').read()[-1500:])}
        return json.load(open(self.out))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(EVD, 'replay'), exist_ok=True)
    ev = os.path.join(EVD, pid + '.json')
    from dv import run, load
    m = importlib.import_module('contracts.' + pid.lower())
    budget = getattr(m, 'BUDGET', {}).get(tier, 40 if tier == 'quick' else 300)
    rep = Replay(pid, seed, tier, budget, 'run')
    entries = list(m.CONTRACTS)
    if tier == 'thorough':
        entries += list(getattr(m, 'THOROUGH', []))
    limit = 300 if tier == 'quick' else 700
    rs = run.run_all(entries, limit, procs=6, total=600, **({'enough': 10**9, 'grace': limit} if known(pid) else {}))
    rr = rep.result()

    # ---- collect
    total = dis = 0
    backends = {}
    failed, unsupported, vacuous = [], [], []
    funcs = {}
    z3n = z3t = 0
    pathn = 0
    for e, r in zip(entries, rs):
        ident = '%s%s' % (r['contract'], ' ' + json.dumps(r['params']) if r['params'] else '')
        for f in r['funcs']:
            funcs[f] = funcs.get(f, 0) + 1
        z3n += r['z3_calls']
        z3t += r['z3_time']
        pathn += r['paths']
        for n, o in r['obligations'].items():
            total += 1
            if o['failed']:
                failed.append((ident, n, o['detail']))
            else:
                dis += 1
                for b, c in o['backends'].items():
                    backends[b] = backends.get(b, 0) + c
        for u in r['unsupported']:
            unsupported.append((ident, u))
        if not r['unsupported'] and not any(o['failed'] for o in r['obligations'].values()):
            if not r['obligations'] or 'end' not in r['cover']:
                vacuous.append(ident)
    kf = known(pid)
    hit = {}

    def listed(key):
        for pat, text in kf:
            if pat in key:
                hit[pat] = text
                return True
        return False
    fail_new = [f for f in failed if not listed(f[0] + '/' + f[1])]
    witness = [c for c in rr.get('failures', []) if not listed(c['key'])]
    if rr.get('error') and not rr.get('failures') and not fail_new:
        print('internal error: ' + rr['error'])
        return 2
    extended = None
    if fail_new and not witness:
        # look further for a failing input
        b2 = 90 if tier == 'quick' else 240
        extended = Replay(pid, seed + 1000, 'thorough', b2, 'extended').result()
        witness = [c for c in extended.get('failures', []) if not listed(c['key'])]
    violation = bool(fail_new or witness)
    rc = 0
    for pat, text in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if violation:
        rc = 1
        path = os.path.join(EVD, 'replay', '%s-violation.json' % pid)
        data = {'property': pid, 'failed_obligations': [{'contract': a, 'obligation': b, 'verifier_output': c} for a, b, c in fail_new],
                'failing_input': witness[0] if witness else None,
                'rerun': ("%s %s %s --case '%s'" % (PY, os.path.join(HERE, 'replay', 'driver.py'), pid, json.dumps(witness[0]['case'])))
                if witness else 'cd %s && ./check %s' % (HERE, pid)}
        with open(path, 'w') as fh:
            json.dump(data, fh, indent=1)
        for a, b, c in fail_new[:8]:
            print('obligation not discharged: %s / %s' % (a, b))
        for c in witness[:3]:
            print('failing input on the real code: %s: %s' % (c['key'], c['detail'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if witness else ' ' + NOINPUT))
    if vacuous and rc == 0:
        print('internal error: contract established nothing: ' + '; '.join(vacuous[:5]))
        rc = 2
    bounded = [{'contract': a, 'reason': u} for a, u in unsupported]
    if bounded and not violation:
        print('not within the verifier\'s reach on this tree (decided by the bounded concrete check instead): '
              + '; '.join('%s: %s' % (b['contract'], b['reason'][:160]) for b in bounded[:5]))
    if bounded and not rr.get('cases') and rc == 0:
        print('internal error: nothing decided')
        rc = 2
    cov = {
        'obligations': total, 'discharged': dis,
        'checker_cmd': './check %s %s  (dv/run.py over contracts/%s.py, source read from /repo on this run)' % (pid, tier, pid.lower()),
        'trusted_base': list(getattr(m, 'TRUSTED', [])) + ['dv/terms.py normaliser, dv/smt.py, z3', 'dv/load.py source transformation (see DESIGN.md)'],
        'functions_under_contract': sorted(funcs),
        'contracts': [{'contract': r['contract'], 'params': r['params'], 'paths': r['paths'], 'obligations': len(r['obligations']),
                       'wall_s': r['wall']} for r in rs],
        'paths_explored': pathn,
        'back_ends': backends, 'z3_queries': z3n, 'solver_time_s': round(z3t, 2),
        'enumerated': list(getattr(m, 'ENUMERATED', [])),
        'bounded': bounded + list(getattr(m, 'BOUNDED', [])),
        'bounded_note': 'entries listed here are not counted as proved',
        'evaluations': rr.get('cases', 0) + (extended or {}).get('cases', 0),
        'distinct_nontrivial': rr.get('distinct', 0),
        'rule': 'concrete cross-check of the real code against independent oracles (replay/%s.py); a case is non-trivial if it evaluated at least one assertion on computed data' % pid.lower(),
        'samples': rr.get('samples', [])[:5],
        'failed_obligations': ['%s / %s' % (a, b) for a, b, c in failed],
        'known_findings_seen': sorted(hit.values()),
    }
    evd = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
           'assumptions': list(getattr(m, 'TRUSTED', [])), 'wall_s': round(time.time() - t0, 2), 'violations': int(violation)}
    with open(ev, 'w') as fh:
        json.dump(evd, fh, indent=1)
    print('%s %s: %d/%d obligations, %d contracts, %d concrete cases, %.1f s' % (pid, tier, dis, total, len(rs), rr.get('cases', 0), time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main())
