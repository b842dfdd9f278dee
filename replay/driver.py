"""Concrete cross-check of one property on the real code.  Runs in the repository's interpreter."""
import sys, os, json, time, argparse, importlib, traceback, hashlib, signal
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('DV_REPO', '/repo')
sys.path.insert(0, REPO)


class Slow(BaseException):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=40)
    ap.add_argument('--out')
    ap.add_argument('--case')
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--part', default='')
    a = ap.parse_args()
    t0 = time.time()
    os.environ.setdefault('XLA_FLAGS', '--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true --xla_cpu_multi_thread_eigen=false')
    if a.workers > 1 and not a.case and not a.part:
        return spread(a, t0)
    import lib
    m = importlib.import_module(a.pid.lower())
    if a.case:
        c = json.loads(a.case)
        lib.COUNT[0] = 0
        m.run(c)
        print('case holds (%d assertions)' % lib.COUNT[0])
        return
    res = {'cases': 0, 'distinct': 0, 'failures': [], 'samples': [], 'skipped': 0}
    seen = set()

    def alarm(*_):
        raise Slow()
    signal.signal(signal.SIGALRM, alarm)
    kk, w = [int(x) for x in (a.part or '0/1').split('/')]
    for i, c in enumerate(m.cases(a.seed, a.tier)):
        if i % w != kk:
            continue
        if time.time() - t0 > a.budget or len(res['failures']) >= 3:
            break
        lib.COUNT[0] = 0
        ts = time.time()
        signal.alarm(int(a.budget) + 60)
        try:
            m.run(c)
        except Slow:
            res['skipped'] += 1
            continue
        except Exception as e:
            signal.alarm(0)
            det = '%s: %s' % (type(e).__name__, str(e)[:1500])
            if not isinstance(e, lib.Fail):
                det += '\n' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])[-2500:]
            res['failures'].append({'key': '%s:%s' % (c.get('kind', ''), getattr(e, 'what', type(e).__name__)), 'case': c, 'detail': det})
        finally:
            signal.alarm(0)
        res['cases'] += 1
        k = json.dumps(c, sort_keys=True)
        if lib.COUNT[0] and k not in seen:
            seen.add(k)
            res['distinct'] += 1
        if len(res['samples']) < 5:
            res['samples'].append(dict(c, assertions=lib.COUNT[0], seconds=round(time.time() - ts, 2)))
    res['wall'] = round(time.time() - t0, 2)
    if a.out:
        tmp = a.out + '.tmp'
        json.dump(res, open(tmp, 'w'), indent=1)
        os.replace(tmp, a.out)
    else:
        print(json.dumps(res, indent=1))


def spread(a, t0):
    import subprocess, tempfile
    with tempfile.TemporaryDirectory() as d:
        ps = []
        for k in range(a.workers):
            out = '%s/%d.json' % (d, k)
            ps.append((out, subprocess.Popen([sys.executable, os.path.abspath(__file__), a.pid, '--seed', str(a.seed), '--tier', a.tier, '--budget', str(a.budget),
                                              '--out', out, '--part', '%d/%d' % (k, a.workers)])))
        res = {'cases': 0, 'distinct': 0, 'failures': [], 'samples': [], 'skipped': 0}
        for out, p in ps:
            p.wait()
            if not os.path.exists(out):
                res['error'] = 'replay process ended with status %s' % p.returncode
                continue
            r = json.load(open(out))
            for x in ('cases', 'distinct', 'skipped'):
                res[x] += r[x]
            res['failures'] += r['failures']
            res['samples'] += r['samples'][:2]
    res['wall'] = round(time.time() - t0, 2)
    if a.out:
        tmp = a.out + '.tmp'
        json.dump(res, open(tmp, 'w'), indent=1)
        os.replace(tmp, a.out)
    else:
        print(json.dumps(res, indent=1))


if __name__ == '__main__':
    main()
