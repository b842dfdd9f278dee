import sys, importlib, time, json, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv import run
def main(pid, only=None, inproc=False):
    m = importlib.import_module('contracts.' + pid.lower())
    es = [e for e in m.CONTRACTS if only is None or only in e[0]]
    t0 = time.time()
    rs = [run.run_contract(e, 300) for e in es] if inproc else run.run_all(es, 600, enough=10**9, grace=600)
    for r in rs:
        print('%-55s %-45s paths %-4d obl %-3d %6.1fs z3 %d/%.1fs' % (r['contract'][:55], r['params'], r['paths'], len(r['obligations']), r['wall'], r['z3_calls'], r['z3_time']))
        for n, o in r['obligations'].items():
            if o['failed'] or '-v' in sys.argv:
                print('     ', n, o['paths'], o['failed'], o['backends'], round(o['time'], 2), o['detail'][:1500] if o['failed'] else '')
        for u in r['unsupported']:
            print('     UNSUPPORTED', u)
        if r.get('error'): print(r['error'][-700:])
    print('wall %.1f' % (time.time() - t0))
    if '-f' in sys.argv:
        for f in sorted({f for r in rs for f in r['funcs']}): print('   fn', f)
if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    main(a[0], a[1] if len(a) > 1 else None, '-i' in sys.argv)
