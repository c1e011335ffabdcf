#!/usr/bin/env python3
"""verify all contracts of a file in parallel and print one line each (development helper)"""
import sys, os, json, subprocess, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = sys.argv[1]; only = sys.argv[2:]; b = os.environ.get('EV_BUDGET', '330')
w = tempfile.mkdtemp(); mod = w + '/m.json'
run = ['python3-vt', V + '/eisvc/run.py']
r = subprocess.run(run + ['--extract', f, mod], capture_output=True, text=True)
if r.returncode: print(r.stderr[-3000:]); sys.exit(1)
ens = [e for e in json.load(open(mod))['entries'] if not only or any(o in e for o in only)]
def go(en):
    out = f'{w}/{en}.json'
    r = subprocess.run(run + ['--json', mod, en, f[:-3] + '.py', out, b], capture_output=True, text=True)
    return json.load(open(out)) if os.path.exists(out) else dict(entry=en, status='crash', reason=r.stderr[-1500:], obligations=[], failures=[], wall=0, nfail=0, covers={}, solver={})
with cf.ThreadPoolExecutor(8) as p:
    for v in p.map(go, sorted(ens)):
        n = sum(o['n'] for o in v['obligations']); d = sum(o['discharged'] for o in v['obligations'])
        print(f"{v['entry'][12:]}: {v['status']} {v['reason'][:300]} {d}/{n} fail={v['nfail']} {v['wall']:.0f}s", 'UNCOVERED ' + str([c for c, k in v['covers'].items() if not k]) if any(not k for k in v['covers'].values()) else '', flush=True)
        for x in v['failures'][:int(os.environ.get('EV_NF', '2'))]: print('     ', x['kind'], x['label'], x['loc'], x['status'], x['goal'][:200])
subprocess.run(['rm', '-rf', w])
