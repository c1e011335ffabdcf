#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property against /repo's current tree.

1. extraction: the contract files (contracts/*.cc) include the real headers of /repo; clang lowers them to LLVM IR.
2. deduction: eisvc (eisvc/engine.py) discharges every obligation of every contract (one process per contract).
3. execution: the same contracts compiled natively: counter-models are replayed and a bounded search looks for a failing input.
"""
import json, os, re, sys, time, subprocess, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'eisvc')); sys.path.insert(0, os.path.join(V, 'contracts'))
PY = '/opt/veriftools/pyvenv/bin/python3' if os.path.exists('/opt/veriftools/pyvenv/bin/python3') else 'python3-vt'
import run as R, registry
REPO = R.REPO

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = registry.PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='eisvc-')
    rdir = os.path.join(V, 'build', 'replay'); os.makedirs(rdir, exist_ok=True)
    try:
        rc = decide(pid, tier, seed, spec, work, rdir, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def known_findings(pid):
    """known_findings.txt: 'known: property=<id> file=<contract file> function=<ev_known_*> <what fails>'; 'fixed:' lines are a record only"""
    out = []
    p = os.path.join(V, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) file=(\S+) function=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid: out.append(dict(file=m.group(2), function=m.group(3), what=m.group(4)))
    return out

RUNNING = set(); STOP = []     # a concrete failing input ends the check: what still runs is stopped
def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    RUNNING.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return subprocess.CompletedProcess(cmd, p.returncode, o, e)
    except subprocess.TimeoutExpired: p.kill(); p.communicate(); raise
    finally: RUNNING.discard(p)
def stop_all():
    STOP.append(1)
    for p in list(RUNNING):
        try: p.kill()
        except OSError: pass

NAT_FLAGS = {'asan2': ['-O2', '-g', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS'], 'asan': ['-O1', '-g', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS'], 'plain': ['-O2', '-g', '-D_GLIBCXX_ASSERTIONS'], 'prod': ['-O3', '-ffast-math', '-march=native']}
def build_native(cc, kind, out):
    return sh(['g++', '-std=c++20', '-w', *NAT_FLAGS[kind], f'-I{V}/eisvc', f'-I{REPO}/eisvogel/core', f'-I{REPO}/eisvogel/core/impl', cc, '-o', out, '-rdynamic', '-ltbb', '-luuid', '-ldl'])

def decide(pid, tier, seed, spec, work, rdir, t0):
    R.irdump_bin()
    thorough = tier == 'thorough'
    vbudget = spec.get('vbudget', 330) * (2 if thorough else 1)
    jobs = []; mods = {}; notes = []; nat = {}
    pool = cf.ThreadPoolExecutor(8)
    def do_extract(f):
        out = os.path.join(work, f[:-3] + '.mod.json')
        r = sh([PY, os.path.join(V, 'eisvc', 'run.py'), '--extract', os.path.join(V, 'contracts', f), out])
        return f, out, r
    def do_native(f, kind):
        exe = os.path.join(work, f[:-3] + '.' + kind)
        r = build_native(os.path.join(V, 'contracts', f), kind, exe)
        return f, kind, exe, r
    vdeadline = t0 + (540 if not thorough else 3600 * 3)
    def do_verify(f, mod, en):
        left = min(vbudget, vdeadline - time.time())
        if left < 5 or STOP: return dict(entry=en, status='budget', reason='time limit of the check', obligations=[], failures=[], nfail=0, functions=[], covers={}, notes=[], solver={}, models=[], wall=0, loops=[])
        out = os.path.join(work, f'{en}.json')
        env = dict(os.environ); env['PYTHONHASHSEED'] = '0'
        try: r = sh([PY, os.path.join(V, 'eisvc', 'run.py'), '--json', mod, en, os.path.join(V, 'contracts', f[:-3] + '.py'), out, str(left)], timeout=left + 45, env=env)
        except subprocess.TimeoutExpired: return dict(entry=en, status='budget', reason='process timeout', obligations=[], failures=[], nfail=0, functions=[], covers={}, notes=[], solver={}, models=[], wall=vbudget, loops=[])
        if os.path.exists(out): return json.load(open(out))
        return dict(entry=en, status='unsupported', reason='verifier crashed: ' + r.stderr[-300:], obligations=[], failures=[], nfail=0, functions=[], covers={}, notes=[], solver={}, models=[], wall=0, loops=[])
    def do_search(f, kind, exe, en, s, sd):
        ff = os.path.join(rdir, f'{pid}-{en[len("ev_contract_"):]}-{kind}.txt')
        if os.path.exists(ff): os.remove(ff)
        if STOP: return dict(file=f, kind=kind, entry=en, rc=-9, out=None, err='stopped', ff=ff)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', TMPDIR=work)
        try: r = sh([exe, en, 'search', str(s), str(sd), ff], timeout=s * 3 + 120, env=env)
        except subprocess.TimeoutExpired as x:
            return dict(file=f, kind=kind, entry=en, rc=124, out=None, err='search did not finish: ' + str(x)[:200], ff=ff)
        try: o = json.loads(r.stdout.strip().split('\n')[-1])
        except Exception: o = None
        if r.returncode == 1 and not thorough: stop_all()
        return dict(file=f, kind=kind, entry=en, rc=r.returncode, out=o, err=r.stderr[-6000:], ff=ff)
    exf = [pool.submit(do_extract, f) for f in spec.get('verify', [])]
    naf = [pool.submit(do_native, f, k) for f, k in [(x, spec.get('kind', 'asan')) if isinstance(x, str) else x for x in spec.get('native', [])]]
    vf = []; todo = []; left_out = []
    for x in exf:
        f, mod, r = x.result()
        if r.returncode != 0: notes.append(f'extraction of {f} failed: {r.stderr[-500:]}'); continue
        mods[f] = mod
        ens = [e for e in json.load(open(mod))['entries']]
        skip = [re.compile(x) for x in spec.get('thorough_only', [])] if not thorough else []
        for en in ens:
            if any(x.search(en) for x in skip): left_out.append(en)
            else: todo.append((f, mod, en))
    # the expensive ones (high dimensions) first
    for f, mod, en in sorted(todo, key=lambda t: (-sum(map(int, re.findall(r'\d', t[2]))), t[2])): vf.append(pool.submit(do_verify, f, mod, en))
    nats = []; searches = []; built = []
    for x in naf:
        f, kind, exe, r = x.result()
        if r.returncode != 0: notes.append(f'native build of {f} failed: {r.stderr[-1500:]}'); continue
        syms = [l.split()[-1] for l in sh(['nm', '--defined-only', exe]).stdout.splitlines()]
        ens = sorted(s for s in syms if s.startswith('ev_contract_'))
        nat[(f, kind)] = (exe, ens); built.append((f, kind, exe, ens))
    ncon = sum(len(ens) for *_, ens in built)
    secs = spec.get('secs', max(3.5, min(16, 320 / max(1, ncon)))) * (4 if thorough else 1)
    for f, kind, exe, ens in built:
        for en in ens:
            s = secs * spec.get('weights', {}).get(en[len('ev_contract_'):], 1)
            nsh = spec.get('shards', {}).get(en[len('ev_contract_'):], 1)
            for sd in range(nsh): searches.append(pool.submit(do_search, f, kind, exe, en, s, seed + 1000 * sd))
    vres = [x.result() for x in vf]
    sres = [x.result() for x in searches]
    # ---- judge
    viol = []     # (replay path, text, has input)
    for s in sres:
        if s['rc'] == 1:
            lab = [l for l in s['err'].splitlines() if l.startswith('EVFAIL')]
            with open(s['ff'], 'a') as fh:
                fh.write(f"# replay: g++ -std=c++20 -w {' '.join(NAT_FLAGS[s['kind']])} -I{V}/eisvc -I{REPO}/eisvogel/core -I{REPO}/eisvogel/core/impl {V}/contracts/{s['file']} -rdynamic -ltbb -luuid -ldl -o t && ./t {s['entry']} replay {s['ff']}\n")
                for l in s['err'].splitlines()[:60]: fh.write('# ' + l + '\n')
            viol.append((s['ff'], lab[0] if lab else s['err'][-300:], True))
        elif s['rc'] == 124:
            open(s['ff'], 'w').write('# ' + s['err'] + '\n'); notes.append(f"{s['entry']}: {s['err']}")
        elif (s['rc'] != 0 or s['out'] is None) and not STOP:
            notes.append(f"search {s['entry']} ended with {s['rc']}: {s['err'][-300:]}")
    if STOP: notes.append('stopped at the first failing input'); STOP.clear(); vres = [v for v in vres if v['status'] == 'ok' or v['failures']]
    exes = {}
    for (f, kind), (exe, ens) in nat.items():
        for en in ens: exes.setdefault(en, (f, kind, exe))
    bounded = []
    for v in vres:
        if v['status'] != 'ok': bounded.append(f"{v['entry']}: {v['status']} {v['reason'][:200]}")
        if not v['failures']: continue
        hit = False
        for i, m in enumerate(v['models']):
            if v['entry'] not in exes: continue
            f, kind, exe = exes[v['entry']]
            rp = os.path.join(rdir, f"{pid}-{v['entry'][len('ev_contract_'):]}-model{i}.txt")
            with open(rp, 'w') as fh:
                fh.write(f"# obligation: {m['obligation']}\n")
                for k, x in m['inputs'].items(): fh.write(f'{k} {x}\n')
            try: r = sh([exe, v['entry'], 'replay', rp], timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', TMPDIR=work))
            except subprocess.TimeoutExpired: continue
            if r.returncode == 1:
                with open(rp, 'a') as fh:
                    for l in r.stderr.splitlines()[:60]: fh.write('# ' + l + '\n')
                viol.append((rp, m['obligation'], True)); hit = True; break
        if not hit and not any(x[2] for x in viol):
            rp = os.path.join(rdir, f"{pid}-{v['entry'][len('ev_contract_'):]}-obligation.txt")
            with open(rp, 'w') as fh:
                fh.write(f"obligations of {v['entry']} the verifier does not discharge on this tree:\n")
                for x in v['failures']:
                    fh.write(f"\n{x['kind']}: {x['label']}\n  at {x['loc']}\n  status {x['status']}\n  goal {x['goal']}\n  call stack {x['trace']}\n")
                    for p in x['pc']: fh.write(f'    {p}\n')
                fh.write('\ncounter-models: ' + json.dumps(v['models'], indent=1) + '\n')
            viol.append((rp, f"{v['failures'][0]['kind']}: {v['failures'][0]['label']} at {v['failures'][0]['loc']}", False))
    # ---- known findings: each is a contract of its own (ev_known_*), outside the precondition of the checked contracts
    for k in known_findings(pid):
        exe = nat.get((k['file'], spec.get('kind', 'asan')), (None,))[0]
        if not exe: continue
        try: r = sh([exe, k['function'], 'search', '2', str(seed)], timeout=100, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', TMPDIR=work))
        except subprocess.TimeoutExpired: continue
        if r.returncode == 1: print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else: notes.append(f"known finding {k['function']} was not observed on this tree: {k['what']}")
    # concrete inputs first; obligations without input only when there is no concrete one
    conc = [x for x in viol if x[2]]
    shown = conc or viol
    for rp, text, hasin in shown[:5]:
        print(f'  {text}')
        print(f'VIOLATION property={pid} replay={rp}' + ('' if hasin else ' no-failing-input-found'))
    # ---- vacuity
    for v in vres:
        for c, n in v['covers'].items():
            if c.startswith('cover:') and not n: notes.append(f"{v['entry']}: cover point {c} not shown reachable")
    tot = sum(o['n'] for v in vres for o in v['obligations']); dis = sum(o['discharged'] for v in vres for o in v['obligations'])
    be = {}; stime = 0.0
    for v in vres:
        stime += v.get('solver', {}).get('time', 0)
        for o in v['obligations']:
            for k, n in o['backends'].items(): be[k] = be.get(k, 0) + n
    fset = sorted(set(f for v in vres for f in v['functions']))
    eis = [f for f in fset if not f.startswith(('std::', '__gnu', 'void std::', 'bool std::', 'decltype', 'operator ', 'ev_contract', 'auto std::'))]
    proved = [v['entry'] for v in vres if v['status'] == 'ok' and not v['failures']]
    evals = sum(s['out']['evaluated'] for s in sres if s['out']); dist = sum(s['out']['distinct'] for s in sres if s['out'])
    if left_out: notes.append(f'{len(left_out)} contracts are verified by the thorough tier only: ' + ' '.join(sorted(x[12:] for x in left_out)))
    only_native = sorted(set(e for (f, k), (x, ens) in nat.items() for e in ens) - set(v['entry'] for v in vres))
    level = spec.get('level', 'proof')
    cov = dict(obligations=tot, discharged=dis, checker_cmd=f'python3 check.py {pid} {tier}',
               trusted_base=['clang 18 / opt (sroa, early-cse, simplifycfg) lowering of the real headers to LLVM IR', 'eisvc VC generator (eisvc/*.py)', 'z3 (python bindings)', *spec.get('trusted', [])],
               by_backend=be, solver_time_s=round(stime, 2), solver_queries=sum(v.get('solver', {}).get('queries', 0) for v in vres),
               contracts_proved=proved, contracts_bounded_only=only_native + bounded, functions_under_contract=eis[:400], functions_total=len(fset),
               loop_invariants=[l for v in vres for l in v['loops']][:200],
               evaluations=evals, distinct_nontrivial=dist,
               rule='native execution of the same contracts: exhaustive enumeration of inputs up to a growing bound, then random sampling; a case is counted when its precondition holds, distinct by its input vector',
               native=[dict(contract=s['entry'], build=s['kind'], **({k: s['out'][k] for k in ('evaluated', 'distinct', 'discarded', 'checks', 'complete_bound', 'random', 'covers')} if s['out'] else {'rc': s['rc']})) for s in sres],
               samples=[dict(contract=v['entry'], obligation=o) for v in vres[:3] for o in v['obligations'][:2]] or [s['out'] for s in sres[:2]],
               per_contract=[dict(entry=v['entry'], status=v['status'], reason=v['reason'], wall=v['wall'], obligations=sum(o['n'] for o in v['obligations']), discharged=sum(o['discharged'] for o in v['obligations']), paths=v.get('paths')) for v in vres],
               explanation=spec.get('text', ''), notes=notes)
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=cov, assumptions=spec.get('assumptions', []) + sorted(set(n for v in vres for n in v['notes'])), wall_s=round(time.time() - t0, 1), violations=len(shown))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', f'{pid}.json'), 'w'), indent=1)
    print(f"{pid} {tier}: contracts {len(vres)} verified {len(proved)}, obligations {dis}/{tot}, native contracts {len(sres)} runs {evals}, {time.time()-t0:.0f}s")
    for n in notes: print('note:', n[:600])
    for b in bounded: print('bounded:', b)
    if shown: return 1
    if not proved and not any(s['out'] and s['rc'] == 0 for s in sres): return 2      # nothing could be decided
    return 0

main()
