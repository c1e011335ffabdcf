"""eisvc driver: compile a contract harness against /repo's current headers and verify it.

  run.py FILE.cc [entry-substring...]              verify and print
  run.py --extract FILE.cc OUT.json                extraction only
  run.py --json MOD.json ENTRY CFG.py OUT.json BUDGET   verify one entry of an extracted module
"""
import json, os, subprocess, sys, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('EV_REPO', '/repo')
BUILD = os.environ.get('EV_BUILD', os.path.join(os.path.dirname(HERE), 'build'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
CLANG = '/usr/bin/clang++-18'; OPT = '/usr/lib/llvm-18/bin/opt'

def irdump_bin():
    src = os.path.join(HERE, 'irdump.cc')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    os.makedirs(BUILD, exist_ok=True)
    b = os.path.join(BUILD, f'irdump-{h}')
    if not os.path.exists(b):
        tmp = b + f'.{os.getpid()}'
        subprocess.run([CLANG, '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions', '-I/usr/lib/llvm-18/include', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)
        os.rename(tmp, b)
    return b

def overlay(base):
    """gcc accepts `X::template f(args)` without a template argument list, clang 18 does not: the redundant disambiguator is
    blanked in a copy of the header laid over the original for the extraction (nothing else differs)"""
    import glob, re
    ent = []
    for f in sorted(glob.glob(f'{REPO}/eisvogel/core/**/*.h*', recursive=True)):
        s = open(f, errors='replace').read()
        t = re.sub(r'::template(\s+\w+\s*\()', lambda m: '::        ' + m.group(1), s)
        if t != s:
            o = base + f'.{len(ent)}.hdr'; open(o, 'w').write(t)
            ent.append({'type': 'file', 'name': f, 'external-contents': o})
    if not ent: return []
    y = base + '.overlay.yaml'; json.dump({'version': 0, 'use-external-names': False, 'roots': ent}, open(y, 'w'))
    return ['-ivfsoverlay', y]

def extract(cc, workdir, defs=()):
    """the mechanical extraction: real headers -> LLVM IR -> JSON; raises CalledProcessError"""
    os.makedirs(workdir, exist_ok=True)
    base = os.path.join(workdir, os.path.basename(cc)[:-3])
    bc, bc2 = base + '.bc', base + '.opt.bc'
    over = overlay(base)
    subprocess.run([CLANG, '-std=c++20', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-Wno-c++11-narrowing', '-DEV_VERIFY', *over, *[f'-D{d}' for d in defs], f'-I{HERE}', f'-I{REPO}/eisvogel/core', f'-I{REPO}/eisvogel/core/impl',
                    '-emit-llvm', '-c', cc, '-o', bc], check=True, stderr=None if os.environ.get('EV_CC') else subprocess.PIPE)
    subprocess.run([OPT, '-passes=function(sroa,early-cse,simplifycfg)', bc, '-o', bc2], check=True, capture_output=True)
    out = subprocess.run([irdump_bin(), bc2], check=True, capture_output=True).stdout
    os.remove(bc); os.remove(bc2)
    return json.loads(out)

def shortloc(s):
    for p in (REPO + '/', '/repo/', os.path.dirname(HERE) + '/'):
        if s.startswith(p): return s[len(p):]
    i = s.find('/include/c++/')
    return 'libstdc++' + s[i + len('/include/c++/13'):] if i >= 0 else s

def verify1(mod, entry, cfg, budget, scale):
    import engine, terms as T
    T.SCALE = scale
    e = engine.Engine(mod, cfg)
    t0 = time.time(); e.deadline = t0 + budget
    status = 'ok'; reason = ''
    try:
        st = e.start(entry)
        e.explore([st])
    except engine.Unsupported as x: status = 'unsupported'; reason = str(x)
    except engine.Budget as x: status = 'budget'; reason = str(x)
    except RecursionError as x:
        if os.environ.get("EV_TB"):
            import traceback; traceback.print_exc(limit=-40)
        status = 'unsupported'; reason = 'recursion'
    except engine.CutNeeded: status = 'unsupported'; reason = 'loop structure'
    except (KeyError, AttributeError, TypeError, IndexError, ValueError) as x:
        import traceback
        status = 'unsupported'; reason = 'internal: ' + repr(x) + ' ' + traceback.format_exc().strip().split('\n')[-3].strip()
    e.status = status; e.reason = reason; e.wall = time.time() - t0
    return e
def verify(mod, entry, cfg=None, budget=120):
    import terms as T
    e = verify1(mod, entry, cfg, budget, 1)
    if (e.failures and any(f['status'] == 'unknown' or f['cut'] for f in e.failures)) and not os.environ.get('EV_NORETRY'):
        rest = budget - e.wall
        if rest > 20:
            T._cache.clear()
            e2 = verify1(mod, entry, cfg, rest, 4)
            if e2.status == 'ok' or e.status != 'ok':
                e2.wall += e.wall; return e2
    return e

def loadcfg(cfgf, entry):
    if cfgf and os.path.exists(cfgf):
        ns = {}; exec(compile(open(cfgf).read(), cfgf, 'exec'), ns)
        c = dict(ns.get('CFG', {}).get('*', {})); c.update(ns.get('CFG', {}).get(entry[len('ev_contract_'):], {}))
        return c
    return {}

def models(e, maxn=3):
    """candidate inputs (name -> value) from the counter-models of the failing obligations"""
    import terms as T
    out = []
    for f in e.failures[:maxn]:
        m = T.small_model(f['pc'], f['goal'], [a for _, a in e.inputs], timeout=5000)
        if m is None: continue
        d = {}
        for nm, a in e.inputs:
            v = m.eval(T.zatom(a, False), model_completion=True) if a.id not in T.REALS else None
            try: d[nm] = v.as_long()
            except Exception: pass
        out.append(dict(obligation=f"{f['kind']}: {f['label']} at {shortloc(f['loc'])}", inputs=d, exact=not f['cut']))
    return out

def summary(e, entry):
    import terms as T
    obs = []
    for o in e.obls.values():
        obs.append(dict(kind=o['kind'], label=o['label'], loc=shortloc(o['loc']), n=o['n'], discharged=o['discharged'], failed=o['failed'], unknown=o['unknown'],
                        time=round(o['time'], 3), backends=o['backends']))
    fs = [dict(kind=f['kind'], label=f['label'], loc=shortloc(f['loc']), status=f['status'], cut=f['cut'], goal=str(f['goal'])[:600],
               pc=[str(x)[:300] for x in f['pc'][:60]], trace=f['trace']) for f in e.failures[:10]]
    funcs = sorted(set(e.F[n]['dem'] for n in e.funcs))
    return dict(entry=entry, status=e.status, reason=e.reason, wall=round(e.wall, 2), paths=e.paths, steps=e.steps, obligations=obs, failures=fs, nfail=len(e.failures),
                loops=[str(x)[:400] for x in e.loopinfo], covers=e.covers, notes=sorted(e.notes), functions=funcs, solver=dict(T.STATS), models=models(e) if e.failures else [])

if __name__ == '__main__':
    if sys.argv[1] == '--extract':
        mod = extract(sys.argv[2], os.path.dirname(sys.argv[3])); json.dump(mod, open(sys.argv[3], 'w')); sys.exit(0)
    if sys.argv[1] == '--json':
        mod = json.load(open(sys.argv[2])); en = sys.argv[3]
        e = verify(mod, en, loadcfg(sys.argv[4], en), float(sys.argv[6]))
        json.dump(summary(e, en), open(sys.argv[5] + '.tmp', 'w')); os.rename(sys.argv[5] + '.tmp', sys.argv[5]); sys.exit(0)
    cc = sys.argv[1]; only = sys.argv[2:]
    t0 = time.time()
    mod = extract(cc, f'/tmp/evwork{os.getpid()}')
    print(f'extract {time.time()-t0:.1f}s, {len(mod["functions"])} functions')
    import terms as T
    for en in sorted(mod['entries']):
        if only and not any(o in en for o in only): continue
        os.environ.setdefault('EV_NORETRY', '1')
        e = verify(mod, en, loadcfg(cc[:-3] + '.py', en), budget=float(os.environ.get('EV_BUDGET', '300')))
        tot = sum(o['n'] for o in e.obls.values()); dis = sum(o['discharged'] for o in e.obls.values())
        print(f"{en}: {e.status} {e.reason} paths={e.paths} steps={e.steps} obligations={len(e.obls)} instances={tot} discharged={dis} failures={len(e.failures)} {e.wall:.1f}s queries={T.STATS}")
        for k, o in e.obls.items():
            if o['discharged'] != o['n'] or os.environ.get('EV_V'): print('   ', (k[0], k[1], shortloc(k[2])), {x: o[x] for x in ('n', 'discharged', 'failed', 'unknown')}, o['backends'], f"{o['time']:.2f}s")
        if os.environ.get('EV_V'):
            for l in e.loopinfo: print('    loop', l)
        print('    covers', {k: v for k, v in e.covers.items() if v == 0 or os.environ.get('EV_V')})
        for f in e.failures[:int(os.environ.get('EV_NF', '2'))]:
            print('  FAIL', f['kind'], f['label'], shortloc(f['loc']), f['status'], 'goal', str(f['goal'])[:500])
            if os.environ.get('EV_V'):
                for p in f['pc']: print('      pc', p)
                for t in f['trace']: print('      at', t)
        if e.failures and os.environ.get('EV_M'): print('   models', models(e))
