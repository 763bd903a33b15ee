#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--replay FILE]

1. Verifies the contracts of contracts/<id>.py on /repo's current source (pyvc: symbolic execution of the real
   functions, every obligation discharged by the normaliser / z3 for all sizes and values).
2. Runs the executable form of the same contracts (rt/<id>.py) on seeded concrete inputs: the search for a
   failing input when an obligation is not discharged, and the bounded stand-in for what step 1 cannot reach.
Exit 0: the property held on everything explored; 1: VIOLATION line printed."""
import os, sys, time, json, argparse, importlib, hashlib, re, traceback, resource
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'): os.environ.setdefault(k, '1')
os.environ.setdefault('MPLBACKEND', 'agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import multiprocessing as mp
PROCS = max(2, min(8, os.cpu_count() or 8))

def silence():
    import logging, warnings
    logging.disable(logging.CRITICAL); warnings.simplefilter('ignore')

# ---------------------------------------------------------------- contracts
def _prove_one(mod, idx, budget, conn):
    try:
        silence()
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        sys.setrecursionlimit(20000)
        from pyvc import run as R
        from pyvc.prover import STATS
        m = importlib.import_module('contracts.' + mod)
        name, fn = list(m.harnesses())[idx]
        ran = set(); mon = sys.monitoring; mon.use_tool_id(4, 'pyvc')
        def started(code, off):
            f = code.co_filename
            if '/pygsp/' in f and code.co_flags & 1 and not code.co_name.startswith('<'): ran.add(f.split('/pygsp/', 1)[1] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(4, mon.events.PY_START, started); mon.set_events(4, mon.events.PY_START)
        en = R.prove(name, fn, budget=budget)
        conn.send(dict(name=name, obl=[(o.name, o.ok, o.how, [str(x)[:300] for x in o.path]) for o in en.obligations], unsupported=sorted(set(en.unsupported)), paths=en.paths, wall=en.wall,
                       functions=sorted(ran), contracts=sorted(en.contracts_used), assumptions=sorted(set(map(str, en.assumptions))), stats=dict(STATS), models=[x for x in en.models if x][:5]))
    except BaseException as ex:
        try: conn.send(dict(name=f'{mod}#{idx}', error=f'{type(ex).__name__}: {ex}', tb=traceback.format_exc()[-1500:]))
        except Exception: pass
    finally:
        conn.close()

def _names(mod, conn):
    try:
        silence()
        from pyvc import run as R
        m = importlib.import_module('contracts.' + mod)
        conn.send([n for n, _ in m.harnesses()])
    except BaseException as ex: conn.send(repr(ex))
    conn.close()

def prove_all(mod, budget, deadline):
    """every harness in its own process, killed at its budget; returns list of result dicts"""
    if not os.path.exists(os.path.join(HERE, 'contracts', mod + '.py')): return []
    cx = mp.get_context('fork')
    a, b = cx.Pipe(False); p = cx.Process(target=_names, args=(mod, b)); p.start(); b.close()
    try: names = a.recv() if a.poll(120) else 'no answer'
    except EOFError: names = 'died'
    p.join(5)
    if p.is_alive(): p.kill()
    if not isinstance(names, list): return [dict(name=mod, error=f'contracts not loadable: {names}')]
    todo = list(range(len(names))); run = {}; out = {}
    # longest first, by the recorded times
    try: tm = json.load(open(os.path.join(HERE, 'contracts', 'times.json'))).get(mod, {})
    except Exception: tm = {}
    todo.sort(key=lambda i: tm.get(names[i], 5.0))
    while todo or run:
        while todo and len(run) < PROCS:
            i = todo.pop(); a, b = cx.Pipe(False)
            p = cx.Process(target=_prove_one, args=(mod, i, budget, b)); p.start(); b.close(); run[i] = (p, a, time.time())
        time.sleep(.02)
        for i, (p, a, t0) in list(run.items()):
            r = None
            if a.poll():
                try: r = a.recv()
                except EOFError: r = dict(name=names[i], error='verifier process died (memory or crash)')
            elif not p.is_alive():
                r = dict(name=names[i], error='verifier process died (memory or crash)')
            elif time.time() - t0 > budget * 1.3 + 10 or time.time() > deadline:
                p.kill(); r = dict(name=names[i], error=f'no verdict within {time.time() - t0:.0f} s')
            if r is not None:
                r['name'] = names[i]; r.setdefault('wall', time.time() - t0); out[i] = r
                p.join(2)
                if p.is_alive(): p.kill(); p.join()
                a.close(); del run[i]
        if time.time() > deadline:
            for i in todo: out[i] = dict(name=names[i], error='not started before the deadline')
            todo = []
    return [out[i] for i in sorted(out)]

# ---------------------------------------------------------------- lemmas (Lean 4 / Mathlib)
def lemmas_start(names):
    import subprocess, tempfile
    d = os.environ.copy(); d.setdefault('HOME', '/root')
    return [(n, subprocess.Popen(['lean', os.path.join(HERE, 'lemmas', n + '.lean')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tempfile.gettempdir(), env=d)) for n in names]
def lemmas_end(ps, deadline):
    out = []
    for n, p in ps:
        try: txt, _ = p.communicate(timeout=max(1, deadline - time.time())); ok = p.returncode == 0 and 'sorry' not in txt and 'error' not in txt
        except Exception as ex: p.kill(); txt, ok = repr(ex), False
        src = open(os.path.join(HERE, 'lemmas', n + '.lean')).read()
        th = re.findall(r'^theorem (\S+)', src, re.M)
        ax = re.findall(r'^axiom', src, re.M)
        out.append(dict(file=f'lemmas/{n}.lean', theorems=th, ok=ok and not ax, output='' if ok else txt[-500:]))
    return out

# ---------------------------------------------------------------- executable contracts
def load_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    return [f for f in json.load(open(p)).get('findings', []) if f['property'] == pid] if os.path.exists(p) else []
def known(fs, params, fails):
    for f in fs:
        if all(any(re.search(rx, x) for rx in f['failures']) for x in fails) and all(params.get(k) == v for k, v in f.get('when', {}).items()): return f
    return None

def write_replay(pid, payload):
    d = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, f'{pid}-{h}.json')
    json.dump(payload, open(p, 'w'), indent=1, default=str)
    return p

def do_replay(pid, path):
    r = json.load(open(path)); mod = pid.lower()
    if r['kind'] == 'case':
        silence()
        from rt import run as RT
        m = importlib.import_module('rt.' + mod)
        f = RT.check_case(m, r['params'])
        print('\n'.join(f) if f else 'the contract holds on this input')
        if f: print(f'VIOLATION property={pid} replay={path}')
        return 1 if f else 0
    res = prove_all(mod, 300, time.time() + 800)
    bad = [(x['name'], o) for x in res for o in x.get('obl', []) if not o[1] and x['name'] in {b['harness'] for b in r['obligations']}]
    for n, o in bad: print(n, '|', o[0], '|', o[2][:500])
    if bad: print(f'VIOLATION property={pid} replay={path} no-failing-input-found')
    else: print('all obligations discharged')
    return 1 if bad else 0

CFG = {  # property: (rt cases quick, rt seconds quick)
}
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--record-times', action='store_true')
    a = ap.parse_args(); pid = a.pid.upper(); mod = pid.lower(); tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    if a.replay: sys.exit(do_replay(pid, a.replay))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    quick = tier == 'quick'
    silence()
    # 1. contracts
    budget = 150 if quick else 400
    meta = json.load(open(os.path.join(HERE, 'levels.json'))).get(pid, {})
    lp = lemmas_start(meta.get('lemmas', []))
    res = prove_all(mod, budget, t0 + (420 if quick else 2400))
    bad = [(x, o) for x in res for o in x.get('obl', []) if not o[1]]
    retry = 0
    if bad:     # an obligation can be left open by a time limit on a loaded machine: once more, with a larger budget
        names = {x['name'] for x, _ in bad}
        os.environ['PYVC_SLOW'] = '1'; retry = 1
        again = {x['name']: x for x in prove_all(mod, budget * 2, time.time() + (150 if quick else 1200)) if x['name'] in names}
        res = [again[x['name']] if x['name'] in again and again[x['name']].get('obl') and not again[x['name']].get('error') else x for x in res]
        bad = [(x, o) for x in res for o in x.get('obl', []) if not o[1]]
    open_ = [x for x in res if x.get('error') or x.get('unsupported')]
    lem = lemmas_end(lp, time.time() + 200)
    for l in lem:
        if not l['ok']: open_.append(dict(name=l['file'], error='lemma file not accepted by Lean: ' + l['output'][-200:]))
    t1 = time.time()
    if a.record_times:
        p = os.path.join(HERE, 'contracts', 'times.json'); d = json.load(open(p)) if os.path.exists(p) else {}
        d[mod] = {x['name']: round(x.get('wall', 0), 1) for x in res if x.get('wall', 0) > 1}; json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
    # 2. executable contracts
    from rt import run as RT
    harder = bool(bad or open_)
    cases = 6000 if quick else 200000; secs = 45 if quick else 900
    if harder: cases *= 4; secs = max(secs, 120)
    rt = RT.run(mod, seed, tier, cases, secs, PROCS)
    fs = load_findings(pid); viol = []; seen = {}
    for i, p, f in rt['bad']:
        k = known(fs, p, f)
        if k: seen[k['id']] = k
        else: viol.append((i, p, f))
    for f in fs:
        m = importlib.import_module('rt.' + mod)
        r = RT.check_case(m, f['case'])
        if r: print(f'KNOWN-FINDING: property={pid} {f["what"]}')
    code = 0; nviol = 0
    if viol:
        i, p, f = viol[0]; nviol = len(viol)
        path = write_replay(pid, dict(property=pid, kind='case', seed=seed, index=i, params=p, failures=f, obligations=[dict(harness=x['name'], obligation=o[0], verifier=o[2]) for x, o in bad][:10], command=f'/verif/check.py {pid} --replay <this file>'))
        print(f'failing input: {json.dumps(p)[:800]}'); [print('  ', s[:600]) for s in f[:6]]
        for x, o in bad[:5]: print(f'  undischarged obligation: {x["name"]} | {o[0]} | {o[2][:300]}')
        print(f'VIOLATION property={pid} replay={path}'); code = 1
    elif bad:
        nviol = len(bad)
        path = write_replay(pid, dict(property=pid, kind='obligation', obligations=[dict(harness=x['name'], obligation=o[0], verifier=o[2], path=o[3], models=x.get('models')) for x, o in bad][:40], note=f'{rt["evaluations"]} concrete inputs tried, none fails', command=f'/verif/check.py {pid} --replay <this file>'))
        for x, o in bad[:6]: print(f'  undischarged obligation: {x["name"]} | {o[0]} | {o[2][:400]}')
        print(f'VIOLATION property={pid} replay={path} no-failing-input-found'); code = 1
    # 3. evidence
    done = [x for x in res if x.get('obl') and not x.get('error')]
    full = [x for x in done if not x.get('unsupported')]
    nob = sum(len(x['obl']) for x in done); nok = sum(1 for x in done for o in x['obl'] if o[1])
    how = {}
    for x in done:
        for o in x['obl']:
            if o[1]:
                h = o[2].split(':')[0]; h = h if h in ('normaliser', 'normaliser+z3', 'z3', 'pointwise', 'case split on a denominator') else 'path execution (exception, shape or structural clause)'
                how[h] = how.get(h, 0) + 1
    for l in lem:
        if l['ok']: nob += len(l['theorems']); nok += len(l['theorems']); how['Lean 4 kernel (lemma)'] = how.get('Lean 4 kernel (lemma)', 0) + len(l['theorems'])
    cov = dict(obligations=nob, discharged=nok, checker_cmd=f'/opt/venv/bin/python -m pyvc.run {mod}', trusted_base=TRUSTED + meta.get('trusted', []),
               functions_under_contract=sorted({f for x in done for f in x.get('functions', [])}), callee_contracts=sorted({f for x in done for f in x.get('contracts', [])}),
               harnesses=len(res), harnesses_fully_verified=len(full), lemmas=[dict(file=l['file'], theorems=l['theorems'], accepted=l['ok']) for l in lem], paths=sum(x['paths'] for x in done), back_ends=how,
               z3_queries=sum(x['stats']['queries'] for x in done), solver_s=round(sum(x['stats']['z3_s'] for x in done), 2), prover_wall_s=round(t1 - t0, 1), retried=retry,
               not_decided_by_the_verifier=[dict(harness=x['name'], why=x.get('error') or x['unsupported']) for x in open_],
               evaluations=rt['evaluations'], distinct_nontrivial=rt['distinct'], rule='bounded executable form of the contract on the real code: seeded random parameters (sizes include the integer constants found in the source, +-1); distinct parameter sets are counted; never counted as proved',
               samples=[dict(params=p) for p in rt.get('samples', [])][:2], bounded_parts=meta.get('bounded', []))
    level = meta.get('level', 'proof') if full else 'exploration'     # nothing proved on this source: say so
    if level != 'proof' : cov['explanation'] = meta.get('note', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=sorted({s for x in done for s in x.get('assumptions', [])}) + ASSUME + meta.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print(f'{pid} {tier}: {nok}/{nob} obligations discharged in {len(full)}/{len(res)} harnesses ({t1 - t0:.0f} s); {rt["evaluations"]} concrete cases ({rt["wall"]:.0f} s)' + (f'; {len(open_)} harness(es) not decided by the verifier: ' + '; '.join(f"{x['name']}: {x.get('error') or x['unsupported']}"[:200] for x in open_[:3]) if open_ else ''))
    sys.exit(code)
TRUSTED = ['pyvc (this verifier: symbolic values, normaliser, loop rule)', 'z3 4.8/4.x Python bindings', 'CPython executing the real functions', 'contracts of NumPy/SciPy calls in pyvc/shims.py and pyvc/values.py (numpy/scipy themselves are not verified)']
ASSUME = ['floating-point and machine-integer arithmetic is treated as exact real/integer arithmetic', 'logging, warnings and plotting have no effect on the results']
if __name__ == '__main__': main()
