"""check --property Pxx --tier quick|thorough | --replay FILE"""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
WORKER = os.path.join(HERE, 'pyded', 'worker.py')


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/opt/vp/no-pycache', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             NUMBA_NUM_THREADS='2', PYTHONWARNINGS='ignore', PYTHONHASHSEED='0', NUMBA_CACHE_DIR=os.path.join(TMP, 'numba'), MPLCONFIGDIR=os.path.join(TMP, 'mpl'),
             ASTROPY_CACHE_DIR=TMP, XDG_CACHE_HOME=os.path.join(TMP, 'cache'), TMPDIR=TMP, T21_SCRATCH=TMP)
    return e


def spawn(mode, args, wall):
    d = tempfile.mkdtemp(dir=TMP)
    args = dict(args, out=os.path.join(d, 'out.json'))
    af = os.path.join(d, 'args.json')
    json.dump(args, open(af, 'w'))
    t0 = time.time()
    p = subprocess.Popen([PY, WORKER, mode, af], cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=wall)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        rc = 'timeout'
    try:
        r = json.load(open(args['out']))
    except Exception:
        r = None
    return r, rc, (o or b'').decode(errors='replace')[-1200:], time.time() - t0


def main():
    global TMP
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    TMP = tempfile.mkdtemp(prefix='pyded.')
    try:
        if a.replay:
            return subprocess.call([PY, WORKER, 'replay', json.dumps({'file': os.path.abspath(a.replay)})], env=env(), cwd=TMP)
        return run(a.property, a.tier, seed, a.only, a.v)
    finally:
        shutil.rmtree(TMP, ignore_errors=True)


def findings():
    f = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return [x for x in out if x.get('status') == 'open']


def run(pid, tier, seed, only, verbose):
    t0 = time.time()
    sys.path.insert(0, HERE)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    from pyded import kit
    cs = kit.for_property(pid)
    if only:
        cs = [c for c in cs if only in c.name]
    if not cs:
        print('no contracts for', pid)
        return 2
    frame = pid == 'P26'
    thorough = tier == 'thorough'
    known = findings()
    fids = [k['id'] for k in known]

    def do(c):
        nm = c.pid + ':' + c.name
        fr = frame and c.pid != 'P26' or bool(c.opts.get('frameonly'))
        out = dict(contract=nm, funcs=c.funcs, bounded=c.opts.get('bounded'), frame=fr)
        seeds = []
        proved = False
        if not c.opts.get('bounded'):
            b = c.opts.get('budget', 60) * (4 if thorough else 1)
            r, rc, log, w = spawn('sym', dict(pid=pid, contract=nm, frame=fr, findings=fids, budget=b, timeout=20000 if thorough else 4000), b * 1.5 + 60)
            out['sym'] = r
            out['sym_rc'], out['sym_wall'] = rc, w
            if r is None:
                out['sym_log'] = log
            else:
                seeds = r['seeds']
                proved = (not r['unsupported'] and not r['truncated'] and not r['error'] and r['obl'] and r['live'] > 0
                          and all(o['status'] == 'proved' for o in r['obl']))
        out['proved'] = bool(proved)
        wt = c.opts.get('weight', 1.0)
        if proved:
            cb, mn, mx = 4 * wt, 12, 150
        else:
            cb, mn, mx = 20 * wt, 30, 4000
        if frame:
            cb, mn = cb / 2, 8
        if thorough:
            cb, mx = cb * 10, mx * 20
        r, rc, log, w = spawn('con', dict(pid=pid, contract=nm, frame=fr, findings=fids, seeds=seeds, seed=seed, budget=cb, minruns=c.opts.get('minruns', mn), maxruns=c.opts.get('maxruns', mx)), cb * 6 + 120)
        out['con'], out['con_rc'], out['con_wall'] = r, rc, w
        if r is None:
            out['con_log'] = log
        return out

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(do, sorted(cs, key=lambda c: -c.opts.get('weight', 1.0))))
    res.sort(key=lambda r: r['contract'])
    return conclude(pid, tier, seed, res, known, time.time() - t0, verbose)


def conclude(pid, tier, seed, res, known, wall, verbose):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    viol, notes = [], []
    nobl = ndis = 0
    how, und, bounded, funcs, assumed = {}, [], [], set(), set()
    runs = evals = distinct = 0
    solver_s = 0.0
    knownhit = {}
    samples = []
    contracts = []
    nproved = 0
    for r in res:
        s, c = r.get('sym'), r.get('con')
        funcs.update(r['funcs'])
        rec = dict(contract=r['contract'], functions=r['funcs'], wall_s=round(r.get('sym_wall', 0) + r.get('con_wall', 0), 1))
        if r['bounded']:
            bounded.append('%s: %s' % (r['contract'], r['bounded']))
            rec['mode'] = 'bounded (never counted as proved)'
        else:
            rec['mode'] = 'proved for all inputs' if r['proved'] else 'UNDECIDED by the verifier on this tree (bounded stand-in ran)'
            nproved += r['proved']
        if s:
            solver_s += s['stats']['solver_s']
            rec['paths'] = s['npaths']
            rec['obligations'] = len(s['obl'])
            rec['discharged'] = sum(o['status'] == 'proved' for o in s['obl'])
            nobl += len(s['obl'])
            for o in s['obl']:
                if o['status'] == 'proved':
                    ndis += 1
                    how[o['how']] = how.get(o['how'], 0) + 1
                else:
                    und.append('%s/%s (path %d): %s %s' % (r['contract'], o['name'], o['path'], o['status'], o.get('detail', '')[:160]))
            for u in s['unsupported']:
                und.append('%s: %s' % (r['contract'], u[:220]))
            if s['error']:
                und.append('%s: engine error %s' % (r['contract'], s['error'][-300:]))
            if s['truncated']:
                und.append('%s: path exploration truncated' % r['contract'])
            assumed.update(s['assumed'])
            for k in s['knowns']:
                knownhit.setdefault(k, []).append((r['contract'], 'excluded from the proof'))
            if s['absent']:
                notes.append('%s: %s is absent from this tree' % (r['contract'], s['absent']))
        elif not r['bounded']:
            und.append('%s: verifier process %s %s' % (r['contract'], r.get('sym_rc'), r.get('sym_log', '')[-200:]))
        if c:
            runs += c['runs']
            evals += c['evals']
            distinct += c['distinct']
            rec['concrete_runs'] = c['runs']
            rec['slowest_call_cpu_s'] = c.get('slowest_call_cpu_s')
            samples += ['%s %s' % (r['contract'], x) for x in c['samples'][:1]]
            for k in c['knowns']:
                knownhit.setdefault(k[0], []).append((k[1], k[2]))
            for e in c['errors'][:2]:
                notes.append('%s: concrete run error: %s' % (r['contract'], e[-300:]))
            if c['absent']:
                notes.append('%s: %s is absent from this tree' % (r['contract'], c['absent']))
            for n, f in enumerate(c['fails'][:2]):
                p = os.path.join(HERE, 'replay', '%s-%s-%d.json' % (pid, r['contract'].replace(':', '_'), n))
                json.dump(dict(property=pid, contract=r['contract'], functions=r['funcs'], frame=r['frame'], found_by=f['why'], failed=f['fails'], inputs=f['inputs'],
                               failed_obligations=[o for o in (s or {}).get('obl', []) if o['status'] != 'proved'][:10]), open(p, 'w'), indent=1)
                viol.append((p, r['contract'], f['fails']))
        else:
            notes.append('%s: concrete process %s %s' % (r['contract'], r.get('con_rc'), r.get('con_log', '')[-300:]))
        contracts.append(rec)
    total_fail = not nobl and not evals
    ev = dict(property=pid, tier=tier, seed=seed, wall_s=round(wall, 2), violations=len(viol))
    if nproved or nobl:
        ev['level'] = 'proof'
        ev['coverage'] = dict(obligations=max(nobl, 1), discharged=ndis, checker_cmd='/verif/check --property %s --tier %s' % (pid, tier),
                              trusted_base='the pyded interpreter of the Python subset, its numpy/scipy models and normaliser (/verif/pyded), z3; reals and mathematical integers instead of machine numbers',
                              back_ends=how, solver_s=round(solver_s, 2), contracts=contracts, functions_under_contract=sorted(funcs), undecided=und[:40],
                              bounded=bounded, concrete_cross_check=dict(runs=runs, evaluations=evals, distinct_inputs=distinct), notes=notes[:20])
    else:
        ev['level'] = 'exploration'
        ev['coverage'] = dict(evaluations=evals, distinct_nontrivial=distinct, rule='contract evaluated on generated inputs satisfying its precondition; distinct by scalar inputs and array shapes',
                              samples=samples[:5] or ['none'], contracts=contracts, bounded=bounded, functions_under_contract=sorted(funcs), undecided=und[:40], notes=notes[:20])
    ev['assumptions'] = ['floating point treated as exact real arithmetic in the proofs', 'integers unbounded in the proofs',
                         'numpy, scipy and astropy functions behave as their models in /verif/pyded state'] + sorted(assumed)[:30]
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in known:
        if k['property'] == pid and (k['id'] in knownhit):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s [%s] %d contracts: %d proved, %d bounded; obligations %d/%d discharged; solver %.1fs; concrete runs %d; wall %.1fs' % (
        pid, tier, len(res), nproved, len(bounded), ndis, nobl, solver_s, runs, wall))
    for u in und[:12 if not verbose else 200]:
        print('  undecided:', u)
    for n in notes[:12 if not verbose else 200]:
        print('  note:', n)
    if verbose:
        for c in contracts:
            print('   ', c)
        print(how, sorted(assumed))
    if viol:
        for p, c, f in viol:
            print('  failing input for %s: %s' % (c, f[:3]))
        for p, c, f in viol[:3]:
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if total_fail:
        print('no obligation was generated for', pid)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
