"""worker process: one contract, symbolically or concretely.  usage: worker.py sym|con|replay  JSON-args"""
import json, os, sys, time, random, traceback, faulthandler
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
SRC = os.environ.get('PYDED_SRC', '/repo/src')
if SRC not in sys.path:
    sys.path.insert(0, SRC)


def get(pid, name):
    from pyded import kit
    for c in kit.for_property(pid):
        if c.pid + ':' + c.name == name:
            return c
    raise SystemExit('no contract ' + name)


def sym(a):
    from pyded import symkit, prove
    c = get(a['pid'], a['contract'])
    d = symkit.Driver(c, frame=a['frame'], findings=a['findings'], budget=a['budget'], paths=c.opts.get('paths', 200), timeout=a.get('timeout', 4000))
    err = None
    try:
        d.run()
    except Exception:
        err = traceback.format_exc()[-1500:]
    out = dict(obl=d.obl, seeds=d.seeds[:40], unsupported=d.unsupported, absent=d.absent, npaths=d.npaths, live=d.live,
               truncated=d.truncated, assumed=d.assumed, knowns=sorted(d.knowns), stats=prove.STATS, wall=getattr(d, 'wall', 0), error=err,
               models=sorted(symkit.npm.USED) if hasattr(symkit.npm, 'USED') else [])
    json.dump(out, open(a['out'], 'w'))


def con(a):
    import numpy as np
    from pyded import kit
    import tools21cm
    src = os.path.dirname(os.path.dirname(os.path.abspath(tools21cm.__file__)))
    if os.path.realpath(src) != os.path.realpath(SRC):
        raise SystemExit('wrong tree %s' % src)
    time.sleep = lambda *q: None
    c = get(a['pid'], a['contract'])
    res = dict(runs=0, discards=0, evals=0, fails=[], knowns=[], absent=None, errors=[], calls=0, samples=[], distinct=0)
    hints = kit.source_literals(c.funcs, os.path.join(SRC))
    t_end = time.time() + a['budget']
    sigs = set()

    def one(given, seed, why):
        rng = random.Random(seed)
        np.random.seed(seed % (2 ** 31))
        random.seed(seed)
        T = kit.ConT(rng, given, hints, a['frame'], a['findings'], cap=c.opts.get('cap', 24), det=c.opts.get('det', True))
        T.inputs['__npseed__'] = seed
        try:
            c.fn(T)
        except kit.Discard:
            res['discards'] += 1
            return None
        except kit.Stop:
            pass
        except kit.Absent as e:
            res['absent'] = str(e)
            return None
        except MemoryError:
            res['discards'] += 1
            return None
        except Exception as e:
            if not T.calls:
                if len(res['errors']) < 5:
                    res['errors'].append(traceback.format_exc()[-900:])
                return None
            if not T.fails and not T.frame:
                T.fails.append(kit.Fail('postcondition is defined', 'evaluating it raised %s: %s' % (type(e).__name__, str(e)[:200])))
        finally:
            T.restore()
        if kit.HANGS and why not in ('generated', 'replay'):
            # an input of the solver's may ask for an enormous amount of work: only ordinary inputs show that the code does not return
            res['discards'] += 1
            return None
        T.excuse()
        res['runs'] += 1
        res['evals'] += T.evals
        res['calls'] += T.calls
        sg = repr([(k, v if not isinstance(v, np.ndarray) else v.shape) for k, v in sorted(T.inputs.items()) if k != '__npseed__'])[:500]
        sigs.add(hash(sg))
        if len(res['samples']) < 3:
            res['samples'].append(sg[:300])
        return T

    def report(T, why):
        inputs = {k: kit.jsonable(v) for k, v in T.inputs.items()}
        # replay in the same process from the recorded inputs: the failure must recur
        given = {k: v for k, v in json.loads(json.dumps(inputs)).items()}
        T2 = one(given, T.inputs['__npseed__'], 'replay' if why.startswith('generated') else why)
        names = {f.name for f in T.fails}
        if T2 is None or not any(f.name in names for f in T2.fails):
            res['errors'].append('failure did not recur on replay: %s' % sorted(names))
            return False
        res['fails'].append(dict(inputs=inputs, why=why, fails=[(f.name, f.detail) for f in T2.fails]))
        return True

    base = a['seed']
    k = 0
    jobs = []
    for s in a.get('seeds', []):
        s = dict(s)
        why = s.pop('__why__', 'seed')
        jobs.append((s, why))
        sc = {q: v for q, v in s.items() if not isinstance(v, dict)}
        jobs.append((sc, why + ' (scalars)'))
    for s, why in jobs:
        if kit.HANGS:
            break
        if time.time() > t_end + a['budget']:
            break
        for rep in range(2):
            T = one(s, base * 100003 + k, why)
            k += 1
            if T is not None and T.excused and len(res['knowns']) < 20:
                res['knowns'].append([T.known, T.excused[0].name, T.excused[0].detail])
            if T is not None and T.fails and report(T, why) or kit.HANGS:
                break
        if len(res['fails']) >= 3 or kit.HANGS:
            break
    n = 0
    kit.HANGS.clear()
    while not res['fails'] and not kit.HANGS and not res['absent'] and (n < a['minruns'] or time.time() < t_end) and n < a['maxruns']:
        if time.time() > t_end + 3 * a['budget'] + 30 or len(res['errors']) > 4 and res['runs'] == 0:
            break
        T = one({}, base * 1000003 + 7919 * n + 1, 'generated')
        n += 1
        if T is not None and T.excused and len(res['knowns']) < 20:
            res['knowns'].append([T.known, T.excused[0].name, T.excused[0].detail])
        if T is not None and T.fails:
            report(T, 'generated input, seed %d' % (base * 1000003 + 7919 * (n - 1) + 1))
    res['distinct'] = len(sigs)
    res['slowest_call_cpu_s'] = round(kit.SLOWEST[0], 2)
    json.dump(res, open(a['out'], 'w'))


def replay(a):
    """re-run a recorded failing input on the current tree"""
    import numpy as np
    from pyded import kit
    r = json.load(open(a['file']))
    time.sleep = lambda *q: None
    c = get(r['property'], r['contract'])
    seed = r['inputs'].get('__npseed__', 0)
    np.random.seed(seed % (2 ** 31))
    random.seed(seed)
    T = kit.ConT(random.Random(seed), r['inputs'], [], r['frame'], [], det=c.opts.get('det', True))
    try:
        c.fn(T)
    except kit.Stop:
        pass
    except kit.Discard:
        print('inputs no longer satisfy the precondition')
        return 0
    except kit.Absent as e:
        print('absent: %s' % e)
        return 0
    except Exception as e:
        if T.calls and not T.fails:
            T.fails.append(kit.Fail('postcondition is defined', 'evaluating it raised %s: %s' % (type(e).__name__, str(e)[:200])))
    T.excuse()
    for f in T.fails:
        print('FAILED %s: %s' % (f.name, f.detail))
    return 1 if T.fails else 0


if __name__ == '__main__':
    faulthandler.enable()
    a = json.loads(sys.argv[2]) if not os.path.isfile(sys.argv[2]) else json.load(open(sys.argv[2]))
    if sys.argv[1] == 'sym':
        sys.setrecursionlimit(20000)
        import threading
        threading.stack_size(512 * 1024 * 1024)
        t = threading.Thread(target=sym, args=(a,))
        t.start()
        t.join()
    elif sys.argv[1] == 'con':
        con(a)
    else:
        sys.exit(replay(a))
