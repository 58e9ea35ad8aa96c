"""Contract toolkit. A contract is one Python function c(T) that states preconditions (T.int, T.assume, ...),
calls the real code (T.call) and states postconditions (T.ensure*). The same text is run
 * by SymT: every input symbolic, the code interpreted from /repo's source, each T.ensure an obligation for the prover;
 * by ConT: concrete inputs (a counter-model, or generated), the real code of /repo executed by CPython."""
import ast, importlib, itertools, json, math, os, random, shutil, signal, sys, time, traceback
from fractions import Fraction

REG = {}


class Contract:
    def __init__(self, pid, name, fn, funcs, opts):
        self.pid, self.name, self.fn, self.funcs, self.opts = pid, name, fn, funcs, opts


def contract(pid, funcs, name=None, **opts):
    """opts: bounded='text' (the contract is never run symbolically: bounded stand-in), frame=True (P26 also judged on it),
    paths=N, budget=s, det=False (function draws random numbers), weight=x (share of concrete effort)"""
    def deco(f):
        c = Contract(pid, name or f.__name__, f, [funcs] if isinstance(funcs, str) else list(funcs), opts)
        REG.setdefault(pid, []).append(c)
        return f
    return deco


def load_all():
    import pkgutil
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module('contracts.' + m)


def for_property(pid):
    load_all()
    if pid == 'P26':
        out = list(REG.get('P26', []))
        for p in sorted(REG):
            if p != 'P26':
                out += [c for c in REG[p] if c.opts.get('frame')]
        return out
    return list(REG.get(pid, []))


class Discard(Exception):
    pass


class Stop(Exception):
    """contract cannot continue on this path/run (already reported)"""


class TookTooLong(BaseException):
    """a single call of the code under contract used more than CALL_CPU seconds of processor time (such calls use at most a few)"""


CALL_CPU = 45.0
HANGS = []
SLOWEST = [0.0]


def too_long(*a):
    raise TookTooLong('still running after %d s of processor time' % CALL_CPU)


class Absent(Exception):
    """function under contract does not exist (any more)"""


CONST_PRIM = ('h', 'Omega0', 'OmegaB', 'abu_he')


def const_formulas(c, np):
    """derived constants as functions of the primary parameters (the P01 representation invariant)"""
    d = {}
    d['H0'] = 100 * c.h
    d['lam'] = 1 - c.Omega0
    d['OmegaL'] = 1 - c.Omega0
    return d


# ======================================================================= concrete
class Fail:
    def __init__(self, name, detail):
        self.name, self.detail = name, detail


def jsonable(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'c':
            return {'__arr__': [x.real.tolist(), x.imag.tolist()], 'dtype': str(x.dtype), 'shape': list(x.shape)}
        return {'__arr__': x.tolist(), 'dtype': str(x.dtype), 'shape': list(x.shape)}
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    return x


def unjson(x):
    import numpy as np
    if isinstance(x, dict) and '__arr__' in x:
        if x['dtype'].startswith('complex'):
            a = np.array(x['__arr__'][0]) + 1j * np.array(x['__arr__'][1])
        else:
            a = np.array(x['__arr__'])
        return a.reshape(x['shape']).astype(x['dtype'])
    if isinstance(x, list):
        return [unjson(v) for v in x]
    return x


def small_detail(a, b):
    import numpy as np
    try:
        a, b = np.asarray(a), np.asarray(b)
        if a.shape == b.shape and a.size:
            if a.dtype.kind in 'fciub' and b.dtype.kind in 'fciub':
                d = np.abs(a.astype(complex) - b.astype(complex))
                d = np.where(np.isnan(d), np.inf, d)
                i = np.unravel_index(np.argmax(d), d.shape)
                return 'at %s: got %r expected %r' % (tuple(int(q) for q in i), a[i].item(), b[i].item())
        return 'got %s expected %s' % (str(a)[:200], str(b)[:200])
    except Exception:
        return 'got %s expected %s' % (repr(a)[:200], repr(b)[:200])


class ModProxy:
    """attribute access to a module of the package (concrete)"""
    def __init__(self, m):
        object.__setattr__(self, '_m', m)

    def __getattr__(self, n):
        return getattr(self._m, n)

    def __setattr__(self, n, v):
        setattr(self._m, n, v)


class ConT:
    sym = False

    def __init__(self, rng, given=None, hints=(), frame=False, findings=(), cap=24, det=True):
        import numpy as np
        self.np = np
        self.rng, self.preset, self.hints, self.frame = rng, given or {}, [h for h in hints], frame
        self.inputs, self.fails, self.counts = {}, [], {}
        self.tracked, self.known, self.excused = [], None, []
        self.findings = findings
        self.evals = 0
        self.cap = cap
        self.det = det
        self.calls = 0
        self.gstate = None
        self.saved, self.folders = [], []
        self.exclude_small = False
        self._uniq = {}

    # ---- inputs
    def _nm(self, name):
        k = self._uniq.get(name, 0)
        self._uniq[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def _hint(self, lo, hi, integer, p):
        if self.hints and self.rng.random() < p:
            c = [h for h in self.hints if (lo is None or h >= lo) and (hi is None or h <= hi) and (not integer or float(h).is_integer())]
            if c:
                h = self.rng.choice(c)
                return int(h) if integer else float(h)
        return None

    def int(self, name, lo=None, hi=None, gen=None):
        name = self._nm(name)
        if name in self.preset:
            v = int(self.preset[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise Discard()
        else:
            g = gen or (lo if lo is not None else -4, hi if hi is not None else (lo if lo is not None else 0) + 6)
            v = self._hint(lo, min(hi, self.cap) if hi is not None else self.cap, True, 0.25)
            if v is None or not (gen is None or v <= max(gen[1], self.cap)):
                v = self.rng.randint(int(g[0]), int(g[1]))
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, gen=None, gt=None, lt=None):
        name = self._nm(name)
        L = lo if lo is not None else gt
        H = hi if hi is not None else lt
        if name in self.preset:
            v = float(self.preset[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi) or (gt is not None and v <= gt) or (lt is not None and v >= lt):
                raise Discard()
        else:
            g = gen or (L if L is not None else (H - 6 if H is not None else -3), H if H is not None else (L + 6 if L is not None else 3))
            v = self._hint(L, H, False, 0.15)
            if v is not None and gen is not None and not (gen[0] - abs(gen[0]) <= v <= 2 * gen[1]):
                v = None
            if v is None:
                v = g[0] + (g[1] - g[0]) * self.rng.random()
                if self.rng.random() < 0.1:
                    v = float(round(v))
            if (gt is not None and v <= gt) or (lt is not None and v >= lt) or (lo is not None and v < lo) or (hi is not None and v > hi):
                v = g[0] + (g[1] - g[0]) * (0.05 + 0.9 * self.rng.random())
        self.inputs[name] = v
        return v

    def bool(self, name):
        name = self._nm(name)
        v = bool(self.preset[name]) if name in self.preset else self.rng.random() < 0.5
        self.inputs[name] = v
        return v

    def choice(self, name, opts):
        name = self._nm(name)
        opts = list(opts)
        k = int(self.preset[name]) % len(opts) if name in self.preset else self.rng.randrange(len(opts))
        self.inputs[name] = k
        return opts[k]

    def array(self, name, shape, kind='f', lo=None, hi=None, gen=None, dtype=None, gt=None, fill=None, vals=None, plain=False):
        np = self.np
        name = self._nm(name)
        shape = tuple(int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        n = int(np.prod(shape)) if shape else 1
        if n > 4000000:
            raise Discard()
        L = lo if lo is not None else gt
        giv = self.preset.get(name)
        if isinstance(giv, dict) and '__arr__' in giv:
            a = unjson(giv)
            if a.shape != shape:
                raise Discard()
        elif isinstance(giv, self.np.ndarray):
            a = giv.copy()
        else:
            r = np.random.RandomState(self.rng.randrange(2 ** 31))
            g = gen or (L if L is not None else (hi - 4 if hi is not None else -3), hi if hi is not None else (L + 4 if L is not None else 3))
            if kind == 'b':
                a = r.rand(*shape) < r.choice([0.5, 0.5, 0.1, 0.9, 0.3, 0., 1.0], p=[.3, .2, .15, .15, .14, .03, .03])
            elif kind == 'i':
                a = r.randint(int(g[0]), int(g[1]) + 1, size=shape)
            elif vals is not None:
                a = np.array(vals, dtype=float)[r.randint(0, len(vals), size=shape)]
            else:
                prof = r.rand() if not plain else 0
                a = g[0] + (g[1] - g[0]) * r.rand(*shape)
                if kind == 'c':
                    a = a + 1j * (g[0] + (g[1] - g[0]) * r.rand(*shape))
                elif prof > .95:
                    a = np.full(shape, g[0] + (g[1] - g[0]) * r.rand())
                elif prof > .88:
                    q = g[0] + (g[1] - g[0]) * r.rand(3)
                    a = q[r.randint(0, 3, size=shape)]
                elif prof > .82:
                    a = np.round(a)
                elif prof > .78:
                    a = np.where(r.rand(*shape) < .5, g[0], g[1])
                if kind == 'f' and self.hints and r.rand() < .1 and n and not plain:
                    h = [x for x in self.hints if (L is None or x >= L) and (hi is None or x <= hi)]
                    if h:
                        a = np.array(a, dtype=float)
                        a.flat[r.randint(0, n)] = h[r.randint(0, len(h))]
                if lo is not None or hi is not None:
                    if kind != 'c':
                        a = np.clip(a, lo, hi)
                if gt is not None:
                    a = np.where(a <= gt, gt + (g[1] - g[0]) * .3, a)
            a = np.asarray(a)
            if isinstance(giv, dict) and '__pts__' in giv and n:
                a = np.array(a)
                if giv.get('else') is not None:
                    a[...] = giv['else']
                for ix, v in giv['__pts__']:
                    if len(ix) == len(shape) and all(0 <= q < s for q, s in zip(ix, shape)):
                        a[tuple(ix)] = complex(*v) if isinstance(v, list) else v
        if dtype is not None:
            a = a.astype(dtype)
        elif kind == 'f' and a.dtype != np.float64:
            a = a.astype(float)
        self.inputs[name] = a.copy()
        self.tracked.append((name, a, a.copy()))
        return a

    def alist(self, name, n, shape, **k):
        n = int(n)
        a = self.array(name, (n,) + tuple(shape), **k)
        out = [np_copy(a[i]) for i in range(n)]
        self.tracked.pop()
        for i, x in enumerate(out):
            self.tracked.append(('%s[%d]' % (name, i), x, x.copy()))
        return out

    def track(self, name, obj):
        import copy
        self.tracked.append((name, obj, copy.deepcopy(obj)))
        return obj

    def seed(self, name='seed'):
        s = self.int(name, 0, 2 ** 31 - 1, gen=(0, 2 ** 20))
        self.np.random.seed(s)
        random.seed(s)
        return s

    # ---- annotations (used by the verifier only)
    def loop(self, *a, **k):
        pass

    def hint(self, *ix):
        pass

    def lemma(self, name, c):
        self.ensure(name, c)

    def given(self, dims, f):
        for ix in itertools.product(*[range(int(d)) for d in dims]):
            if not bool(f(*ix)):
                raise Discard()

    # ---- state
    def mod(self, name):
        return ModProxy(importlib.import_module('tools21cm.' + name))

    def setmod(self, name, **vals):
        m = importlib.import_module('tools21cm.' + name)
        for k, v in vals.items():
            self.saved.append((m, k, getattr(m, k, None), hasattr(m, k)))
            setattr(m, k, v)

    def folder(self):
        """scratch folder, removed after the run"""
        import tempfile
        d = tempfile.mkdtemp(prefix='pyded-')
        self.folders.append(d)
        return d

    def write_file(self, path, segs):
        """binary file of the given (values, type) segments, arrays in Fortran order"""
        with open(path, 'wb') as f:
            for v, d in segs:
                self.np.asarray(v).astype(d).flatten(order='F').tofile(f)

    def single(self, x):
        return self.np.asarray(x).astype(self.np.float32).astype(self.np.float64)

    def restore(self):
        for d in self.folders:
            shutil.rmtree(d, ignore_errors=True)
        self.folders = []
        for m, k, v, had in reversed(self.saved):
            if had:
                setattr(m, k, v)
            else:
                delattr(m, k)
        self.saved = []

    def snapshot(self):
        out = {}
        for nm in ('const', 'conv'):
            m = importlib.import_module('tools21cm.' + nm)
            out[nm] = {k: v for k, v in vars(m).items() if isinstance(v, (int, float, str, bool)) and not k.startswith('__')}
        return out

    # ---- calls
    def resolve(self, path):
        parts = path.split('.')
        try:
            o = importlib.import_module('tools21cm.' + parts[0])
        except ImportError as e:
            raise Absent(str(e))
        for p in parts[1:]:
            if not hasattr(o, p):
                raise Absent(path)
            o = getattr(o, p)
        return o

    def quiet(self, f, a, k):
        self.calls += 1
        c0 = time.process_time()
        signal.signal(signal.SIGVTALRM, too_long)
        signal.setitimer(signal.ITIMER_VIRTUAL, CALL_CPU, 1)
        try:
            return self._quiet(f, a, k)
        except TookTooLong:
            HANGS.append(getattr(f, '__name__', 'call'))
            raise
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            SLOWEST[0] = max(SLOWEST[0], time.process_time() - c0)

    def _quiet(self, f, a, k):
        import contextlib, io, warnings
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings(), self.np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return f(*a, **k)

    def call(self, path, *a, **k):
        f = self.resolve(path) if isinstance(path, str) else path
        nm = path if isinstance(path, str) else getattr(f, '__name__', 'call')
        st = self.snapshot() if self.frame else None
        try:
            r = self.quiet(f, a, k)
        except (Discard, Stop, Absent, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            if not self.frame:
                self.fails.append(Fail('returns(%s)' % nm, 'raised %s: %s' % (type(e).__name__, str(e)[:200])))
            raise Stop()
        if self.frame:
            self.check_frame(nm, st)
            if self.det:
                try:
                    r2 = self.quiet(f, a, k)
                except Exception as e:
                    self.fails.append(Fail('deterministic(%s)' % nm, 'second call raised %s: %s' % (type(e).__name__, str(e)[:200])))
                else:
                    self.evals += 1
                    if not deep_same(r, r2):
                        self.fails.append(Fail('deterministic(%s)' % nm, 'second call differs: ' + small_detail(r2, r)))
        return r

    def try_call(self, path, *a, **k):
        f = self.resolve(path) if isinstance(path, str) else path
        try:
            return True, self.quiet(f, a, k)
        except (Discard, Stop, Absent, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            return False, type(e).__name__

    def method(self, obj, name, *a, **k):
        if not hasattr(obj, name):
            raise Absent(name)
        return self.call(getattr(obj, name), *a, **k)

    def attr(self, obj, name):
        return getattr(obj, name)

    def check_frame(self, nm, st):
        for name, cur, old in self.tracked:
            self.evals += 1
            if not deep_same(cur, old):
                self.fails.append(Fail('frame(%s, %s)' % (nm, name), 'input modified: ' + small_detail(cur, old)))
                return
        if st is not None:
            now = self.snapshot()
            self.evals += 1
            for m in st:
                for k, v in st[m].items():
                    w = now[m].get(k)
                    if w != v and not (w != w and v != v):
                        self.fails.append(Fail('frame(%s, %s.%s)' % (nm, m, k), 'global changed from %r to %r' % (v, w)))
                        return

    # ---- logic
    def assume(self, c):
        if not bool(c):
            raise Discard()

    def finding(self, fid, c):
        # a recorded finding excuses only the postconditions checked after this point
        if fid in self.findings and bool(c) and not self.known:
            self.known, self.before = fid, len(self.fails)

    def excuse(self):
        if self.known:
            self.excused, self.fails = self.fails[self.before:], self.fails[:self.before]

    def ensure(self, name, c, detail=''):
        if self.frame:
            return
        self.evals += 1
        if callable(c):
            c = c()
        if isinstance(c, self.np.ndarray):
            c = c.all()
        if not bool(c):
            self.fails.append(Fail(name, detail or 'condition false'))

    def ensure_eq(self, name, a, b, rtol=1e-8, atol=None):
        if self.frame:
            return
        self.evals += 1
        if not self.same(a, b, rtol, atol):
            self.fails.append(Fail(name, small_detail(a, b)))

    def same(self, a, b, rtol=1e-8, atol=None):
        np = self.np
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return type(a) == type(b) and a == b
        if isinstance(a, dict) or isinstance(b, dict):
            return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(self.same(a[k], b[k], rtol, atol) for k in a)
        try:
            a, b = np.asarray(a), np.asarray(b)
        except ValueError:
            return len(a) == len(b) and all(self.same(x, y, rtol, atol) for x, y in zip(a, b))
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        if a.dtype.kind in 'OSU' or b.dtype.kind in 'OSU':
            return all(self.same(x, y, rtol, atol) if not isinstance(x, str) else x == y for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        bad_a, bad_b = ~np.isfinite(a), ~np.isfinite(b)
        if (bad_a != bad_b).any():
            return False
        if bad_a.any():
            x, y = a[bad_a], b[bad_b]
            if not np.array_equal(x, y, equal_nan=True):
                return False
            a, b = a[~bad_a], b[~bad_b]
            if a.size == 0:
                return True
        a, b = a.astype(complex if a.dtype.kind == 'c' or b.dtype.kind == 'c' else float), b.astype(complex if a.dtype.kind == 'c' or b.dtype.kind == 'c' else float)
        m = max(np.abs(a).max(), np.abs(b).max())
        at = rtol * m if atol is None else atol
        return bool((np.abs(a - b) <= at + rtol * np.abs(b)).all())

    def ensure_le(self, name, a, b, rtol=1e-9, atol=None):
        if self.frame:
            return
        self.evals += 1
        np = self.np
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        if a.size == 0:
            return
        m = max(np.abs(a).max(), np.abs(b).max()) if np.isfinite(a).all() and np.isfinite(b).all() else 1.
        tol = rtol * m if atol is None else atol
        if not bool((a <= b + tol).all()):
            i = np.unravel_index(np.argmax(np.where(np.isnan(a - b), np.inf, a - b)), a.shape) if a.shape else ()
            self.fails.append(Fail(name, 'at %s: %r not <= %r' % (i, a[i].item(), b[i].item())))

    def forall(self, name, dims, f, limit=600):
        """f(*idx) -> bool, or ('eq', a, b), ('le', a, b)"""
        if self.frame:
            return
        self.evals += 1
        dims = [int(d) for d in dims]
        tot = 1
        for d in dims:
            tot *= d
        if tot <= limit:
            it = itertools.product(*[range(d) for d in dims])
        else:
            it = (tuple(self.rng.randrange(d) for d in dims) for _ in range(limit))
        for ix in it:
            r = f(*ix)
            if isinstance(r, tuple):
                if r[0] == 'eq':
                    at = r[3] if len(r) > 3 else 1e-9
                    ok = self.same(r[1], r[2], 1e-8, at)
                else:
                    at = r[3] if len(r) > 3 else 1e-9
                    ok = bool(r[1] <= r[2] + at + 1e-9 * abs(r[2]))
            else:
                ok = bool(r)
            if not ok:
                self.fails.append(Fail(name, 'at index %s: %s' % (ix, r if not isinstance(r, tuple) else 'got %s expected %s' % (r[1], r[2]))))
                return

    # ---- spec language
    def ite(self, c, a, b):
        return a if c else b

    def land(self, *xs):
        return all(bool(x) for x in xs)

    def lor(self, *xs):
        return any(bool(x) for x in xs)

    def lnot(self, x):
        return not x

    def imp(self, a, b):
        """b may be a thunk"""
        return (not a) or bool(b() if callable(b) else b)

    def sum(self, dims, f):
        s = 0
        for ix in itertools.product(*[range(int(d)) for d in dims]):
            s = s + f(*ix)
        return s

    def exists(self, dims, f):
        return any(bool(f(*ix)) for ix in itertools.product(*[range(int(d)) for d in dims]))

    def integral(self, f, a, b):
        import scipy.integrate
        return scipy.integrate.quad(f, a, b, limit=200, epsabs=0, epsrel=1e-11)[0]

    def build(self, shape, f, kind='f'):
        shape = tuple(int(s) for s in shape)
        a = self.np.zeros(shape, dtype={'f': float, 'i': int, 'b': bool, 'c': complex}[kind])
        for ix in itertools.product(*[range(d) for d in shape]):
            a[ix] = f(*ix)
        return a

    def shape(self, a):
        return tuple(self.np.shape(a))

    def kind(self, a):
        k = self.np.asarray(a).dtype.kind
        return 'i' if k == 'u' else k

    def at(self, a, *ix):
        return self.np.asarray(a)[tuple(ix)] if not isinstance(a, (list, tuple)) or len(ix) != 1 else a[ix[0]]

    def is_scalar(self, x):
        return not isinstance(x, (list, tuple)) and self.np.ndim(x) == 0

    def floor(self, x):
        return math.floor(x)

    def const_eq(self, a, b):
        return a == b

    def clear(self, x, eps=1e-7):
        """concrete only: drop runs where x is within eps of an integer (rounding of the machine arithmetic decides there)"""
        x = self.np.asarray(x, dtype=float)
        if (self.np.abs(x - self.np.round(x)) < eps).any():
            raise Discard()

    def apart(self, a, b, eps=1e-9):
        a, b = self.np.asarray(a, dtype=float), self.np.asarray(b, dtype=float)
        if (self.np.abs(a - b) <= eps * (1 + self.np.abs(b))).any():
            raise Discard()

    def concrete(self, f):
        """code run in concrete mode only"""
        return f()


def np_copy(a):
    return a.copy() if hasattr(a, 'copy') else a


def deep_same(a, b):
    import numpy as np
    if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind in 'fc' else np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(deep_same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float, complex, str, bool, np.generic, type(None))):
        return a == b or (a != a and b != b)
    return True


# ======================================================================= hints from the source
def source_literals(funcs, root=None):
    root = root or os.environ.get('PYDED_SRC', '/repo/src')
    out = set()
    for f in funcs:
        parts = f.split('.')
        p = os.path.join(root, 'tools21cm', parts[0] + '.py')
        try:
            tree = ast.parse(open(p).read())
        except Exception:
            continue
        defs = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                defs.setdefault(n.name, n)
            if isinstance(n, ast.ClassDef):
                defs.setdefault(n.name, n)
        todo, seen = [parts[-1]] + ([parts[1]] if len(parts) > 2 else []), set()
        while todo:
            nm = todo.pop()
            if nm in seen or nm not in defs:
                continue
            seen.add(nm)
            for n in ast.walk(defs[nm]):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    v = n.value
                    if abs(v) < 1e12:
                        out.update([v, v + 1, v - 1] if isinstance(v, int) else [v])
                        if v:
                            out.add(-v)
                if isinstance(n, ast.Name):
                    todo.append(n.id)
                if isinstance(n, ast.Attribute):
                    todo.append(n.attr)
    return sorted(out)
