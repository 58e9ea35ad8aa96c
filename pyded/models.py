"""Assumed contracts on external libraries used by the verified functions."""
import builtins, itertools
from fractions import Fraction
import z3
from . import npm
from .sym import Unsupported, fn, fresh, is_z3, z, zr, zb, num, op_app, LINEAR_OPS, I, RL, B
from .vals import *
from .vals import _conc

LINEAR_OPS.update({'Quad'})


def quad(w, f, a, b, args=(), **k):
    """scipy.integrate.quad = the exact integral (linear in the integrand)"""
    x = fresh('x', RL)
    a, b = zr(raw(unwrap0(a))), zr(raw(unwrap0(b)))
    from .loops import merged_call
    if z3.is_true(z3.simplify(a == b)):
        return (Fraction(0), Fraction(0))
    if CTX.entails(a < b):
        rng = z3.And(a < x, x < b)
    else:
        rng = z3.Or(z3.And(a < x, x < b), z3.And(b < x, x < a))
    try:
        v = merged_call(w, f, [Sc(x)] + list(args), rng)
    except Infeasible:
        return (Fraction(0), Fraction(0))
    if isinstance(v, Arr):
        v = wrap(v.get(tuple(0 for _ in v.shape)))
    r = op_app('Quad', [x], zr(raw(v)), [b], (a,))
    return (wrap(r), Fraction(0))


def identity_decorator(w, *a, **k):
    from .interp import FuncV, WithWorld
    if len(a) == 1 and isinstance(a[0], FuncV):
        return a[0]
    return WithWorld(lambda w2, f: f)


def tqdm(w, it, *a, **k):
    return it


def deepcopy(w, x, *a):
    if isinstance(x, Arr):
        return x.copy()
    if isinstance(x, list):
        return [deepcopy(w, y) for y in x]
    if isinstance(x, dict):
        return {k: deepcopy(w, v) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(deepcopy(w, v) for v in x)
    from .interp import ObjV
    if isinstance(x, ObjV):
        o = ObjV(x.cls)
        o.attrs = {k: deepcopy(w, v) for k, v in x.attrs.items()}
        return o
    return x


def nothing(w, *a, **k):
    return None


def clock(w, *a, **k):
    return wrap(fresh('time', RL))


class InterpF:
    """interp1d(x, y): an unspecified interpolant through a fixed table (uninterpreted, keyed by the table)"""
    n = itertools.count()
    table = {}

    def __init__(self, x, y, kind):
        xs, ys = as_arr(x), as_arr(y)
        self.op = None
        if not all_int(ys.shape):
            if xs.ndim != 1 or ys.ndim != 1 or xs.sel is not None or ys.sel is not None:
                raise Unsupported('interp1d of %d dimensions' % ys.ndim)
            ka, kb = fresh('k', I), fresh('k', I)
            tab = op_app('Table', [ka], zr(num(xs.get((ka,)))), [z(xs.shape[0])])
            body = zr(num(ys.get((kb,))))
            self.op = lambda v: op_app('Interp_' + str(kind), [kb], body, [z(ys.shape[0])], [zr(num(v)), tab])
            return
        key = (str(xs.shape), str(ys.shape), self.akey(xs), self.akey(ys), kind)
        self.name = InterpF.table.setdefault(key, 'interp!%d' % len(InterpF.table))

    @staticmethod
    def akey(a):
        from .sym import canon, pkey
        if all_int(a.shape):
            n = 1
            for d in a.shape:
                n *= d
            if n <= 400:
                return '|'.join(pkey(canon(zr(num(a.get(ix))))) for ix in itertools.product(*[range(d) for d in a.shape]))
        ks = tuple(z3.Int('ikey%d' % q) for q in range(a.ndim))
        return pkey(canon(zr(num(a.get(ks)))))

    def __call__(self, x):
        if self.op:
            return elementwise(self.op, kf_float, x)
        f = fn(self.name, RL, RL)
        return elementwise(lambda v: f(zr(v)), kf_float, x)


def interp1d(w, x, y, kind='linear', **k):
    return InterpF(x, y, kind)


def fftconvolve(w, a, b, mode='full', axes=None):
    """scipy.signal.fftconvolve = linear convolution"""
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        raise PyExc('ValueError', 'ndim')
    fa, fb = a.frozen(), b.frozen()
    if mode == 'same':
        off = [dsimp(r_fdiv(r_sub(d, 1), 2)) for d in b.shape]
        shp = a.shape
    elif mode == 'full':
        off = [0] * a.ndim
        shp = [dsimp(r_sub(r_add(p, q), 1)) for p, q in zip(a.shape, b.shape)]
    else:
        raise Unsupported('fftconvolve mode')

    def g(idx):
        def term(*m):
            pos = [simp(r_sub(r_add(i, o), k)) for i, o, k in zip(idx, off, m)]
            ok = r_and(*[r_and(r_cmp('<=', 0, p), r_cmp('<', p, d)) for p, d in zip(pos, a.shape)])
            return r_ite(ok, r_mul(fa(tuple(pos)), fb(tuple(m))), Fraction(0))
        return npm.raw_sum(term, b.shape)
    return Arr(shp, g, kmax(a.kind, b.kind))


def binned_statistic_dd(w, sample, values, statistic='mean', bins=10, range=None, expand_binnumbers=False):
    """scipy.stats.binned_statistic_dd over a given range, equal bins: bin of a point = floor of its position in bins, the upper
    edge belonging to the last bin, points outside the range in none"""
    if range is None or not isinstance(statistic, str) or statistic not in ('sum', 'count'):
        raise Unsupported('binned_statistic_dd')
    x, v = as_arr(sample), as_arr(values)
    if x.ndim != 2 or v.ndim != 1 or not isinstance(x.shape[1], int):
        raise Unsupported('binned_statistic_dd sample')
    D = x.shape[1]
    n = [raw(bins)] * D if is_scalar(bins) else [raw(b) for b in bins]
    rng = [[raw(q) for q in r] for r in range]
    if len(rng) != D or len(n) != D or any(isinstance(b, Arr) for b in n):
        raise PyExc('ValueError', 'range given for %d dimensions; %d required' % (len(rng), D))
    fx, fv = x.frozen(), v.frozen()

    def below(k):
        # no point on the upper edge (proved for a fresh point)
        from .prove import smt
        i = fresh('i', I)
        st = CTX.push()
        try:
            for c in (i >= 0, i < z(x.shape[0])):
                CTX.pc.append(c)
                CTX.solver.add(c)
            return smt(zb(r_cmp('<', fx((i, k)), rng[k][1])), [i], (), 1, 3000).status == 'proved'
        finally:
            CTX.pop(st)
    open_ = [below(k) for k in builtins.range(D)]

    def bin_(i, k):
        lo, hi = rng[k]
        p = fx((i, k))
        if open_[k]:
            return r_floor(r_div(r_mul(r_sub(p, lo), n[k]), r_sub(hi, lo)))
        q = r_floor(r_div(r_mul(r_sub(p, lo), n[k]), r_sub(hi, lo)))
        return r_ite(r_cmp('==', p, hi), r_sub(n[k], 1), q)

    def g(ix):
        def term(i):
            ok = r_and(*[r_cmp('==', bin_(i, k), ix[k]) for k in builtins.range(D)])
            return r_ite(ok, fv((i,)) if statistic == 'sum' else Fraction(1), Fraction(0))
        return npm.raw_sum(term, [x.shape[0]])
    edges = [npm.linspace(wrap(r[0]), wrap(r[1]), wrap(simp(r_add(m, 1)))) for r, m in zip(rng, n)]
    return Arr([dsimp(m) for m in n], g, 'f'), edges, None


class ArrOp:
    """uninterpreted array operator of the whole first argument and scalar parameters"""
    def __init__(self, name, linear=False, kind=None):
        self.name = name
        if linear:
            LINEAR_OPS.add(name)
        self.kind = kind

    def __call__(self, a, *params, **kw):
        a = as_arr(a)
        f = a.frozen()
        nd = a.ndim
        ps = []
        tag = self.name
        for p in list(params) + [kw[k] for k in sorted(kw)]:
            p = unwrap0(p)
            if is_scalar(p):
                ps.append(zr(raw(p)))
            else:
                tag += '_' + str(p)
        if tag != self.name and self.name in LINEAR_OPS:
            LINEAR_OPS.add(tag)

        def g(idx):
            ks = [fresh('n', I) for _ in range(nd)]
            return op_app(tag, ks, zr(num(f(tuple(ks)))), a.shape, [z(i) for i in idx] + ps)
        return Arr(a.shape, g, self.kind or ('f' if a.kind in 'bi' else a.kind))


class Shm:
    """a named block of shared memory, seen through one array"""
    def __init__(self, w, name):
        self.name, self.arr = name, None
        w.shm[name] = self

    def attr_model(self, w, n):
        if n == 'name':
            return self.name
        if n == 'buf':
            return self
        if n in ('close', 'unlink'):
            return lambda: None
        raise Unsupported('SharedMemory.' + n)


def shared_memory(w, name=None, create=False, size=0):
    if create:
        if name is not None:
            raise Unsupported('named shared memory')
        return Shm(w, 'shm#%d' % len(w.shm))
    if name not in w.shm:
        raise PyExc('FileNotFoundError', str(name))
    return w.shm[name]


def ndarray(w, shape, dtype=float, buffer=None, *a, **k):
    if not isinstance(buffer, Shm) or a or k:
        raise Unsupported('np.ndarray()')
    shape = tuple(raw(v) for v in w.iter_concrete(shape))
    d = npm.dt(dtype)
    if buffer.arr is None:
        old = [fn('shm.%s' % buffer.name, *([I] * len(shape) + [RL if d.kind == 'f' else I]))]
        buffer.arr = Arr(shape, lambda idx: old[0](*[z(q) for q in idx]), d.kind)
        buffer.bits = d.bits
    b = buffer.arr
    if b.kind != d.kind or getattr(buffer, 'bits', d.bits) != d.bits or len(b.shape) != len(shape) or not all(dim_same(p, q) for p, q in zip(b.shape, shape)):
        raise Unsupported('another view of the shared memory')
    return b


def parallel(w, *a, **k):
    """assumed contract of joblib: every task is called exactly once and the results come back in the order of the tasks
    (the calls are executed one after the other here)"""
    from .interp import WithWorld

    def run(w, tasks):
        s = w.iter_any(tasks)
        if isinstance(s, SymSeq):
            rule = getattr(w.T, 'parallel_rule', None)
            if rule is None:
                raise Unsupported('a symbolic number of parallel tasks')
            return rule(s)
        return [w.call(f, list(p), dict(q)) for f, p, q in s]
    return WithWorld(run)


def delayed(w, f):
    from .interp import WithWorld
    return WithWorld(lambda w, *a, **k: (f, a, k))


def install(w):
    from .interp import WithWorld as W, TypeB, ExcT
    M = w.models
    NS = npm.NS
    idd = W(identity_decorator)
    M['scipy.integrate.quad'] = W(quad)
    M['scipy.stats'] = NS('scipy.stats', {'binned_statistic_dd': W(binned_statistic_dd)})
    M['scipy.integrate'] = NS('scipy.integrate', {'quad': W(quad), 'trapezoid': npm.trapezoid})
    M['scipy.interpolate'] = NS('scipy.interpolate', {'interp1d': W(interp1d)})
    M['scipy.signal'] = NS('scipy.signal', {'fftconvolve': W(fftconvolve), 'convolve': W(fftconvolve)})
    M['scipy.fft'] = NS('scipy.fft', dict(w.np.d['fft'].d))
    M['scipy.fftpack'] = NS('scipy.fftpack', dict(w.np.d['fft'].d))
    M['numba'] = NS('numba', {k: idd for k in ('jit', 'njit', 'vectorize')} | {'prange': W(lambda w_, *a: w_.call(__import__('pyded.interp', fromlist=['BUILTINS']).BUILTINS['range'], list(a), {}))})
    M['tqdm'] = NS('tqdm', {'tqdm': W(tqdm)})
    M['copy'] = NS('copy', {'deepcopy': W(deepcopy), 'copy': W(deepcopy)})
    M['time'] = NS('time', {'time': W(clock), 'sleep': W(nothing)})
    M['warnings'] = NS('warnings', {'warn': W(nothing), 'filterwarnings': W(nothing), 'simplefilter': W(nothing), 'catch_warnings': W(nothing)})
    M['sys'] = NS('sys', {'stdout': NS('stdout', {'write': W(nothing), 'flush': W(nothing)}), 'float_info': NS('fi', {})})
    import math
    npd = w.np.d
    M['math'] = NS('math', {k: npd[k] for k in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'log10', 'pi', 'floor', 'ceil')} | {
        'floor': lambda x: wrap(r_floor(raw(x))), 'ceil': lambda x: wrap(r_ceil(raw(x)))})
    M['glob'] = NS('glob', {})
    M['os'] = NS('os', {'path': NS('os.path', {})})
    M['joblib'] = NS('joblib', {'cpu_count': W(lambda w_: 1), 'Parallel': W(parallel), 'delayed': W(delayed)})
    M['multiprocessing'] = NS('multiprocessing', {'shared_memory': NS('shared_memory', {'SharedMemory': W(shared_memory)})})


def q_attr(w, a, n):
    raise Unsupported('Quantity attribute')
