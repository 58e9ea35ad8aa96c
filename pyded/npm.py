"""Model of the numpy subset (contracts on the library: exact elementwise / index semantics over the reals)."""
import itertools, math
from fractions import Fraction
import z3
from .sym import (Unsupported, fn, fresh, is_z3, z, zr, zb, num, PI, op_app, sum_term, I, RL, B, LINEAR_OPS)
from . import sym
from .sym import canon
from .vals import *
from .vals import _conc
from . import vals as V_


class DT:
    def __init__(self, name, kind, bits=64):
        self.name, self.kind, self.bits = name, kind, bits

    def __call__(self, x=0, *a, **k):
        if isinstance(x, str):
            return wrap(cast(self.kind, raw(float(x)))) if self.kind == 'f' else int(x)
        if isinstance(x, Arr) and x.ndim == 0:
            x = wrap(x.get(()))
        if is_scalar(x):
            return wrap(cast(self.kind, raw(x)))
        return asarray(x, dtype=self)

    def __eq__(self, o):
        try:
            o = dt(o)
        except Exception:
            return False
        return isinstance(o, DT) and (o.kind, o.bits) == (self.kind, self.bits)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.kind, self.bits))

    def __repr__(self):
        return 'DT(%s)' % self.name


F64, F32, I64, I32, BOOL, C128 = DT('float64', 'f'), DT('float32', 'f', 32), DT('int64', 'i'), DT('int32', 'i', 32), DT('bool', 'b', 8), DT('complex128', 'c', 128)
OBJ = DT('object', 'O')


class TypeV:
    """a type used with isinstance / type()"""
    def __init__(self, name, test):
        self.name, self.test = name, test

    def __repr__(self):
        return '<type %s>' % self.name


NDARRAY = TypeV('ndarray', lambda v: isinstance(v, Arr))


def dt(x):
    if x is None:
        return F64
    if isinstance(x, DT):
        return x
    if x is float or x == 'float' or x == 'float64' or x == 'd' or x == 'f8':
        return F64
    if x in ('float32', 'f', 'f4'):
        return F32
    if x is int or x in ('int', 'int64', 'i', 'i8'):
        return I64
    if x in ('int32', 'i4', 'int8'):
        return I32
    if x is bool or x in ('bool', '?', 'bool_'):
        return BOOL
    if x is complex or x in ('complex', 'complex128', 'complex64'):
        return C128
    if x in ('uint32', 'uint8', 'uint64', 'uint16', 'int16'):
        return I64
    if x is object:
        return OBJ
    name = getattr(x, 'tname', None)
    if name:
        return dt(name)
    raise Unsupported('dtype %r' % (x,))


def _shape(s):
    if isinstance(s, Arr):
        return tuple(s.get((i,)) for i in range(s.shape[0]))
    if isinstance(s, (list, tuple)):
        return tuple(shape1(i) for i in s)
    return (shape1(s),)


def shape1(i):
    r = num(raw(i))
    if isinstance(r, Fraction) or (is_z3(r) and r.sort() != I):
        raise PyExc('TypeError', "'float' object cannot be interpreted as an integer")
    return dsimp(r)


def _fill(shape, v, d):
    d = dt(d)
    r = cast(d.kind, v)
    a = Arr(_shape(shape), lambda idx: r, d.kind)
    a.buf.bits = d.bits
    return a


def zeros(shape, dtype=None, order=None):
    return _fill(shape, 0, dtype)


def ones(shape, dtype=None, order=None):
    return _fill(shape, 1, dtype)


def empty(shape, dtype=None, order=None):
    d = dt(dtype)
    shp = _shape(shape)
    return fresh_arr('empty', shp, d.kind)


def full(shape, v, dtype=None):
    r = raw(v)
    if not is_scalar(v):
        raise Unsupported('full with array value')
    k = dt(dtype).kind if dtype is not None else kind_of(r)
    r = cast(k, r)
    return Arr(_shape(shape), lambda idx: r, k)


_fc = itertools.count()


def fresh_arr(name, shape, kind):
    nm = '%s!%d' % (name, next(_fc))
    nd = len(shape)
    dom = [I] * nd
    if kind == 'c':
        fr, fi = fn(nm + '_re', *(dom + [RL])), fn(nm + '_im', *(dom + [RL]))
        g = lambda idx: Cx(fr(*[z(i) for i in idx]), fi(*[z(i) for i in idx]))
    else:
        s = {'b': B, 'i': I, 'f': RL}[kind]
        if nd == 0:
            c = z3.Const(nm, s)
            g = lambda idx: c
        else:
            f = fn(nm, *(dom + [s]))
            g = lambda idx: f(*[z(i) for i in idx])
    return Arr(shape, g, kind, name=nm)


def zeros_like(a, dtype=None):
    a = as_arr(a)
    d = dtype if dtype is not None else kdt(a)
    return unw(_fill(a.shape, 0, d))


def ones_like(a, dtype=None):
    a = as_arr(a)
    return unw(_fill(a.shape, 1, dtype if dtype is not None else kdt(a)))


def full_like(a, v, dtype=None):
    a = as_arr(a)
    r = cast(dt(dtype).kind if dtype is not None else a.kind, raw(v))
    return Arr(a.shape, lambda idx: r, kind_of(r))


def empty_like(a, dtype=None):
    a = as_arr(a)
    return fresh_arr('empty', a.shape, dt(dtype).kind if dtype is not None else a.kind)


def unw(a):
    return a


def kdt(a):
    d = {'b': BOOL, 'i': I64, 'f': F64, 'c': C128, 'O': OBJ, 'S': OBJ}[a.kind]
    if a.kind == 'f' and a.buf.bits == 32:
        return F32
    return d


def array(x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, Arr):
        if x.unit is not None:
            raise Unsupported('np.array of a Quantity')
        a = x.copy()
    else:
        a = as_arr(x)
    if dtype is not None:
        d = dt(dtype)
        a = astype(a, d)
    return a


def asarray(x, dtype=None):
    if isinstance(x, Arr) and (dtype is None or dt(dtype).kind == x.kind):
        return x
    return array(x, dtype)


def astype(a, d):
    d = dt(d)
    a = as_arr(a)
    if a.sel is not None:
        s = a.sel
        return mk_sel(lambda k: cast(d.kind, s.val(k)), s.mask, s.shape, s.mkey, d.kind, a.shape[0])
    f = a.frozen()
    from . import files
    if files.ON[0] and d.kind == 'f' and d.bits == 32 and a.kind == 'f':
        return a.copy() if a.buf.bits == 32 and a.meta is None else files.round_single(a)
    r = Arr(a.shape, lambda idx: cast(d.kind, f(idx)), d.kind)
    r.buf.bits = d.bits
    if d.kind == a.kind:
        r.meta = a.meta
    elif a.meta and a.meta[0] == 'flat':
        r.meta = ('flat', astype(a.meta[1], d), a.meta[2])
    return r


def atleast_1d(x):
    a = as_arr(x)
    if a.ndim == 0:
        r = a.get(())
        return Arr((1,), lambda idx: r, a.kind)
    return a if isinstance(x, Arr) else a


def copy(x):
    return as_arr(x).copy()


def lin(a, b, n):
    def f(idx):
        return r_add(a, r_mul(idx[0], r_div(r_sub(b, a), r_sub(n, 1)))) if not (isinstance(n, int) and n == 1) else a
    return f


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None):
    n = shape1(num)
    a, b = raw(a), raw(b)
    a, b = cast('f', a), cast('f', b)
    if is_z3(n) and CTX.feasible(n == 1):
        if CTX.decide(n == 1):
            n = 1
    m = n if endpoint is False else dsimp(r_sub(n, 1))
    if isinstance(m, int) and m == 0:
        step, f = Fraction(0), (lambda idx: a)
    else:
        step = r_div(r_sub(b, a), cast('f', m))
        f = lambda idx: r_add(a, r_mul(idx[0], step))
    r = Arr((n,), f, 'f')
    if dtype is not None:
        r = astype(r, dtype)
    return (r, wrap(step)) if retstep else r


def arange(*args, dtype=None):
    a = [raw(x) for x in args]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a[:3]
    k = kmax(*[kind_of(x) for x in (start, stop, step)])
    if k in 'bi':
        if step == 1:
            n = r_sub(stop, start)
        elif isinstance(step, int) and step > 0:
            n = r_fdiv(r_add(r_sub(stop, start), step - 1), step)
        elif step == -1:
            n = r_sub(start, stop)
        elif not _conc(step) and CTX.entails(z(step) > 0):
            n = r_fdiv(r_add(r_sub(stop, start), r_sub(step, 1)), step)
        else:
            raise Unsupported('arange step')
    else:
        n = r_ceil(r_div(r_sub(stop, start), step))
    n = dsimp(n)
    if isinstance(n, int):
        n = max(n, 0)
    elif not CTX.decide(z(n) >= 0):
        n = 0
    n = dimnorm(n)
    r = Arr((n,), lambda idx: cast(k if k != 'b' else 'i', r_add(start, r_mul(idx[0], step))), 'i' if k == 'b' else k)
    return astype(r, dtype) if dtype is not None else r


# ------------------------------------------------------------------ reductions
def _axes(axis, nd):
    if axis is None:
        return list(range(nd))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    out = []
    for x in axis:
        x = raw(x)
        if not isinstance(x, int):
            raise Unsupported('symbolic axis')
        if not -nd <= x < nd:
            raise PyExc('AxisError', 'axis')
        out.append(x % nd)
    return sorted(set(out))


def reduce_(a, axis, keepdims, body, kind):
    """body(f, dims) -> raw, f over reduced indices"""
    a = as_arr(a)
    if a.sel is not None:
        raise Unsupported('reduction of a selection')
    ax = _axes(axis, a.ndim)
    rest = [k for k in range(a.ndim) if k not in ax]
    f = a.frozen()
    dims = [a.shape[k] for k in ax]
    if keepdims:
        shp = tuple(1 if k in ax else a.shape[k] for k in range(a.ndim))
    else:
        shp = tuple(a.shape[k] for k in rest)

    def g(idx):
        oi = [idx[k] for k in rest] if keepdims else list(idx)

        def inner(*red):
            full_ = [None] * a.ndim
            for k, v in zip(rest, oi):
                full_[k] = v
            for k, v in zip(ax, red):
                full_[k] = v
            return f(tuple(full_))
        return body(inner, dims)
    r = Arr(shp, g, kind)
    return unwrap0(r)


def raw_sum(f, dims):
    probe = f(*[fresh('pr', I) for _ in dims]) if dims else f()
    if not dims:
        return num(probe)
    if isinstance(probe, Cx):
        return Cx(raw_sum(lambda *k: cre(f(*k)), dims), raw_sum(lambda *k: cim(f(*k)), dims))
    k = kind_of(probe)
    if all_int(dims) and prod(dims) <= 64:
        tot = 0 if k in 'bi' else Fraction(0)
        for ix in itertools.product(*[range(d) for d in dims]):
            tot = r_add(tot, num(f(*ix)))
        return tot
    if _conc(probe):
        c = num(probe)
        p = prod(dims)
        # constant body (only if index independent)
        return r_mul(c, p)
    s = sum_term(lambda *q: num(f(*q)), dims)
    if k in 'bi':
        s = simp(z3.ToInt(s))
    return s


def np_sum(a, axis=None, dtype=None, keepdims=False, out=None):
    if isinstance(a, (list, tuple)) and all(is_scalar(x) for x in a):
        t = 0
        for x in a:
            t = r_add(t, raw(x))
        return wrap(t)
    a = as_arr(a)
    if a.sel is not None:
        s = a.sel
        return wrap(raw_sum(lambda *k: r_ite(s.mask(k), num(s.val(k)), 0 if a.kind in 'bi' else Fraction(0)), s.shape))
    return reduce_(a, axis, keepdims, raw_sum, 'i' if a.kind == 'b' else a.kind)


def count(a, axis=None):
    a = as_arr(a)
    if a.sel is not None:
        s = a.sel
        c = raw_sum(lambda *k: num(s.mask(k)), s.shape)
        if is_z3(c) and ('count', c.get_id()) not in CTX.sorts:
            CTX.sorts[('count', c.get_id())] = (True, c)
            CTX.ghosts.append((tuple(s.shape), lambda *k: r_or(r_not(s.mask(k)), r_cmp('>=', c, 1))))     # a number of elements
        return wrap(c)
    return wrap(prod([a.shape[k] for k in _axes(axis, a.ndim)]))


def np_mean(a, axis=None, keepdims=False, dtype=None):
    a = as_arr(a)
    s = np_sum(a, axis, keepdims=keepdims)
    return s / count(a, axis) if isinstance(s, (Arr, Sc)) else wrap(r_div(raw(s), raw(count(a, axis))))


def np_var(a, axis=None, ddof=0, keepdims=False):
    a = as_arr(a)
    m = np_mean(a, axis, keepdims=True) if a.sel is None else np_mean(a)
    d = arr_binop('-', a, m)
    if a.kind == 'c':
        raise Unsupported('complex variance')
    sq = arr_binop('*', d, d)
    s = np_sum(sq, axis, keepdims=keepdims)
    n = r_sub(raw(count(a, axis)), raw(ddof))
    return elementwise(lambda x: r_div(x, n), kf_float, s)


def np_std(a, axis=None, ddof=0, keepdims=False):
    return sqrt(np_var(a, axis, ddof, keepdims))


def np_prod(a, axis=None):
    if isinstance(a, (list, tuple)):
        t = 1
        for x in a:
            t = r_mul(t, raw(x))
        return wrap(t)
    a = as_arr(a)
    if axis is None and all_int(a.shape) and prod(a.shape) <= 64:
        t = 1
        for ix in itertools.product(*[range(d) for d in a.shape]):
            t = r_mul(t, a.get(ix))
        return wrap(t)
    raise Unsupported('prod')


_extc = itertools.count()


def ext_const(m):
    """outside summarised loop bodies an extremum is a number: one constant per distinct extremum"""
    if CTX.xbase is not None:
        return m, False
    k = sym.pkey(canon(m))
    c = CTX.extc.get(k)
    if c is not None:
        return c, True
    c = CTX.extc[k] = fresh('ext', RL)
    return c, False


def raw_ext(which, f, dims):
    """max / min"""
    n = prod(dims)
    if isinstance(n, int) and n == 0:
        raise PyExc('ValueError', 'zero-size array to reduction operation')
    if all_int(dims) and n <= 32:
        r = None
        for ix in itertools.product(*[range(d) for d in dims]):
            v = num(f(*ix))
            r = v if r is None else (r_max if which == 'Max' else r_min)(r, v)
        return r
    for d in dims:
        if is_z3(d) and not CTX.decide(d > 0):
            raise PyExc('ValueError', 'zero-size array to reduction operation')
    ks = [fresh('k', I) for _ in dims]
    b = num(f(*ks))
    if isinstance(b, Cx):
        raise Unsupported('complex max')
    if _conc(b):
        return b
    integer = b.sort() == I
    m = op_app(which, ks, zr(b), dims)
    m, old = ext_const(m)
    if old:
        return simp(z3.ToInt(m)) if integer else m
    cmp_ = '<=' if which == 'Max' else '>='
    CTX.ghosts.append((tuple(dims), lambda *idx: r_cmp(cmp_, num(f(*idx)), m)))
    ws = [fresh('w', I) for _ in dims]
    CTX.add_fact(z(r_and(*[r_and(r_cmp('<=', 0, w), r_cmp('<', w, d)) for w, d in zip(ws, dims)])))
    CTX.add_fact(z(r_cmp('==', zr(num(f(*ws))), m)))
    for h in CTX.hints:
        if len(h) == len(dims):
            from . import prove as prover
            be = zr(b)
            if prover.attained(('c', be.get_id()), which, be, ks, [z(d) for d in dims], h):
                CTX.add_fact(m == zr(num(f(*h))))
                KEEP.append(be)
    return simp(z3.ToInt(m)) if integer else m


KEEP = []


def _ext(which):
    def g(a, axis=None, keepdims=False, initial=None):
        if isinstance(a, (list, tuple)) and all(is_scalar(x) for x in a):
            r = None
            if not a:
                raise PyExc('ValueError', 'zero-size array to reduction operation')
            for x in a:
                x = num(raw(x))
                r = x if r is None else (r_max if which == 'Max' else r_min)(r, x)
            return wrap(r)
        a = as_arr(a)
        if a.sel is not None:
            s = a.sel
            cnt = raw(count(a))
            if not CTX.decide(r_cmp('>', cnt, 0)):
                raise PyExc('ValueError', 'zero-size array to reduction operation')
            ks = [fresh('k', I) for _ in s.shape]
            b = zr(num(s.val(tuple(ks))))
            m = op_app(which + 'Sel', ks, z3.If(zb(s.mask(tuple(ks))), b, z3.Real('excluded')), s.shape)
            m, old = ext_const(m)
            if old:
                return wrap(simp(z3.ToInt(m)) if a.kind == 'i' else m)
            cmp_ = '<=' if which == 'Max' else '>='
            CTX.ghosts.append((tuple(s.shape), lambda *idx: r_or(r_not(s.mask(idx)), r_cmp(cmp_, num(s.val(idx)), m))))
            ws = tuple(fresh('w', I) for _ in s.shape)
            CTX.add_fact(z(r_and(s.mask(ws), *[r_and(r_cmp('<=', 0, w), r_cmp('<', w, d)) for w, d in zip(ws, s.shape)])))
            CTX.add_fact(z(r_cmp('==', zr(num(s.val(ws))), m)))
            return wrap(simp(z3.ToInt(m)) if a.kind == 'i' else m)
        return reduce_(a, axis, keepdims, lambda f, d: raw_ext(which, f, d), 'i' if a.kind == 'b' else a.kind)
    return g


np_max, np_min = _ext('Max'), _ext('Min')


def raw_any(f, dims, neg=False):
    if all_int(dims) and prod(dims) <= 64:
        return r_or(*[f(*ix) for ix in itertools.product(*[range(d) for d in dims])])
    ks = [fresh('k', I) for _ in dims]
    b = truth(f(*ks))
    if isinstance(b, bool):
        return r_and(b, r_cmp('>', prod(dims), 0))
    a = op_app('Any', ks, b, dims, out_sort=B)
    # Any <=> exists witness ; not Any => forall not
    ws = [fresh('w', I) for _ in dims]
    rng = r_and(*[r_and(r_cmp('<=', 0, w), r_cmp('<', w, d)) for w, d in zip(ws, dims)])
    CTX.add_fact(z3.Implies(a, zb(r_and(rng, f(*ws)))))
    CTX.ghosts.append((tuple(dims), lambda *idx: r_or(a, r_not(f(*idx)))))
    return a


def np_any(a, axis=None):
    if isinstance(a, (list, tuple)) and all(is_scalar(x) for x in a):
        return wrap(r_or(*[raw(x) for x in a]))
    a = as_arr(a)
    if a.sel is not None:
        s = a.sel
        return wrap(raw_any(lambda *k: r_and(s.mask(k), s.val(k)), s.shape))
    return reduce_(a, axis, False, raw_any, 'b')


def np_all(a, axis=None):
    if isinstance(a, (list, tuple)) and all(is_scalar(x) for x in a):
        return wrap(r_and(*[raw(x) for x in a]))
    a = as_arr(a)
    if a.sel is not None:
        s = a.sel
        return wrap(r_not(raw_any(lambda *k: r_and(s.mask(k), r_not(s.val(k))), s.shape)))
    return reduce_(a, axis, False, lambda f, d: r_not(raw_any(lambda *k: r_not(f(*k)), d)), 'b')


def cumsum(a, axis=None):
    a = as_arr(a)
    if axis is None and a.ndim != 1:
        raise Unsupported('cumsum of nd')
    ax = 0 if axis is None else _axes(axis, a.ndim)[0]
    f = a.frozen()

    def g(idx):
        k = idx[ax]
        return raw_sum(lambda q: f(idx[:ax] + (q,) + idx[ax + 1:]), [dsimp(r_add(k, 1))])
    return Arr(a.shape, g, 'i' if a.kind == 'b' else a.kind)


def trapezoid(y, x=None, dx=1, axis=-1):
    y = as_arr(y)
    ax = _axes(axis, y.ndim)[0]
    n1 = dsimp(r_sub(y.shape[ax], 1))
    f = y.frozen()
    xf = None
    if x is not None:
        xa = as_arr(x)
        if xa.ndim != 1:
            raise Unsupported('trapz with nd x')
        xf = xa.frozen()
    rest = [k for k in range(y.ndim) if k != ax]

    def g(idx):
        def term(q):
            i0 = idx[:ax] + (q,) + idx[ax:]
            i1 = idx[:ax] + (simp(r_add(q, 1)),) + idx[ax:]
            d = raw(dx) if xf is None else r_sub(xf((simp(r_add(q, 1)),)), xf((q,)))
            return r_div(r_mul(d, r_add(f(i1), f(i0))), 2)
        return raw_sum(term, [n1])
    return unwrap0(Arr([y.shape[k] for k in rest], g, 'f'))


def diff(a, n=1, axis=-1):
    a = as_arr(a)
    ax = _axes(axis, a.ndim)[0]
    f = a.frozen()
    shp = list(a.shape)
    shp[ax] = dsimp(r_sub(shp[ax], 1))
    return Arr(shp, lambda idx: r_sub(f(idx[:ax] + (simp(r_add(idx[ax], 1)),) + idx[ax + 1:]), f(idx)), a.kind)


# ------------------------------------------------------------------ shape ops
def swapaxes(a, p, q):
    a = as_arr(a)
    nd = a.ndim
    p, q = _axes(p, nd)[0], _axes(q, nd)[0]
    perm = list(range(nd))
    perm[p], perm[q] = perm[q], perm[p]
    return transpose(a, perm)


def transpose(a, axes=None, *more):
    a = as_arr(a)
    if a.sel is not None:
        return a
    if more:
        axes = (axes,) + more
    perm = list(range(a.ndim))[::-1] if axes is None else [_axes(x, a.ndim)[0] for x in axes]
    inv = {old: new for new, old in enumerate(perm)}
    axes_ = [s if s[0] == 'f' else ('a', inv[s[1]], s[2], s[3]) for s in a.fullaxes()]
    v = Arr.view(a.buf, [a.shape[k] for k in perm], axes_)
    if a.snap:
        v.snap = True
    return v


def moveaxis(a, s, d):
    a = as_arr(a)
    s, d = _axes(s, a.ndim)[0], _axes(d, a.ndim)[0]
    perm = [k for k in range(a.ndim) if k != s]
    perm.insert(d, s)
    return transpose(a, perm)


def squeeze(a, axis=None):
    a = as_arr(a)
    if axis is not None:
        ax = _axes(axis, a.ndim)
    else:
        ax = []
        for k, d in enumerate(a.shape):
            if isinstance(d, int):
                if d == 1:
                    ax.append(k)
            elif CTX.feasible(d == 1) and CTX.decide(d == 1):
                ax.append(k)
    idx = tuple(0 if k in ax else slice(None) for k in range(a.ndim))
    return unwrap0(getitem(a, idx)) if idx else a


def expand_dims(a, axis):
    a = as_arr(a)
    ax = raw(axis) % (a.ndim + 1)
    idx = [slice(None)] * a.ndim
    idx.insert(ax, None)
    return getitem(a, tuple(idx))


def flip(a, axis=None):
    a = as_arr(a)
    ax = _axes(axis, a.ndim)
    return getitem(a, tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim)))


def rot90(a, k=1, axes=(0, 1)):
    a = as_arr(a)
    p, q = _axes(axes[0], a.ndim)[0], _axes(axes[1], a.ndim)[0]
    k = raw(k)
    if not isinstance(k, int):
        raise Unsupported('symbolic rot90')
    k %= 4
    if k == 0:
        return a
    if k == 2:
        return flip(flip(a, p), q)
    if k == 1:
        return swapaxes(flip(a, q), p, q)
    return flip(swapaxes(a, p, q), q)


def roll(a, shift, axis=None):
    a = as_arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('roll without axis on nd array')
        axis = 0
    ax = [_axes(x, a.ndim)[0] for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
    sh = [num(raw(s)) for s in (shift if isinstance(shift, (tuple, list)) else (shift,) * len(ax))]
    f = a.frozen()

    def g(idx):
        idx = list(idx)
        for p, s in zip(ax, sh):
            idx[p] = simp(r_mod(r_sub(idx[p], s), a.shape[p]))
        return f(tuple(idx))
    for p in ax:
        d = a.shape[p]
        if is_z3(d) and not CTX.decide(d > 0):
            return a.copy()
    return Arr(a.shape, g, a.kind)


def reshape(a, *shape, order='C', newshape=None):
    a = as_arr(a)
    if a.sel is not None:
        raise Unsupported('reshape of a selection')
    if newshape is not None:
        shape = (newshape,)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list, Arr)):
        shape = tuple(shape[0]) if not isinstance(shape[0], Arr) else tuple(wrap(x) for x in _shape(shape[0]))
    shp = [shape1(s) for s in shape]
    tot = prod(a.shape)
    neg = [k for k, s in enumerate(shp) if isinstance(s, int) and s == -1]
    if neg:
        rest = [s for k, s in enumerate(shp) if k != neg[0]]
        # structural cancellation
        left = list(a.shape)
        for s in list(rest):
            for l in left:
                if (isinstance(l, int) and isinstance(s, int) and l == s) or (is_z3(l) and is_z3(s) and z3.eq(l, s)):
                    left.remove(l)
                    rest.remove(s)
                    break
        p = prod(rest)
        q = prod(left)
        if isinstance(p, int) and isinstance(q, int):
            if p == 0 or q % p:
                raise PyExc('ValueError', 'cannot reshape')
            shp[neg[0]] = q // p
        elif isinstance(p, int) and p == 1:
            shp[neg[0]] = dsimp(q)
        else:
            shp[neg[0]] = dsimp(r_fdiv(q, p))
    if a.ndim == 1 and len(shp) > 1 and a.meta and a.meta[0] == 'flat':
        src, so = a.meta[1:]
        t = src if so == order else transpose(src)
        if t.ndim == len(shp) and all(dim_same(p, q) for p, q in zip(t.shape, shp)):
            r = t.copy()
            r.buf.bits = a.buf.bits
            r.snap = True
            return r
    f = a.frozen()
    # drop unit axes / identical non-unit axes: cheap case
    ai = [k for k, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    bi = [k for k, d in enumerate(shp) if not (isinstance(d, int) and d == 1)]
    if order == 'C' and len(ai) == len(bi) and all(dim_same(a.shape[p], shp[q]) for p, q in zip(ai, bi)):
        def g(idx):
            o = [0] * a.ndim
            for p, q in zip(ai, bi):
                o[p] = idx[q]
            return f(tuple(o))
        r = Arr(shp, g, a.kind)
        r.buf.bits = a.buf.bits
        r.snap = True
        r.meta = None
        return r
    if not dim_same(prod(shp), tot):
        raise PyExc('ValueError', 'cannot reshape array')

    def unflat(flat):
        o = []
        dims = list(a.shape) if order == 'C' else list(a.shape)[::-1]
        for d in dims[::-1][:-1]:
            o.append(simp(r_mod(flat, d)))
            flat = simp(r_fdiv(flat, d))
        o.append(flat)
        o = o[::-1]
        return tuple(o if order == 'C' else o[::-1])

    def g(idx):
        ids, dims = (list(idx), shp) if order == 'C' else (list(idx)[::-1], shp[::-1])
        flat = 0
        for i, d in zip(ids, dims):
            flat = r_add(r_mul(flat, d), i)
        return f(unflat(simp(flat)))
    r = Arr(shp, g, a.kind)
    r.buf.bits = a.buf.bits
    r.snap = True
    r.meta = ('flat', a.copy(), order) if len(shp) == 1 else None
    return r


def ravel(a, order='C'):
    a = as_arr(a)
    if a.ndim == 1:
        return a
    return reshape(a, -1, order=order)


def flatten(a, order='C'):
    a = as_arr(a)
    if a.ndim == 1:
        return a.copy()
    r = reshape(a, -1, order=order)
    r.snap = False
    return r


def concatenate(xs, axis=0):
    if isinstance(xs, SymSeq):
        raise Unsupported('concatenate symbolic sequence')
    arrs = [as_arr(x) for x in xs]
    nd = arrs[0].ndim
    ax = _axes(axis, nd)[0]
    k = kmax(*[a.kind for a in arrs])
    tot = 0
    starts = []
    for a in arrs:
        if a.ndim != nd:
            raise PyExc('ValueError', 'concatenate dims')
        starts.append(tot)
        tot = dsimp(r_add(tot, a.shape[ax]))
    shp = list(arrs[0].shape)
    shp[ax] = tot
    fs = [a.frozen() for a in arrs]

    def g(idx):
        i = idx[ax]
        r = None
        for a, f, s in reversed(list(zip(arrs, fs, starts))):
            if isinstance(a.shape[ax], int) and a.shape[ax] == 0:
                continue
            loc = idx[:ax] + (simp(r_sub(i, s)),) + idx[ax + 1:]
            c = r_cmp('>=', i, s)
            if r is not None:
                c2 = r_cmp('<', i, dsimp(r_add(s, a.shape[ax])))
                if c2 is False:
                    continue
                if c2 is True:
                    r = cast(k, f(loc)) if c is True or c is not False else r
                    continue
                r = r_ite(c2, cast(k, f(loc)), r)
            else:
                r = cast(k, f(loc))
        return r
    return Arr(shp, g, k)


def hstack(xs):
    arrs = [atleast_1d(x) for x in xs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def vstack(xs):
    arrs = [as_arr(x) for x in xs]
    arrs = [getitem(atleast_1d(a), (None, slice(None))) if a.ndim <= 1 else a for a in arrs]
    return concatenate(arrs, 0)


def column_stack(xs):
    arrs = [as_arr(x) for x in xs]
    arrs = [getitem(a, (slice(None), None)) if a.ndim == 1 else a for a in arrs]
    return concatenate(arrs, 1)


def stack(xs, axis=0):
    if isinstance(xs, SymSeq):
        if axis != 0:
            return moveaxis(as_arr(xs), 0, axis)
        return as_arr(xs)
    return concatenate([expand_dims(x, axis) for x in xs], axis)


def append(a, v, axis=None):
    a = as_arr(a)
    if axis is None:
        return concatenate([ravel(a), ravel(atleast_1d(v))])
    return concatenate([a, as_arr(v)], axis)


def insert(a, pos, v):
    a = as_arr(a)
    pos = raw(pos)
    if a.ndim == 1 and is_scalar(v) and isinstance(pos, int):
        return concatenate([getitem(a, slice(0, pos)), atleast_1d(v), getitem(a, slice(pos, None))])
    raise Unsupported('insert')


def tile(a, reps):
    a = as_arr(a)
    reps = [raw(r) for r in reps] if isinstance(reps, (tuple, list)) else [raw(reps)]
    nd = max(a.ndim, len(reps))
    reps = [1] * (nd - len(reps)) + reps
    off = nd - a.ndim
    sh = [1] * off + list(a.shape)
    f = a.frozen()

    def g(idx):
        return f(tuple(simp(r_mod(i, d)) if not (isinstance(r, int) and r == 1) else i for i, d, r in list(zip(idx, sh, reps))[off:]))
    return Arr([dsimp(r_mul(d, r)) for d, r in zip(sh, reps)], g, a.kind)


def repeat(a, n, axis=None):
    a = as_arr(a)
    if a.ndim == 1 or axis is not None:
        ax = 0 if axis is None else _axes(axis, a.ndim)[0]
        n = raw(n)
        f = a.frozen()
        shp = list(a.shape)
        shp[ax] = dsimp(r_mul(shp[ax], n))
        return Arr(shp, lambda idx: f(idx[:ax] + (simp(r_fdiv(idx[ax], n)),) + idx[ax + 1:]), a.kind)
    raise Unsupported('repeat')


def broadcast_to(a, shape):
    a = as_arr(a)
    shp = _shape(shape)
    return elementwise(lambda x, _: x, lambda k, _: k, a, zeros([wrap(s) for s in shp]))


class NZE:
    """np.nonzero(cond)[axis] of symbolic length"""
    def __init__(self, cond, axis):
        self.cond, self.axis = cond, axis


class NZ(tuple):
    """np.nonzero(cond) / np.where(cond) of symbolic length: used as an index it is the mask"""
    def __new__(cls, c):
        t = tuple.__new__(cls, [NZE(c, k) for k in range(c.ndim)])
        t.cond = arr_binop('!=', c, 0) if c.kind != 'b' else c
        for e in t:
            e.cond = t.cond
        return t


V_.NZ, V_.NZE = NZ, NZE


def where(c, a=None, b=None):
    if a is None:
        c = as_arr(c)
        if all_int(c.shape) and c.ndim == 1:
            keep = []
            for i in range(c.shape[0]):
                v = truth(c.get((i,)))
                if v if isinstance(v, bool) else CTX.decide(v):
                    keep.append(i)
            return (list_to_arr(keep) if keep else Arr((0,), table_fn({}, (0,)), 'i'),)
        return NZ(c)
    return elementwise(lambda q, x, y: r_ite(q, x, y), lambda q, x, y: kmax(x, y), c, special_nan(a), special_nan(b))


def argwhere(c):
    w = where(c)
    return getitem(w[0], (slice(None), None))


def clip(a, lo, hi):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def uf(rawf, kf=kf_float):
    def g(a, *args, **kw):
        if isinstance(a, (list, tuple, SymSeq)):
            a = as_arr(a)
        if kw.get('where') is not None or kw.get('out') is not None:
            raise Unsupported('ufunc keyword')
        return elementwise(lambda x: rawf(x), kf, a)
    return g


def uf2(rawf, kf):
    def g(a, b, *args, **kw):
        return elementwise(rawf, kf, a, b)
    return g


sqrt = uf(r_sqrt)
maximum, minimum = uf2(r_max, kf_arith), uf2(r_min, kf_arith)


def np_abs(a):
    a2 = as_arr(a)
    return elementwise(r_abs, lambda k: 'f' if k == 'c' else k, a2)


def r_float_floor(x):
    f = r_floor(x)
    return cast('f', f)


def np_round(a, decimals=0):
    d = raw(decimals)
    if d == 0:
        return elementwise(lambda x: cast('f', r_round(x)) if kind_of(x) == 'f' else x, lambda k: k, a)
    s = Fraction(10) ** d
    return elementwise(lambda x: r_div(r_round(r_mul(x, s)), s), kf_float, a)


def real(a):
    if is_scalar(a):
        return wrap(cre(raw(a)))
    a = as_arr(a)
    return elementwise(cre, lambda k: 'f' if k == 'c' else k, a) if a.kind == 'c' else a


def imag(a):
    if is_scalar(a):
        return wrap(cim(raw(a)))
    a = as_arr(a)
    return elementwise(lambda x: cim(x) if isinstance(x, Cx) else Fraction(0), lambda k: 'f', a)


def conj(a):
    r = elementwise(lambda x: Cx(x.re, r_neg(x.im)) if isinstance(x, Cx) else x, lambda k: k, a)
    return r


def power(a, b):
    from .interp import binop
    return binop('**', a, b)


def isclose(a, b, rtol=1e-5, atol=1e-8):
    return elementwise(lambda x, y: r_cmp('<=', r_abs(r_sub(x, y)), r_add(raw(atol), r_mul(raw(rtol), r_abs(y)))), kf_bool, a, b)


def r_sinc(x):
    if _conc(x):
        if x == 0:
            return Fraction(1)
    px = r_mul(PI, x)
    return r_ite(r_cmp('==', x, 0), Fraction(1), r_div(r_fun('sin')(px), px))


def sign(a):
    return elementwise(lambda x: r_ite(r_cmp('>', x, 0), 1, r_ite(r_cmp('<', x, 0), -1, 0)), lambda k: k, a)


def isfinite(a):
    return elementwise(lambda x: r_not(V_.nancond(x)), kf_bool, a)


def isnan(a):
    return elementwise(lambda x: V_.nancond(x), kf_bool, a)


def meshgrid(*xs, indexing='xy', sparse=False):
    arrs = [as_arr(x) for x in xs]
    n = len(arrs)
    dims = [a.shape[0] for a in arrs]
    order = list(range(n))
    if indexing == 'xy' and n >= 2:
        order[0], order[1] = 1, 0
    shp = [dims[order[k]] for k in range(n)]
    out = []
    for q, a in enumerate(arrs):
        f = a.frozen()
        pos = order.index(q)
        out.append(Arr(shp, lambda idx, f=f, pos=pos: f((idx[pos],)), a.kind))
    return out


def indices(shape, dtype=None):
    shp = _shape(shape)
    fs = Arr((len(shp),) + tuple(shp), lambda idx: _pick(idx), 'i')
    return fs


def _pick(idx):
    if isinstance(idx[0], int):
        return idx[1 + idx[0]]
    r = idx[1]
    for k in range(1, len(idx) - 1):
        r = r_ite(r_cmp('==', idx[0], k), idx[1 + k], r)
    return r


class MGrid:
    def getitem(self, idx):
        if not isinstance(idx, tuple):
            axs = [mg_axis(canon_idx(idx))]
            return axs[0]
        axs = [mg_axis(canon_idx(i)) for i in idx]
        shp = [a.shape[0] for a in axs]
        fs = [a.frozen() for a in axs]
        k = kmax(*[a.kind for a in axs])

        def g(ix):
            if isinstance(ix[0], int):
                return cast(k, fs[ix[0]]((ix[1 + ix[0]],)))
            r = cast(k, fs[0]((ix[1],)))
            for q in range(1, len(fs)):
                r = r_ite(r_cmp('==', ix[0], q), cast(k, fs[q]((ix[1 + q],))), r)
            return r
        return Arr([len(axs)] + shp, g, k)


def mg_axis(s):
    a, b, c = s.a if s.a is not None else 0, s.b, s.c
    if isinstance(c, complex) or (isinstance(c, Sc) and isinstance(c.e, Cx)):
        n = raw(c).im if not isinstance(c, complex) else c.imag
        n = simp(n)
        if is_z3(n) and n.sort() == RL:
            n = dsimp(z3.simplify(z3.ToInt(n)))
        return linspace(a, b, num=wrap(n if is_z3(n) else int(n)))
    return arange(a, b, c if c is not None else 1)


def outer(a, b):
    return arr_binop('*', getitem(as_arr(a), (slice(None), None)), getitem(as_arr(b), (None, slice(None))))


def dot(a, b):
    a, b = as_arr(a), as_arr(b)
    fa, fb = a.frozen(), b.frozen()
    if a.ndim == 1 and b.ndim == 1:
        return wrap(raw_sum(lambda k: r_mul(fa((k,)), fb((k,))), [a.shape[0]]))
    if a.ndim == 2 and b.ndim == 1:
        return Arr((a.shape[0],), lambda i: raw_sum(lambda k: r_mul(fa((i[0], k)), fb((k,))), [a.shape[1]]), kf_arith(a.kind, b.kind))
    if a.ndim == 1 and b.ndim == 2:
        return Arr((b.shape[1],), lambda i: raw_sum(lambda k: r_mul(fa((k,)), fb((k, i[0]))), [b.shape[0]]), kf_arith(a.kind, b.kind))
    if a.ndim == 2 and b.ndim == 2:
        return Arr((a.shape[0], b.shape[1]), lambda i: raw_sum(lambda k: r_mul(fa((i[0], k)), fb((k, i[1]))), [a.shape[1]]), kf_arith(a.kind, b.kind))
    raise Unsupported('dot')


def pad(a, width, mode='constant', constant_values=0):
    a = as_arr(a)
    if is_scalar(width):
        width = [(width, width)] * a.ndim
    w = [(raw(p[0]), raw(p[1])) for p in ([width] * a.ndim if is_scalar(width[0]) else width)]
    f = a.frozen()
    shp = [dsimp(r_add(r_add(d, p), q)) for d, (p, q) in zip(a.shape, w)]
    if mode == 'wrap':
        return Arr(shp, lambda idx: f(tuple(simp(r_mod(r_sub(i, p), d)) for i, (p, q), d in zip(idx, w, a.shape))), a.kind)
    if mode == 'constant':
        c = cast(a.kind, raw(constant_values))

        def g(idx):
            js = [simp(r_sub(i, p)) for i, (p, q) in zip(idx, w)]
            ok = r_and(*[r_and(r_cmp('<=', 0, j), r_cmp('<', j, d)) for j, d in zip(js, a.shape)])
            return r_ite(ok, f(tuple(js)), c) if ok is not False else c
        return Arr(shp, g, a.kind)
    raise Unsupported('pad mode')


# ------------------------------------------------------------------ binning
def bin_edges(bins, rng, a):
    if is_scalar(bins):
        n = shape1(bins)
        if rng is None:
            lo, hi = np_min(a), np_max(a)
        else:
            lo, hi = rng[0], rng[1]
        return linspace(lo, hi, num=wrap(dsimp(r_add(n, 1))))
    return as_arr(bins)


def histogram(a, bins=10, range=None, density=None, weights=None):
    a = as_arr(a)
    e = bin_edges(bins, range, a)
    nb = dsimp(r_sub(e.shape[0], 1))
    a, f, wf, dims, mask = _flat_src(a, weights)
    ef = e.frozen()

    def g(idx):
        b = idx[0]
        lo, hi = ef((b,)), ef((simp(r_add(b, 1)),))
        last = r_cmp('==', b, dsimp(r_sub(nb, 1)))

        def term(*k):
            v = f(k)
            c = r_and(r_cmp('<=', lo, v), r_or(r_cmp('<', v, hi), r_and(last, r_cmp('==', v, hi))))
            if mask is not None:
                c = r_and(mask(k), c)
            w = 1 if wf is None else wf(k)
            return r_ite(c, w, 0 if kind_of(w) == 'i' else Fraction(0))
        return raw_sum(term, dims)
    h = Arr((nb,), g, 'i' if wf is None else 'f')
    if density:
        w = arr_binop('-', getitem(e, slice(1, None)), getitem(e, slice(None, -1)))
        tot = np_sum(h)
        h = arr_binop('/', arr_binop('/', h, w), tot)
    return h, e


def _flat_src(a, weights):
    """undo flatten so sums run over the original axes"""
    wf = None
    mask = None
    if a.sel is not None:
        s = a.sel
        f, dims, mask = s.val, s.shape, s.mask
        if weights is not None:
            w = as_arr(weights)
            if w.sel is None or w.sel.mkey != s.mkey:
                raise Unsupported('weights selection')
            wf = w.sel.val
        return a, f, wf, dims, mask
    base = a
    order = None
    if a.meta and a.meta[0] == 'flat':
        base, order = a.meta[1], a.meta[2]
    if weights is not None:
        w = as_arr(weights)
        if order is not None:
            if not (w.meta and w.meta[0] == 'flat' and w.meta[2] == order):
                base = a
            else:
                w = w.meta[1]
                wf = w.frozen()
                return a, base.frozen(), wf, base.shape, None
        wf = w.frozen()
        if not (len(w.shape) == len(base.shape)):
            raise Unsupported('weights shape')
    return a, base.frozen(), wf, base.shape, None


def digitize(x, bins, right=False):
    """bins increasing (precondition): number of edges <= x (right: < x)"""
    b = as_arr(bins)
    fb = b.frozen()
    op = '<' if right else '<='

    def one(v):
        return raw_sum(lambda k: num(r_cmp(op, fb((k,)), v)), [b.shape[0]])
    x_ = as_arr(x)
    r = elementwise(lambda v: one(v), lambda k: 'i', x_)
    if isinstance(r, Arr):
        r.meta = None
    return r


def split_by(e, n):
    """(A, B) with e == A*n + B, read off the sums and products of e"""
    k = e.decl().kind()
    if z3.eq(e, n):
        return z3.IntVal(1), z3.IntVal(0)
    if k == z3.Z3_OP_ADD:
        ps = [split_by(c, n) for c in e.children()]
        return z3.Sum([p[0] for p in ps]), z3.Sum([p[1] for p in ps])
    if k == z3.Z3_OP_SUB and e.num_args() == 2:
        a, b = [split_by(c, n) for c in e.children()]
        return a[0] - b[0], a[1] - b[1]
    if k == z3.Z3_OP_MUL:
        ch = e.children()
        for q, c in enumerate(ch):
            r = ch[:q] + ch[q + 1:]
            if z3.eq(c, n):
                return (z3.Product(r) if len(r) > 1 else r[0]), z3.IntVal(0)
        for q, c in enumerate(ch):
            if c.decl().kind() == z3.Z3_OP_ADD and len(ch) == 2 and z3.is_int_value(ch[1 - q]):
                a = split_by(c, n)
                return ch[1 - q] * a[0], ch[1 - q] * a[1]
    return z3.IntVal(0), e


def flat_eq(v, w, hyps):
    """v == w for two flattened positions A*n + B: row and column separately when both columns lie in [0, n)"""
    v, w = raw(v), raw(w)
    if not (is_z3(v) and is_z3(w)) or v.sort() != I or w.sort() != I:
        return r_cmp('==', v, w)
    st, seen, cands = [w], set(), []
    while st:
        e = st.pop()
        if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            st.extend(e.children())
        elif e.decl().kind() == z3.Z3_OP_MUL:
            cands += [c for c in e.children() if c.num_args() == 0 and not z3.is_int_value(c) and c.get_id() not in seen and not seen.add(c.get_id())]
    for n in cands:
        (a1, b1), (a2, b2) = split_by(v, n), split_by(w, n)
        if z3.is_int_value(z3.simplify(a1)) or z3.is_int_value(z3.simplify(a2)):
            continue
        s = CTX.push()
        try:
            for h in hyps:
                CTX.assume(zb(h))
            ok = CTX.entails(z3.And(b1 >= 0, b1 < n)) and CTX.entails(z3.And(b2 >= 0, b2 < n))
        except Infeasible:
            ok = True
        finally:
            CTX.pop(s)
        if ok:
            return z3.And(a1 == a2, b1 == b2)
    return r_cmp('==', v, w)


def bincount(x, weights=None, minlength=0):
    x = as_arr(x)
    x, f, wf, dims, mask = _flat_src(x, weights)
    ml = raw(minlength)
    n = fresh('nbins', I)
    CTX.add_fact(n >= z(num(ml)))

    def g(idx):
        def term(*k):
            hy = [z3.And(z(q) >= 0, z(q) < z(d)) for q, d in zip(k, dims)] + ([truth(mask(k))] if mask is not None else [])
            c = flat_eq(f(k), idx[0], [h for h in hy if is_z3(h)])
            if mask is not None:
                c = r_and(mask(k), c)
            w = 1 if wf is None else wf(k)
            return r_ite(c, w, 0 if kind_of(w) == 'i' else Fraction(0))
        return raw_sum(term, dims)
    mx = np_max(Arr(dims, f if mask is None else lambda k: r_ite(mask(k), f(k), -1), 'i'))
    n = dsimp(r_max(r_add(raw(mx), 1), num(ml)))
    return Arr((n,), g, 'i' if wf is None else 'f')


# ------------------------------------------------------------------ FFT
LINEAR_OPS.update({'FC', 'FS', 'FCi', 'FSi'})


def _fft_pair(f, dims, out, pre='F'):
    """(C, S): sum f(n) cos(2 pi k.n/N), sum f(n) sin(...)"""
    ks = [fresh('n', I) for _ in dims]
    b = zr(num(f(*ks)))
    return (op_app(pre + 'C', ks, b, dims, out), op_app(pre + 'S', ks, b, dims, out))


def fft_axes(a, axes, inverse=False, shape=None):
    a = as_arr(a)
    if a.sel is not None:
        raise Unsupported('fft of selection')
    if a.meta and a.meta[0] == 'freq' and inverse and a.meta[1] == tuple(axes) and not a.meta[3]:
        r = inv_freq(a)
        if r is not None:
            return r
    f = a.frozen()
    dims = [a.shape[k] for k in axes]
    rest = [k for k in range(a.ndim) if k not in axes]

    def g(idx):
        out = [idx[k] for k in axes]

        def full_(ns):
            o = list(idx)
            for k, n in zip(axes, ns):
                o[k] = n
            return tuple(o)
        C, S = _fft_pair(lambda *n: cre(f(full_(n))), dims, out)
        re, im = C, r_neg(S)                       # F(x) = C - iS
        if a.kind == 'c':
            C2, S2 = _fft_pair(lambda *n: cim(f(full_(n))), dims, out)
            if not inverse:
                re, im = r_add(C, S2), r_sub(C2, S)   # (C-iS) + i(C2-iS2)
            else:
                re, im = r_sub(C, S2), r_add(C2, S)   # (C+iS)+i(C2+iS2)
        elif inverse:
            im = S
        if inverse:
            n = prod(dims)
            re, im = r_div(re, n), r_div(im, n)
        return Cx(re, im)
    r = Arr(a.shape, g, 'c')
    if not inverse:
        r.meta = ('freq', tuple(axes), [(Fraction(1), [a.copy()])], None)
    return r


def combine_meta(op, a, b, r):
    ma = a.meta if isinstance(a, Arr) else None
    mb = b.meta if isinstance(b, Arr) else None
    fa, fb = ma and ma[0] in ('freq', 'half'), mb and mb[0] in ('freq', 'half')
    if fa and fb and ma[:2] == mb[:2]:
        if op == '*':
            r.meta = (ma[0], ma[1], [(r_mul(c1, c2), x1 + x2) for c1, x1 in ma[2] for c2, x2 in mb[2]], ma[3] or mb[3])
        elif op in '+-' :
            s = 1 if op == '+' else -1
            r.meta = (ma[0], ma[1], ma[2] + [(r_mul(s, c), x) for c, x in mb[2]], ma[3] or mb[3])
    elif (fa and is_scalar(b)) or (fb and is_scalar(a)):
        m, o = (ma, b) if fa else (mb, a)
        c0 = raw(o)
        if isinstance(c0, Cx):
            return
        if op == '*':
            r.meta = (m[0], m[1], [(r_mul(c, c0), x) for c, x in m[2]], m[3])
        elif op == '/' and fa:
            r.meta = (m[0], m[1], [(r_div(c, c0), x) for c, x in m[2]], m[3])


LINEAR_OPS.add('Conv')


def inv_freq(a):
    """ifft of a linear combination of products of transforms: identity / circular convolution"""
    _, axes, terms, _m = a.meta
    out = None
    for c, xs in terms:
        if len(xs) == 1:
            t = xs[0]
        elif len(xs) == 2:
            t = circ_conv(xs[0], xs[1], axes)
        else:
            return None
        if not (_conc(c) and c == 1):
            t = elementwise(lambda x, c=c: r_mul(c, x), lambda k: k, t)
        out = t if out is None else arr_binop('+', out, t)
    return astype(out, C128)


def circ_conv(x, y, axes):
    """(x (*) y)(k) = sum_m x(m) y((k-m) mod N) over axes.  Requires equal shapes."""
    for k in range(x.ndim):
        if not dim_same(x.shape[k], y.shape[k]):
            raise PyExc('ValueError', 'shapes')
    dims = [x.shape[k] for k in axes]
    fx, fy = x.frozen(), y.frozen()

    def g(idx):
        def term(*m):
            i1, i2 = list(idx), list(idx)
            for q, k in enumerate(axes):
                i1[k] = m[q]
                i2[k] = simp(r_mod(r_sub(idx[k], m[q]), dims[q]))
            return r_mul(fx(tuple(i1)), fy(tuple(i2)))
        return raw_sum(term, dims)
    r = Arr(x.shape, g, kmax(x.kind, y.kind))
    r.meta = ('circ', x, y, tuple(axes))
    return r


def _resize(a, axes, s):
    """numpy's s= argument: crop or pad with zeros at the end along the transformed axes"""
    s = [raw(x) for x in (s.iter_model() if hasattr(s, 'iter_model') else list(s.tolist() if isinstance(s, Arr) else s))]
    if len(s) != len(axes):
        raise Unsupported('fft sizes')
    if all(dim_same(a.shape[k], d) for k, d in zip(axes, s)):
        return a
    f, old, shp = a.frozen(), list(a.shape), list(a.shape)
    for k, d in zip(axes, s):
        shp[k] = d

    def g(idx):
        c = True
        for k in axes:
            if not dim_same(shp[k], old[k]):
                c = r_and(c, r_cmp('<', idx[k], old[k]))
        v = f(tuple(idx))
        return Cx(r_ite(c, v.re, 0), r_ite(c, v.im, 0)) if isinstance(v, Cx) else r_ite(c, v, 0)
    return Arr(shp, g, a.kind)


def _fft(nax, inverse, half=False):
    def g(a, s=None, axes=None, norm=None, n=None, axis=None):
        if norm is not None or n is not None:
            raise Unsupported('fft keyword')
        a = as_arr(a)
        if axis is not None:
            ax = _axes(axis, a.ndim)
        elif axes is not None:
            ax = _axes(axes, a.ndim)
        elif nax is None:
            ax = list(range(a.ndim))
        else:
            ax = list(range(a.ndim - nax, a.ndim))
        if half:
            return half_inverse(a, s, ax) if inverse else half_forward(a, s, ax)
        if a.meta and a.meta[0] == 'half':
            raise Unsupported('full transform of a half spectrum')
        if s is not None:
            if inverse and a.meta:
                s = [raw(x) for x in s]
                if not all(dim_same(a.shape[k], d) for k, d in zip(ax, s)):
                    raise Unsupported('inverse transform of another size')
            else:
                a = _resize(a, ax, s)
        return fft_axes(a, ax, inverse)
    return g


def half_forward(a, s, ax):
    """rfftn: the non-negative frequencies along the last transformed axis"""
    if a.kind == 'c':
        raise PyExc('TypeError', 'rfftn takes real input')
    if s is not None:
        a = _resize(a, ax, s)
    r = fft_axes(a, ax)
    shp = list(r.shape)
    n = shp[ax[-1]]
    shp[ax[-1]] = n // 2 + 1 if isinstance(n, int) else dsimp(n / 2 + 1)
    h = Arr(shp, r.frozen(), 'c')
    h.meta = ('half', tuple(ax), r.meta[2], None)
    return h


def half_inverse(a, s, ax):
    """irfftn of products of such spectra: the real signal, or its circular convolution"""
    if not a.meta or a.meta[0] != 'half' or a.meta[1] != tuple(ax) or a.meta[3]:
        raise Unsupported('irfftn of a general spectrum')
    src = a.meta[2][0][1][0]
    if s is None:
        raise Unsupported('irfftn without sizes')
    s = [raw(x) for x in s]
    if not all(dim_same(src.shape[k], d) for k, d in zip(ax, s)):
        raise Unsupported('irfftn to another size')
    t = Arr(src.shape, a.frozen(), 'c')
    t.meta = ('freq',) + a.meta[1:]
    r = inv_freq(t)
    if r is None:
        raise Unsupported('irfftn of more than two factors')
    return real(r)


def fftshift(a, axes=None, sgn=1):
    a = as_arr(a)
    ax = list(range(a.ndim)) if axes is None else _axes(axes, a.ndim)
    sh = []
    for k in ax:
        d = a.shape[k]
        h = dsimp(r_fdiv(d, 2)) if not is_z3(d) else dsimp(d / 2)
        sh.append(wrap(h if sgn > 0 else r_neg(h)))
    return roll(a, tuple(sh), tuple(ax))


def fftfreq(n, d=1.0):
    n = shape1(n)
    d = raw(d)

    def g(idx):
        i = idx[0]
        half = dsimp(r_fdiv(r_sub(n, 1), 2)) if not is_z3(n) else dsimp((n - 1) / 2)
        k = r_ite(r_cmp('<=', i, half), i, r_sub(i, n))
        return r_div(cast('f', k), r_mul(n, d))
    return Arr((n,), g, 'f')


# ------------------------------------------------------------------ misc
def unique(a, return_index=False, return_inverse=False, return_counts=False):
    """assumed contract of numpy: the distinct values in increasing order, the position of every entry among them"""
    a = as_arr(a)
    if a.sel is not None or return_index or a.kind == 'c':
        raise Unsupported('unique of a selection')
    f, dims = a.frozen(), tuple(a.shape)
    n = prod(dims)
    bs = [z3.Int('unique!b%d' % i) for i in range(len(dims))]
    body = num(f(tuple(bs)))
    integer = a.kind != 'f'
    body = z(body) if integer else zr(body)
    key = ('unique', body.get_id()) + tuple(z(d).get_id() for d in dims)
    new = key not in CTX.sorts
    if new:
        CTX.sorts[key] = (len(CTX.sorts), body)
    t = CTX.sorts[key][0]
    U = z3.Int('unique!n%d' % t)
    u = fn('unique!u%d' % t, I, I if integer else RL)
    pos = fn('unique!pos%d' % t, *([I] * (len(dims) + 1)))
    ws = [fn('unique!w%d.%d' % (t, i), I, I) for i in range(len(dims))]
    val = (lambda ix: z(num(f(tuple(ix))))) if integer else (lambda ix: zr(num(f(tuple(ix)))))
    if new:
        CTX.add_fact(z3.And(U >= 0, U <= z(n), (U == 0) == (z(n) <= 0)))
        CTX.ghosts.append((dims, lambda *ix: z3.And(pos(*[z(i) for i in ix]) >= 0, pos(*[z(i) for i in ix]) < U, u(pos(*[z(i) for i in ix])) == val(ix))))
        CTX.ghosts.append(((U,), lambda k: z3.And(val([w(z(k)) for w in ws]) == u(z(k)), *[z3.And(w(z(k)) >= 0, w(z(k)) < z(d)) for w, d in zip(ws, dims)])))
        CTX.ghosts.append(((U, U), lambda k, l: z3.Implies(z(k) < z(l), u(z(k)) < u(z(l)))))
    out = [Arr((U,), lambda ix: u(z(ix[0])), a.kind)]
    out[0].meta = ('unique', key)
    if return_inverse:
        out.append(Arr(dims, lambda ix: pos(*[z(i) for i in ix]), 'i'))
    if return_counts:
        out.append(Arr((U,), lambda k: raw_sum(lambda *ix: r_ite(val(ix) == u(z(k[0])), 1, 0), dims), 'i'))
        out[-1].meta = ('counts', key, lambda v: raw_sum(lambda *ix: r_ite(r_cmp('==', val(ix), v), 1, 0), dims))
    return out[0] if len(out) == 1 else tuple(out)


def argmin(a, axis=None):
    return _arg('Min', a, axis)


def argmax(a, axis=None):
    return _arg('Max', a, axis)


def _arg(which, a, axis):
    a = as_arr(a)
    if a.ndim != 1 or (axis not in (None, 0, -1)) or a.sel is not None:
        raise Unsupported('argmin of nd array')
    f = a.frozen()
    n = a.shape[0]
    if isinstance(n, int):
        if n == 0:
            raise PyExc('ValueError', 'empty')
        best, bi = f((0,)), 0
        for i in range(1, n):
            v = f((i,))
            c = r_cmp('<' if which == 'Min' else '>', v, best)
            best, bi = r_ite(c, v, best), r_ite(c, i, bi)
        return wrap(bi)
    if not CTX.decide(n > 0):
        raise PyExc('ValueError', 'empty')
    ks = [fresh('k', I)]
    m = op_app('Arg' + which, ks, zr(num(f((ks[0],)))), [n])
    if CTX.xbase is None:
        key = sym.pkey(canon(m))
        if key in CTX.extc:
            return wrap(CTX.extc[key])
        mi = CTX.extc[key] = fresh('arg', I)
        CTX.add_fact(z3.And(mi >= 0, mi < n))
    else:
        mi = z3.ToInt(m)
        CTX.add_fact(z3.And(mi >= 0, mi < n, z3.ToReal(mi) == m))
    v = f((mi,))
    CTX.ghosts.append(((n,), lambda i: r_cmp('<=' if which == 'Min' else '>=', v, f((i,)))))
    CTX.ghosts.append(((n,), lambda i: r_or(r_cmp('>=', i, mi), r_cmp('<' if which == 'Min' else '>', v, f((i,))))))
    return wrap(mi)


def searchsorted(a, v, side='left', sorter=None):
    """position kept by the binary search of numpy: everything it has looked at below lies below, what it has looked at above does not;
    a function of the array and the value"""
    a = as_arr(a)
    if a.ndim != 1 or sorter is not None or a.sel is not None or side not in ('left', 'right'):
        raise Unsupported('searchsorted')
    f = a.frozen()
    n = a.shape[0]
    op = '<' if side == 'left' else '<='

    def one(x):
        x = num(x)
        ks = [fresh('k', I)]
        m = op_app('Pos' + side, ks, zr(num(f((ks[0],)))), [z(n)], [zr(x)])
        if CTX.xbase is None:
            key = sym.pkey(canon(m))
            if key in CTX.extc:
                return CTX.extc[key]
            i = CTX.extc[key] = fresh('pos', I)
        else:
            i = z3.ToInt(m)
            CTX.add_fact(z3.ToReal(i) == m)
        CTX.add_fact(z3.And(i >= 0, i <= z(n)))
        CTX.add_fact(z3.Or(i == 0, zb(r_cmp(op, f((simp(i - 1),)), x))))
        CTX.add_fact(z3.Or(i == z(n), z3.Not(zb(r_cmp(op, f((i,)), x)))))
        return i
    v = as_arr(v) if isinstance(v, (list, tuple, SymSeq)) else v
    if isinstance(v, Arr):
        if v.ndim != 1 or not isinstance(v.shape[0], int) or v.shape[0] > 4 or v.sel is not None:
            raise Unsupported('searchsorted of many values')
        vals = {(i,): one(v.get((i,))) for i in range(v.shape[0])}
        return Arr(v.shape, table_fn(vals, v.shape), 'i')
    return wrap(one(raw(v)))


def np_sort(a, axis=-1):
    a = as_arr(a)
    if a.ndim == 1 and isinstance(a.shape[0], int) and a.shape[0] <= 6:
        vals = [a.get((i,)) for i in range(a.shape[0])]
        vals = bubble(vals)
        return Arr(a.shape, table_fn({(i,): v for i, v in enumerate(vals)}, a.shape), a.kind)
    if a.ndim == 1 and a.sel is None:
        return getitem(a, argsort(a))
    if a.ndim > 1 and axis is None:
        return np_sort(reshape(a, -1))
    raise Unsupported('sort of nd array')


def bubble(vals):
    vals = list(vals)
    n = len(vals)
    for i in range(n):
        for j in range(n - 1 - i):
            lo, hi = r_min(vals[j], vals[j + 1]), r_max(vals[j], vals[j + 1])
            vals[j], vals[j + 1] = lo, hi
    return vals


def argsort(a, axis=-1, kind=None):
    a = as_arr(a)
    if a.ndim == 1 and isinstance(a.shape[0], int) and a.shape[0] <= 5:
        vals = [a.get((i,)) for i in range(a.shape[0])]
        order = []
        for i, v in enumerate(vals):      # insertion with decisions
            p = len(order)
            while p > 0 and CTX.decide(r_cmp('<', v, vals[order[p - 1]])):
                p -= 1
            order.insert(p, i)
        return list_to_arr(order)
    if a.ndim != 1 or a.sel is not None:
        raise Unsupported('argsort of nd array')
    # assumed contract of numpy: a permutation that sorts, a function of the array only
    n = a.shape[0]
    f = a.frozen()
    b = z3.Int('argsort!b')
    body = zr(num(f((b,))))
    key = (body.get_id(), z(n).get_id())
    if key not in CTX.sorts:
        k = fresh('k', I)
        st = CTX.push()
        try:
            CTX.assume(z3.And(k >= 0, k + 1 < z(n)))
            from .prove import smt as smt_
            up = smt_(zb(r_cmp('<', f((k,)), f((simp(k + 1),)))), [k, k + 1], (), 1, 1500, quick=True).status == 'proved'
        except Infeasible:
            up = True
        finally:
            CTX.pop(st)
        CTX.sorts[key] = (up, body)
    if CTX.sorts[key][0]:
        return Arr((n,), lambda idx: idx[0], 'i')

    def P(i):
        return z3.ToInt(op_app('Argsort', [b], body, [z(n)], [z(i)]))
    if CTX.sorts[key][0] is None:
        return Arr((n,), lambda idx: P(idx[0]), 'i')
    CTX.sorts[key] = (None, body)

    def Q(i):
        return z3.ToInt(op_app('ArgsortInv', [b], body, [z(n)], [z(i)]))
    CTX.ghosts.append(((n,), lambda i: z3.And(P(i) >= 0, P(i) < z(n), Q(i) >= 0, Q(i) < z(n), P(Q(i)) == z(i), Q(P(i)) == z(i))))
    CTX.ghosts.append(((n, n), lambda i, j: z3.Implies(z3.And(z(i) <= z(j)), zb(r_cmp('<=', f((P(i),)), f((P(j),)))))))
    return Arr((n,), lambda idx: P(idx[0]), 'i')


class NS:
    def __init__(self, name, d):
        self.name, self.d = name, d


def unsupported(name):
    def f(*a, **k):
        raise Unsupported('numpy.' + name)
    return f


class Err:
    def __init__(self, *a, **k):
        pass


def nan_to_num(a, *r, **k):
    return a


def result_type(*a):
    ks = [x.kind if isinstance(x, (DT, Arr)) else dt(x).kind for x in a]
    return F64 if 'f' in ks and 'c' not in ks else C128 if 'c' in ks else I64 if 'i' in ks else BOOL


def make_np():
    d = dict(
        result_type=result_type,
        zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like, full_like=full_like, empty_like=empty_like,
        array=array, asarray=asarray, atleast_1d=atleast_1d, searchsorted=searchsorted, copy=copy, linspace=linspace, arange=arange,
        sum=np_sum, mean=np_mean, var=np_var, std=np_std, prod=np_prod, max=np_max, amax=np_max, min=np_min, amin=np_min,
        any=np_any, all=np_all, cumsum=cumsum, trapezoid=trapezoid, trapz=unsupported('trapz (removed)'), diff=diff,
        swapaxes=swapaxes, transpose=transpose, moveaxis=moveaxis, squeeze=squeeze, expand_dims=expand_dims, flip=flip, rot90=rot90, roll=roll,
        reshape=reshape, ravel=ravel, concatenate=concatenate, hstack=hstack, vstack=vstack, column_stack=column_stack, stack=stack,
        append=append, insert=insert, tile=tile, repeat=repeat, broadcast_to=broadcast_to, where=where, argwhere=argwhere, clip=clip,
        sqrt=sqrt, exp=uf(r_fun('exp')), log=uf(r_fun('log')), log10=uf(r_log10), sin=uf(r_fun('sin')), cos=uf(r_fun('cos')), tan=uf(r_fun('tan')),
        arctan=uf(r_fun('arctan')), arcsin=uf(r_fun('arcsin')), arccos=uf(r_fun('arccos')), sinh=uf(r_fun('sinh')), cosh=uf(r_fun('cosh')), tanh=uf(r_fun('tanh')),
        log2=uf(r_fun('log2')), cbrt=uf(r_fun('cbrt')), arctan2=uf2(lambda a, b: fn('arctan2', RL, RL, RL)(zr(a), zr(b)), kf_float),
        abs=np_abs, absolute=np_abs, fabs=np_abs, maximum=maximum, minimum=minimum, floor=uf(r_float_floor), ceil=uf(lambda x: cast('f', r_ceil(x))),
        round=np_round, around=np_round, rint=np_round, real=real, imag=imag, conj=conj, conjugate=conj, power=power, square=uf(lambda x: r_mul(x, x), kf_arith),
        isclose=isclose, sinc=uf(r_sinc), sign=sign, isfinite=isfinite, isnan=isnan, meshgrid=meshgrid, indices=indices, mgrid=MGrid(), outer=outer, dot=dot, matmul=dot, pad=pad,
        dtype=lambda x, *a, **k: dt(x), histogram=histogram, digitize=digitize, bincount=bincount, argmin=argmin, argmax=argmax, sort=np_sort, argsort=argsort, unique=unique,
        multiply=uf2(r_mul, kf_arith_b), add=uf2(r_add, kf_arith_b), subtract=uf2(r_sub, kf_arith), divide=uf2(r_div, kf_float), true_divide=uf2(r_div, kf_float),
        greater=uf2(lambda a, b: r_cmp('>', a, b), kf_bool), less=uf2(lambda a, b: r_cmp('<', a, b), kf_bool),
        greater_equal=uf2(lambda a, b: r_cmp('>=', a, b), kf_bool), less_equal=uf2(lambda a, b: r_cmp('<=', a, b), kf_bool), equal=uf2(lambda a, b: r_cmp('==', a, b), kf_bool),
        logical_and=uf2(r_and, kf_bool), logical_or=uf2(r_or, kf_bool), logical_not=uf(r_not, kf_bool), invert=uf(r_not, kf_bool),
        radians=uf(lambda x: r_div(r_mul(x, PI), 180)), deg2rad=uf(lambda x: r_div(r_mul(x, PI), 180)), rad2deg=uf(lambda x: r_div(r_mul(x, 180), PI)), degrees=uf(lambda x: r_div(r_mul(x, 180), PI)),
        iscomplexobj=lambda a: (as_arr(a).kind == 'c'), isrealobj=lambda a: as_arr(a).kind != 'c', isscalar=lambda a: is_scalar(a) and not isinstance(a, Arr) or isinstance(a, str),
        size=lambda a: wrap(prod(as_arr(a).shape)), ndim=lambda a: as_arr(a).ndim, shape=lambda a: tuple(wrap(d) for d in as_arr(a).shape),
        nan_to_num=nan_to_num, array_equal=lambda a, b: np_all(arr_binop('==', as_arr(a), as_arr(b))),
        pi=Sc(PI), newaxis=None, inf=INF, ndarray=NDARRAY, float64=F64, float32=F32, int32=I32, int64=I64, bool_=BOOL, complex128=C128, uint32=I64, int8=I64, uint8=I64, int16=I64,
        nan=NAN, errstate=Err, float_=F64, floating=TypeV('floating', lambda v: kind_of(raw(v)) == 'f' if is_scalar(v) else False),
        integer=TypeV('integer', lambda v: False),
        fft=NS('numpy.fft', dict(fftn=_fft(None, False), fft2=_fft(2, False), fft=_fft(1, False), rfftn=_fft(None, False, True), irfftn=_fft(None, True, True), rfft2=_fft(2, False, True), irfft2=_fft(2, True, True), ifftn=_fft(None, True), ifft2=_fft(2, True), ifft=_fft(1, True),
                                 fftshift=lambda a, axes=None: fftshift(a, axes, 1), ifftshift=lambda a, axes=None: fftshift(a, axes, -1), fftfreq=fftfreq)),
        linalg=NS('numpy.linalg', {}), random=NS('numpy.random', {}),
    )
    return NS('numpy', d)


class Special:
    """inf / nan: comparisons with inf are decided, anything else is unsupported"""
    def __init__(self, name):
        self.name = name


INF, NAN = Special('inf'), Special('nan')
