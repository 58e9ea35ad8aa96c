from pyded.kit import contract
from contracts.common import *

AXES = [2, 0, 1, -1, -3, -2]


def slice_sum(T, a, shp, ax, i):
    o = [d for k, d in enumerate(shp) if k != ax]
    return T.sum(o, lambda p, q: T.at(a, *([p, q][:ax] + [i] + [p, q][ax:])))


@contract('P06', ['statistics.subtract_mean_signal'], frame=True)
def mean_subtracted(T):
    shp = shape3(T)
    a = T.array('signal', shp)
    axis = T.choice('los_axis', AXES)
    ax = axis % 3
    r = T.call('statistics.subtract_mean_signal', a, axis)
    if T.frame:
        return
    o = [d for k, d in enumerate(shp) if k != ax]
    n = o[0] * o[1]
    T.forall('each voxel of a slice changes by the slice mean', shp,
             lambda i, j, k: ('eq', T.at(a, i, j, k) - T.at(r, i, j, k), slice_sum(T, a, shp, ax, (i, j, k)[ax]) / n, 1e-9))
    T.forall('zero mean in every slice', (shp[ax],), lambda i: ('eq', slice_sum(T, r, shp, ax, i), 0.0 * T.at(a, 0, 0, 0), 1e-8))
    T.ensure_eq('same shape', T.np.zeros(T.shape(r)), T.np.zeros(shp))
    T.ensure_eq('idempotent', T.call('statistics.subtract_mean_signal', r, axis), r, atol=1e-9)


@contract('P06', ['statistics.subtract_mean_signal'])
def mean_subtracted_default(T):
    shp = shape3(T)
    a = T.array('signal', shp)
    T.ensure_eq('the last axis is the default line of sight', T.call('statistics.subtract_mean_signal', a), T.call('statistics.subtract_mean_signal', a, 2))


@contract('P06', ['statistics.signal_overdensity'], frame=True)
def overdensity(T):
    shp = shape3(T)
    a = T.array('signal', shp, gt=0, gen=(0.1, 5))
    axis = T.choice('los_axis', AXES)
    ax = axis % 3
    r = T.call('statistics.signal_overdensity', a, axis)
    if T.frame:
        return
    o = [d for k, d in enumerate(shp) if k != ax]
    T.forall('signal over the slice mean minus one', shp,
             lambda i, j, k: ('eq', (T.at(r, i, j, k) + 1) * slice_sum(T, a, shp, ax, (i, j, k)[ax]), T.at(a, i, j, k) * (o[0] * o[1]), 1e-8))


@contract('P06', ['statistics.mass_weighted_mean_xi'], frame=True)
def mass_weighted(T):
    shp = shape3(T)
    lo = T.real('lo', lo=0, hi=1)
    hi = T.real('hi', lo=0, hi=1)
    T.assume(lo <= hi)
    xi = T.array('xi', shp, lo=lo, hi=hi, gen=(lo, hi) if not T.sym else None)
    rho = T.array('rho', shp, gt=0, gen=(0.1, 5))
    m = T.call('statistics.mass_weighted_mean_xi', xi, rho)
    W = T.sum(shp, lambda i, j, k: T.at(rho, i, j, k))
    T.ensure_eq('density-weighted average', m * W, T.sum(shp, lambda i, j, k: T.at(rho, i, j, k) * T.at(xi, i, j, k)))
    if T.frame:
        return
    T.ensure_le('not below the smallest fraction', lo * W, T.sum(shp, lambda i, j, k: T.at(rho, i, j, k) * T.at(xi, i, j, k)))
    T.ensure_le('not above the largest fraction', T.sum(shp, lambda i, j, k: T.at(rho, i, j, k) * T.at(xi, i, j, k)), hi * W)


@contract('P06', ['statistics.mass_weighted_mean_xi'])
def mass_weighted_types(T):
    """binary or integer fractions, any number of dimensions"""
    n = T.int('n', 1, gen=(1, 6))
    xi = T.array('xi', (n,), kind=T.choice('kind', ['b', 'i']), lo=0, hi=1, gen=(0, 1))
    rho = T.array('rho', (n,), kind='i', lo=1, gen=(1, 9))
    m = T.call('statistics.mass_weighted_mean_xi', xi, rho)
    T.ensure_eq('density-weighted average', m * T.sum((n,), lambda i: T.at(rho, i) * 1.0), T.sum((n,), lambda i: T.at(rho, i) * 1.0 * T.at(xi, i)))


@contract('P06', ['statistics.apply_func_along_los', 'statistics._get_slice'], frame=True)
def along_los(T):
    shp = shape3(T)
    a = T.array('signal', shp)
    ax = T.choice('los_axis', [0, 1, 2])
    which = T.choice('func', ['mean', 'max', 'sum'])
    f = {'mean': T.np.mean, 'max': T.np.max, 'sum': T.np.sum}[which]
    r = T.call('statistics.apply_func_along_los', a, f, ax)
    if T.frame:
        return
    o = [d for k, d in enumerate(shp) if k != ax]
    T.ensure_eq('one number per slice', T.np.zeros(T.shape(r)), T.np.zeros((shp[ax],)))
    if which == 'max':
        at = lambda i, p, q: T.at(a, *([p, q][:ax] + [i] + [p, q][ax:]))
        T.forall('not below any voxel of the slice', (shp[ax], o[0], o[1]), lambda i, p, q: ('le', at(i, p, q), T.at(r, i)))
        if not T.sym:
            T.forall('attained in the slice', (shp[ax],), lambda i: T.exists(o, lambda p, q: at(i, p, q) == T.at(r, i)))
        return
    n = 1 if which == 'sum' else o[0] * o[1]
    T.forall('the function of each slice in order', (shp[ax],), lambda i: ('eq', T.at(r, i) * n, slice_sum(T, a, shp, ax, i), 1e-9))


@contract('P06', ['statistics.skewness', 'statistics.kurtosis'], frame=True)
def moments(T):
    n = T.int('n', 2, gen=(3, 30))
    x = T.array('x', (n,), plain=True)
    s0 = T.call('statistics.skewness', x)
    k0 = T.call('statistics.kurtosis', x)
    if T.frame:
        return
    mean = T.sum((n,), lambda i: T.at(x, i)) / n
    m2 = T.sum((n,), lambda i: (T.at(x, i) - mean) * (T.at(x, i) - mean)) / (n - 1)
    T.assume(m2 > 0 if T.sym else m2 > 1e-4)
    m3 = T.sum((n,), lambda i: (T.at(x, i) - mean) * (T.at(x, i) - mean) * (T.at(x, i) - mean)) / n
    m4 = T.sum((n,), lambda i: (T.at(x, i) - mean) * (T.at(x, i) - mean) * (T.at(x, i) - mean) * (T.at(x, i) - mean)) / n
    T.ensure_eq('third moment over the variance to 3/2', s0 * m2 * T.np.sqrt(m2), m3, atol=1e-8)
    T.ensure_eq('fourth moment over the variance squared', k0 * m2 * m2, m4, atol=1e-8)


@contract('P06', ['statistics.skewness', 'statistics.kurtosis'], frame=True, budget=60)
def moments_invariant(T):
    nx, ny = T.int('nx', 2, gen=(2, 6)), T.int('ny', 1, gen=(1, 6))
    x = T.array('x', (nx, ny), plain=True)
    b = T.real('shift', gen=(-5, 5))
    y = x + b
    for f in ('skewness', 'kurtosis'):
        T.ensure_eq(f + ' does not see a shift', T.call('statistics.' + f, y), T.call('statistics.' + f, x), rtol=1e-5, atol=1e-6)
    if T.sym or not T.frame:
        v = T.np.var(x)
        T.assume(v > 0 if T.sym else v > 1e-2)
    c = T.real('scale', gt=0, gen=(0.1, 9))
    for f in ('skewness', 'kurtosis'):
        T.ensure_eq(f + ' does not see a positive scale', T.call('statistics.' + f, x * c), T.call('statistics.' + f, x), rtol=1e-5, atol=1e-6)
