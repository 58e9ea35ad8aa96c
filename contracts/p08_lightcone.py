from pyded.kit import contract
from contracts.common import *


def at_axis(T, a, ax, s, p, q, *pre):
    """voxel (p, q) of the slice s along axis ax"""
    ix = [p, q]
    ix.insert(ax, s)
    return T.at(a, *(list(pre) + ix))


@contract('P08', ['lightcone._get_slice'], frame=True)
def slice_of(T):
    n = T.int('n', 2, gen=(2, 5))
    vec = T.choice('vector', [False, True])
    a = T.array('data', ((3, n, n, n) if vec else (n, n, n)))
    ax = T.choice('los_axis', [0, 1, 2])
    s = T.int('index', 0, gen=(0, 4))
    T.assume(s < n)
    r = T.call('lightcone._get_slice', a, s, ax)
    if T.frame:
        return
    if vec:
        T.forall('vector slice', (3, n, n), lambda c, p, q: ('eq', T.at(r, c, p, q), at_axis(T, a, ax, s, p, q, c)))
    else:
        T.forall('slice', (n, n), lambda p, q: ('eq', T.at(r, p, q), at_axis(T, a, ax, s, p, q)))
    T.ensure_eq('shape', T.np.zeros(T.shape(r)), T.np.zeros((3, n, n) if vec else (n, n)))


def weight(T, mode, z, zl, zh):
    """weight of the upper cube"""
    if mode == 'linear':
        return (z - zl) / (zh - zl)
    if mode == 'step':
        return T.ite(z < (zl + zh) / 2, 0.0, 1.0)
    return 1. / (1. + T.np.exp(-2. * (-10. + 20. * (z - zl) / (zh - zl))))


@contract('P08', ['lightcone._get_interp_slice', 'lightcone._get_slice'], frame=True)
def slice_between(T):
    n = T.int('n', 2, gen=(2, 5))
    vec = T.choice('vector', [False, True])
    shp = (3, n, n, n) if vec else (n, n, n)
    hi, lo = T.array('high', shp), T.array('low', shp)
    ax = T.choice('los_axis', [0, 1, 2])
    mode = T.choice('interpolation', ['linear', 'step', 'sigmoid'])
    k = T.int('position', 0, gen=(0, 30))
    zl = T.real('z_low', lo=0, gen=(6, 9))
    zh = zl + T.real('width', gt=0, gen=(0.1, 2))
    z = zl + (zh - zl) * T.real('fraction', lo=0, hi=1)
    r = T.call('lightcone._get_interp_slice', hi, lo, zh, zl, z, k, ax, mode)
    if T.frame:
        return
    w = weight(T, mode, z, zl, zh)
    if not T.sym and mode == 'step':
        T.apart(z, (zl + zh) / 2)
    s = k % n
    v = lambda *pre: (lambda p, q: ('eq', T.at(r, *(pre + (p, q))), w * at_axis(T, hi, ax, s, p, q, *pre) + (1 - w) * at_axis(T, lo, ax, s, p, q, *pre), 1e-6))
    if vec:
        T.forall('weighted pair of slices', (3, n, n), lambda c, p, q: v(c)(p, q))
    else:
        T.forall('weighted pair of slices', (n, n), v())


@contract('P08', ['lightcone._get_interp_slice'])
def exact_at_cubes(T):
    n = T.int('n', 2, gen=(2, 5))
    hi, lo = T.array('high', (n, n, n)), T.array('low', (n, n, n))
    ax = T.choice('los_axis', [0, 1, 2])
    mode = T.choice('interpolation', ['linear', 'step'])
    k = T.int('position', 0, gen=(0, 30))
    zl = T.real('z_low', lo=0, gen=(6, 9))
    zh = zl + T.real('width', gt=0, gen=(0.1, 2))
    T.ensure_eq('the lower cube at its redshift', T.call('lightcone._get_interp_slice', hi, lo, zh, zl, zl, k, ax, mode), T.call('lightcone._get_slice', lo, k % n, ax), atol=1e-9)
    T.ensure_eq('the upper cube at its redshift', T.call('lightcone._get_interp_slice', hi, lo, zh, zl, zh, k, ax, mode), T.call('lightcone._get_slice', hi, k % n, ax), atol=1e-9)


GRID = {}


def grid_contract():
    """callee contract of _get_output_z (its definition is verified under P09): redshifts within the range of the files"""
    return {'lightcone._get_output_z': lambda w, fv, args, kw: GRID['z']}


def brackets(T, fz, K, oz, N):
    """ghost functions: the bracket of every output redshift"""
    lo, hi = T.ghost('lo', 1), T.ghost('hi', 1)
    T.given((N,), lambda i: T.land(lo(i) >= 0, lo(i) < K, hi(i) >= 0, hi(i) < K, T.at(fz, lo(i)) <= T.at(oz, i), T.at(oz, i) <= T.at(fz, hi(i)), T.at(fz, lo(i)) < T.at(fz, hi(i))))
    # nothing in between, and the lower end belongs to the bracket (the upper one only for the last)
    T.given((N, K), lambda i, k: T.lor(T.at(fz, k) <= T.at(fz, lo(i)), T.at(fz, k) >= T.at(fz, hi(i))))
    T.given((N, K), lambda i, k: T.imp(T.at(oz, i) >= T.at(fz, hi(i)), T.at(fz, k) <= T.at(fz, hi(i))))
    return lo, hi


def bracket_of(T, fz, z):
    np = T.np
    fz = np.asarray(fz)
    up = fz[fz > z]
    hi = up.min() if up.size else fz.max()
    lo = fz[fz < hi].max()
    return int(np.argmin(np.abs(fz - lo))), int(np.argmin(np.abs(fz - hi)))


def cubes_in(T, name, K, n, vec=False):
    return T.array(name, (K, 3, n, n, n) if vec else (K, n, n, n), plain=True)


def file_z(T, K):
    fz = T.array('file_redshifts', (K,), lo=0, gen=(6, 12), plain=True)
    if T.sym:
        T.given((K, K), lambda a, b: T.lor(a == b, T.at(fz, a) != T.at(fz, b)))
    return fz


@contract('P08', ['lightcone.make_lightcone', 'lightcone._get_interp_slice', 'lightcone._get_slice'], frame=True, overrides=grid_contract, bounded='2 to 7 cubes of 2^3 to 4^3 cells at random redshifts in random order')
def every_slice(T):
    """any number and order of cubes, any number of output redshifts"""
    mode = T.choice('interpolation', ['linear', 'step', 'sigmoid'])
    ax = T.choice('los_axis', [0, 1, 2])
    n = T.int('n', 2, gen=(2, 4))
    K = T.int('cubes', 2, gen=(2, 7))
    fz = file_z(T, K)
    C = cubes_in(T, 'cube', K, n)
    if T.sym:
        N = T.int('N', 1)
        oz = T.array('output_z', (N,), plain=True)
        GRID['z'] = oz
        lo, hi = brackets(T, fz, K, oz, N)
        box(T)

        def spec(p, q, i):
            zl, zh, z = T.at(fz, lo(i)), T.at(fz, hi(i)), T.at(oz, i)
            w = weight(T, mode, z, zl, zh)
            return w * at_axis(T, C, ax, i % n, p, q, hi(i)) + (1 - w) * at_axis(T, C, ax, i % n, p, q, lo(i))

        def inv(i, pre):
            if T.split(i == 0):
                return dict(z_bracket_low=None, z_bracket_high=None, data_low=None, data_high=None, comoving_pos_idx=0, lightcone=pre['lightcone'])
            return dict(z_bracket_low=T.at(fz, lo(i - 1)), z_bracket_high=T.at(fz, hi(i - 1)), data_low=C[lo(i - 1)], data_high=C[hi(i - 1)],
                        comoving_pos_idx=i, lightcone=T.build((n, n, N), lambda p, q, k: T.ite(k < i, spec(p, q, k), 0)))
        T.loop('lightcone.make_lightcone', inv)
        r, z = T.call('lightcone.make_lightcone', T.np.arange(K), None, None, None, fz, los_axis=ax, interpolation=mode, reading_function=lambda k: C[k])
        T.ensure_eq('redshifts', z, oz)
        T.forall('slice', (n, n, N), lambda p, q, i: ('eq', T.at(r, p, q, i), spec(p, q, i)))
        return
    cosmo(T)
    box(T, T.real('LB', gt=1, gen=(5, 400)))
    T.apart(T.np.diff(T.np.sort(fz)), 0 * T.np.diff(fz), 1e-3)
    which = T.choice('input', ['array', 'dict'])
    kw = {}
    if T.bool('own range'):
        kw['z_low'] = float(fz.min() + (fz.max() - fz.min()) * T.real('f', lo=0, hi=0.45))
        kw['z_high'] = float(fz.max() - (fz.max() - fz.min()) * T.real('g', lo=0, hi=0.45))
    if T.bool('by frequency'):
        kw['depth_mhz'] = T.real('dnu', gt=0.1, gen=(0.5, 20))
    if which == 'dict':
        d = {fz[i]: C[i] for i in range(K)}
        r, z = T.call('lightcone.make_lightcone', d, los_axis=ax, interpolation=mode, **kw)
    else:
        r, z = T.call('lightcone.make_lightcone', list(range(K)), file_redshifts=fz, los_axis=ax, interpolation=mode, reading_function=lambda k: C[k], **kw)
    if T.frame:
        return
    T.ensure_eq('shape', T.np.zeros(T.shape(r)), T.np.zeros((n, n, len(z))))
    for i in range(len(z)):
        l, h = bracket_of(T, fz, z[i])
        if mode == 'step':
            T.apart(z[i], (fz[l] + fz[h]) / 2, 1e-6)
        w = weight(T, mode, z[i], fz[l], fz[h])
        g = lambda k: T.np.take(C[k], i % n, axis=ax)
        T.ensure_eq('slice %d' % i if False else 'slice', r[:, :, i], w * g(h) + (1 - w) * g(l), rtol=1e-4, atol=1e-4)


@contract('P08', ['lightcone.make_velocity_lightcone', 'lightcone._get_interp_slice', 'lightcone._get_slice'], bounded='2 to 6 cubes of 2^3 to 4^3 cells, keyed by redshift', frame=True)
def every_velocity_slice(T):
    ax = T.choice('los_axis', [0, 1, 2])
    n = T.int('n', 2, gen=(2, 4))
    K = T.int('cubes', 2, gen=(2, 6))
    fz = file_z(T, K)
    C = cubes_in(T, 'cube', K, n, True)
    cosmo(T)
    box(T, T.real('LB', gt=1, gen=(5, 400)))
    T.apart(T.np.diff(T.np.sort(fz)), 0 * T.np.diff(fz), 1e-3)
    r, z = T.call('lightcone.make_velocity_lightcone', {fz[i]: C[i] for i in range(K)}, {fz[i]: C[i][0] for i in range(K)}, los_axis=ax)
    if T.frame:
        return
    for i in range(len(z)):
        l, h = bracket_of(T, fz, z[i])
        w = weight(T, 'linear', z[i], fz[l], fz[h])
        g = lambda k: T.np.take(C[k], i % n, axis=ax + 1)
        T.ensure_eq('slice', r[:, :, :, i], w * g(h) + (1 - w) * g(l), rtol=1e-4, atol=1e-4)


@contract('P08', ['lightcone._get_step_weighted_slice', 'lightcone._get_step_transitions', 'lightcone.make_lightcone'], bounded='boxes of 4^3 to 8^3 cells', det=False)
def cellwise_step(T):
    """step_cell: every cell takes the value of one of the two bracketing cubes, the lower one at its own redshift"""
    n = T.int('n', 4, gen=(4, 8))
    T.seed()
    lo = T.array('low', (n, n), lo=0, hi=1, plain=True)
    hi = T.array('high', (n, n), lo=0, hi=1, plain=True)
    zl = T.real('z_low', lo=0, gen=(6, 9))
    zh = zl + T.real('width', gt=0.01, gen=(0.1, 2))
    fs = sorted([T.real('fraction', lo=0, hi=1), T.real('fraction2', lo=0, hi=1), 1.0])
    rs = []
    for f in fs:
        T.np.random.seed(5)
        rs.append(T.call('lightcone._get_step_weighted_slice', lo, hi, zh, zl, zl + (zh - zl) * f * (1 + 1e-12)))
    for r in rs:
        T.ensure('a value of one of the cubes', ((r == lo) | (r == hi)).all())
    T.ensure('every cell steps once', ((rs[0] == lo) | (rs[1] == hi)).all())
    T.ensure('every cell has stepped at the far cube', (rs[2] == hi).all())
