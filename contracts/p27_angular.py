import math
from pyded.kit import contract
from contracts.common import *

A = 'angular_coordinates.'
PSA, ASP, RS = A + 'physical_slice_to_angular', A + 'angular_slice_to_physical', A + 'resample_slice'
BF, BM, PAD, PL = A + 'bin_lightcone_in_frequency', A + 'bin_lightcone_in_mpc', A + '_get_padded_slice', A + 'padding_lightcone'
PLO, OLP = A + 'physical_lightcone_to_observational', A + 'observational_lightcone_to_physical'
FI = 'helper_functions.find_idx'


@contract('P27', [PAD], frame=True)
def padded(T):
    n, m = T.int('n', 1, gen=(1, 6)), T.int('padded_n', 1, gen=(1, 20))
    a = T.array('slice', (n, n), gen=(-9, 9))
    r = T.call(PAD, a, m)
    if T.frame:
        return
    T.ensure('shape', T.land(len(T.shape(r)) == 2, *[d == m for d in T.shape(r)]))
    T.forall('pixel at the same position modulo the box', (m, m), lambda i, j: ('eq', T.at(r, i, j), T.at(a, i % n, j % n)))


@contract('P27', [PL], frame=True, bounded='lightcones of up to 6x6x4 cells, up to 7 cells of padding')
def sky_padding(T):
    np = T.np
    nx, ny, d = T.int('nx', 1, gen=(1, 6)), T.int('ny', 1, gen=(1, 6)), T.int('nz', 1, gen=(1, 4))
    a = T.array('lightcone', (nx, ny, d), gen=(-9, 9))
    kw, p = {}, ny // 2
    if T.bool('cells given'):
        p = kw['padded_n'] = T.int('padded_n', 0, gen=(0, 7))
    how = T.choice('mode', [None, 'wrap', 'edge', 'constant'])
    if how:
        kw['mode'] = how
    r = T.call(PL, a, verbose=False, **kw)
    if T.frame:
        return
    i, j = np.arange(-p, nx + p), np.arange(-p, ny + p)
    if how == 'edge':
        want = a[np.clip(i, 0, nx - 1)][:, np.clip(j, 0, ny - 1)]
    else:
        want = a[i % nx][:, j % ny]
    if how == 'constant':
        want = want * ((i >= 0) & (i < nx))[:, None, None] * ((j >= 0) & (j < ny))[None, :, None]
    T.ensure_eq('every slice padded on both sides', r, want)


def sampled(np, s, n, order):
    """values of s at n positions evenly spaced from the first to the last cell on both axes"""
    N = s.shape[0]
    x = np.linspace(0, N - 1, n)
    if order == 0:
        k = np.floor(x + 0.5).astype(int)
        return s[k][:, k]
    k = np.minimum(np.floor(x).astype(int), max(N - 2, 0))
    f, l = x - k, np.minimum(k + 1, N - 1)
    g = s[k] * (1 - f)[:, None] + s[l] * f[:, None]
    return g[:, k] * (1 - f) + g[:, l] * f


@contract('P27', [RS], frame=True, bounded='slices of up to 9x9 cells, up to 20 output cells')
def resampling(T):
    np = T.np
    N, n = T.int('n', 1, gen=(1, 9)), T.int('out', 1, gen=(1, 20))
    a = T.array('slice', (N, N), gen=(-9, 9))
    order = T.int('order', 0, 5)
    pre = T.choice('prefilter', [None, True, False])
    kw = {} if pre is None else dict(prefilter=pre)
    if T.frame:
        return T.call(RS, a, n, order, **kw)
    x = np.linspace(0, N - 1, n) if n > 1 else np.zeros(1)
    T.clear(x + 0.5)
    w = 1 if pre is False or N < n else int(np.round(N / n))
    T.assume(pre is False or abs(N / n % 1 - 0.5) > 1e-9)
    s = T.call('smoothing.smooth_tophat', a, max(w, 1))
    r = T.call(RS, a, n, order, **kw)
    T.ensure('shape', r.shape == (n, n))
    if order < 2:
        T.ensure_eq('the smoothed slice at the output positions', r, sampled(np, s, n, order), atol=1e-9)
    if n == N:
        T.ensure_eq('same number of cells: unchanged', r, s, atol=1e-9)
    c = T.real('constant', gen=(-9, 9))
    T.ensure_eq('constant', T.call(RS, 0 * a + c, n, order, **kw), np.full((n, n), c), atol=1e-9)
    t = T.call(RS, a.T, n, order, **kw)
    T.ensure_eq('both axes alike', t, r.T, atol=1e-9)


def sky(T):
    c = cosmo(T)
    z = T.real('z', lo=1, gen=(5, 20))
    return z, T.call('cosmo.deg_to_cdist', 1.0, z)


@contract('P27', [PSA, PAD, RS], frame=True, bounded='slices of up to 8x8 cells, fields of up to 16 cells')
def to_angle(T):
    np = T.np
    z, mpc = sky(T)                                     # comoving size of one degree
    N, M = T.int('n', 1, gen=(1, 8)), T.int('field', 1, gen=(1, 16))
    a = T.array('slice', (N, N), gen=(-9, 9))
    L = T.real('size', gt=0, gen=(20, 400))
    d = T.real('dtheta', gt=0, gen=(0.2, 8))            # arcmin
    F = (M + 0.5) * d / 60                              # degrees
    k = L / mpc * 60 / d                                # cells covered by the box
    T.clear(k)
    k = int(k)
    T.assume(2 <= k + (k == 1) and k <= 40)
    k = k - 1 if k % 2 == 0 else k
    order = T.choice('order', [0, 1])
    if T.frame:
        return T.call(PSA, a, z, L, F, d, order)
    T.clear((np.linspace(0, N - 1, k) if k > 1 else np.zeros(1)) + 0.5)
    T.assume(abs(N / k % 1 - 0.5) > 1e-9)
    r = T.call(PSA, a, z, L, F, d, order)
    m = max(M, k)
    T.ensure('shape', r.shape == (m, m))
    s = sampled(np, T.call('smoothing.smooth_tophat', a, max(1, int(np.round(N / k)))), k, order)
    i = np.arange(m) % k
    T.ensure_eq('the box sampled at the scale of its redshift, repeated over the field', r, s[i][:, i], atol=1e-9)
    c = T.real('constant', gen=(-9, 9))
    T.ensure_eq('constant', T.call(PSA, 0 * a + c, z, L, F, d, T.int('any order', 0, 5)), np.full((m, m), c), atol=1e-9)


@contract('P27', [ASP, RS], frame=True, bounded='slices of up to 9x9 cells')
def from_angle(T):
    np = T.np
    z, mpc = sky(T)
    N = T.int('n', 1, gen=(1, 9))
    a = T.array('slice', (N, N), gen=(-9, 9))
    F = T.real('field', gt=0, gen=(0.1, 3))
    cell = T.real('cell', gt=0, gen=(2, 100))
    k = F * mpc / cell
    T.clear(k)
    k = int(k)
    k = k + 1 if k % 2 == 0 else k
    T.assume(k <= 40)
    q = T.int('cells out', 1, gen=(1, 9))
    order, pre = T.choice('order', [0, 1]), T.bool('prefilter')
    S = (q + 0.5) * cell
    if T.frame:
        return T.call(ASP, a, z, F, cell, S, order, pre)
    T.clear((np.linspace(0, N - 1, k) if k > 1 else np.zeros(1)) + 0.5)
    T.assume(abs(N / k % 1 - 0.5) > 1e-9)
    r = T.call(ASP, a, z, F, cell, S, order, pre)
    s = sampled(np, T.call('smoothing.smooth_tophat', a, max(1, int(np.round(N / k))) if pre else 1), k, order)
    m = min(q, N)
    T.ensure_eq('the field sampled at the scale of its redshift, cut to size', r, s[:m, :m], atol=1e-9)
    c = T.real('constant', gen=(-9, 9))
    r = T.call(ASP, 0 * a + c, z, F, cell, S, T.int('any order', 0, 5), pre)
    T.ensure_eq('constant', r, np.full(r.shape, c), atol=1e-9)


def averaged(np, a, k, w):
    """mean of the w slices around slice k that are inside the lightcone"""
    return a[:, :, max(0, k - w // 2):min(a.shape[2], k + (w - 1) // 2 + 1)].mean(axis=2)


def placed(np, grid, v):
    """fractional index of v on a monotonic grid, kept inside it"""
    g = grid if grid[-1] > grid[0] else grid[::-1]
    f = np.interp(v, g, np.arange(len(g)))
    return f if grid is g else len(g) - 1 - f


@contract('P27', [BF, A + '_mean_along_los', FI], frame=True, bounded='lightcones of up to 4x4x14 cells')
def frequency_bins(T):
    np = T.np
    c = cosmo(T)
    n, m, d = T.int('nx', 1, gen=(1, 4)), T.int('ny', 1, gen=(1, 4)), T.int('depth', 3, gen=(3, 14))
    a = T.array('lightcone', (n, m, d), gen=(-9, 9))
    z0 = T.real('z0', lo=1, gen=(5.5, 12))
    L = T.real('box', gt=0, gen=(5, 300))
    D = T.call('cosmo.z_to_cdist', z0) + np.arange(d) * L / n
    T.assume(D[-1] < T.call('cosmo.z_to_cdist', 40.0))
    nu = T.call('cosmo.z_to_nu', T.call('cosmo.cdist_to_z', D))
    k = T.real('bins', gen=(1.2, 25))
    dnu = (nu[0] - nu[-1]) / k
    T.clear(k, 1e-4)
    if T.frame:
        return T.call(BF, a, z0, L, dnu)
    r, f = T.call(BF, a, z0, L, dnu)
    want = nu[0] - np.arange(int(k) + 1) * dnu
    T.ensure_eq('frequencies from the near end downwards', f, want, rtol=1e-9)
    T.ensure('one slice for each frequency', r.shape == (n, m, len(want)))
    x = T.call('cosmo.nu_to_cdist', want[-2:])
    w = (x[1] - x[0]) / (L / n)
    T.assume(abs(w % 1 - 0.5) > 1e-6)
    w = max(1, int(np.round(w)))
    at = placed(np, nu, want)
    T.assume((abs(at[1:] - np.round(at[1:])) > 1e-6).all())
    at[0] = 0
    for i in range(len(want)):
        T.ensure_eq('mean over one bin at the frequency of the slice', r[:, :, i], averaged(np, a, int(at[i]), w), atol=1e-7)
    v = T.real('constant', gen=(-9, 9))
    T.ensure_eq('constant', T.call(BF, 0 * a + v, z0, L, dnu)[0], np.full(r.shape, v), atol=1e-9)


def channels(T, lo=2, hi=14):
    np = T.np
    d = T.int('channels', lo, gen=(lo, hi))
    top, w = T.real('highest frequency', lo=60, gen=(90, 220)), T.real('width', gt=0.001, gen=(0.05, 2))
    T.assume(top < 1000 and top - d * w > 40)
    return d, top - np.arange(d) * w


@contract('P27', [BM, A + '_mean_along_los', FI], frame=True, bounded='lightcones of up to 4x4x14 cells')
def distance_bins(T):
    np = T.np
    cosmo(T)
    n, m = T.int('nx', 1, gen=(1, 4)), T.int('ny', 1, gen=(1, 4))
    d, nu = channels(T)
    a = T.array('lightcone', (n, m, d), gen=(-9, 9))
    D = T.call('cosmo.nu_to_cdist', nu)
    k = T.real('cells', gen=(1.2, 40))
    T.clear(k, 1e-4)
    T.assume(abs(d / k % 1 - 0.5) > 1e-6)
    cell = (D[-1] - D[0]) / k
    if T.frame:
        return T.call(BM, a, nu, cell)
    r, z = T.call(BM, a, nu, cell)
    want = D[0] + np.arange(int(k)) * cell
    T.ensure_eq('redshifts of equal distances', T.np.atleast_1d(z), np.atleast_1d(T.call('cosmo.cdist_to_z', want)), rtol=1e-9)
    T.ensure('one slice for each redshift', r.shape == (n, m, int(k)))
    at = placed(np, D, want)
    T.assume((abs(at[1:] - np.round(at[1:])) > 1e-6).all())
    at[0] = 0
    w = max(1, int(np.round(d / k)))
    for i in range(int(k)):
        T.ensure_eq('mean over one cell at the distance of the slice', r[:, :, i], averaged(np, a, int(at[i]), w), atol=1e-7)
    v = T.real('constant', gen=(-9, 9))
    T.ensure_eq('constant', T.call(BM, 0 * a + v, nu, cell)[0], np.full(r.shape, v), atol=1e-9)


@contract('P27', [PLO, BF, PSA], frame=True, bounded='lightcones of up to 5x5x12 cells, up to 14 output pixels')
def to_observed(T):
    np = T.np
    cosmo(T)
    n, d = T.int('n', 1, gen=(1, 5)), T.int('depth', 3, gen=(3, 12))
    a = T.array('lightcone', (n, n, d), gen=(-9, 9))
    z0 = T.real('z0', lo=1, gen=(5.5, 12))
    L = T.real('box', gt=0, gen=(20, 300))
    cell = L / n
    D = T.call('cosmo.z_to_cdist', z0) + np.arange(d) * cell
    T.assume(D[-1] < T.call('cosmo.z_to_cdist', 40.0))
    zs = T.call('cosmo.cdist_to_z', D)
    nu = T.call('cosmo.z_to_nu', zs)
    k = T.real('bins', gen=(1.2, 12))
    T.clear(k, 1e-4)
    dnu = (nu[0] - nu[-1]) / k
    big, small = T.call('cosmo.angular_size_comoving', L, z0), T.call('cosmo.angular_size_comoving', L, zs[-1])
    dth = big * 60 / T.real('pixels', gen=(2.1, 14))
    T.clear([big * 60 / dth, small * 60 / dth])
    T.assume(small * 60 / dth >= 1)
    order = T.int('order', 0, 3)
    kw = {}
    own = T.bool('box given')
    if own:
        kw['input_box_size_mpc'] = L
        T.setmod('conv', LB=77.0)
    else:
        T.setmod('conv', LB=L)
    mode = T.choice('mode', [None, 'pad', 'FULL', 'extend', 'crop', 'valid'])
    if mode:
        kw['mode'] = mode
    zin = zs if T.bool('all redshifts') else float(z0)
    if order != 2 or T.bool('order given'):
        kw['order'] = order
    r, f = T.call(PLO, a, zin, dnu, dth, verbose=False, **kw)
    if T.frame:
        return
    b, g = T.call(BF, a, z0 if zin is not zs else zs.min(), L, dnu)
    T.ensure_eq('frequencies of the slices', f, g, rtol=1e-9)
    N, m = int(big * 60 / dth), int(small * 60 / dth)
    crop = mode in ('crop', 'valid')
    cut = slice((N - m) // 2, (N + m) // 2) if crop else slice(None)
    T.ensure('shape', r.shape == ((m,) * 2 if crop else (N,) * 2) + (len(g),))
    for i in range(len(g)):
        zi = T.call('cosmo.nu_to_z', g[i])
        q = L / T.call('cosmo.deg_to_cdist', big, zi) * (big * 60 / dth)
        T.clear(q)
        T.assume(int(q) >= 1)
        p = int(q) - 1 if int(q) % 2 == 0 else int(q)
        T.clear((np.linspace(0, n - 1, p) if p > 1 else np.zeros(1)) + 0.5)
        T.assume(abs(n / p % 1 - 0.5) > 1e-6)
        s = T.call(PSA, b[:, :, i], zi, L, big, dth, order)
        T.ensure_eq('every slice at the scale of its own redshift', r[:, :, i], s[cut, cut], atol=1e-7)
    v = T.real('constant', gen=(-9, 9))
    r = T.call(PLO, 0 * a + v, zin, dnu, dth, verbose=False, **kw)[0]
    T.ensure_eq('constant', r, np.full(r.shape, v), atol=1e-9)
    T.ensure('unknown modes refused', not T.try_call(PLO, a, zin, dnu, dth, verbose=False, mode='x')[0])


@contract('P27', [OLP, BM, ASP], frame=True, bounded='lightcones of up to 6x6x10 cells')
def from_observed(T):
    np = T.np
    cosmo(T)
    n = T.int('n', 1, gen=(1, 6))
    d, nu = channels(T, 3, 10)
    a = T.array('lightcone', (n, n, d), gen=(-9, 9))
    dth = T.real('dtheta', gt=0, gen=(0.3, 20))
    order = T.int('order', 0, 3)
    kw = dict(order=order) if order != 2 or T.bool('order given') else {}
    D = T.call('cosmo.nu_to_cdist', nu)
    z0 = T.call('cosmo.nu_to_z', nu[0])
    fov = n * dth / 60
    mpc = T.call('cosmo.deg_to_cdist', fov, z0)
    par = D[-1] - D[-2]
    cell = max(par, mpc / n)
    T.assume(abs(par - mpc / n) > 1e-6)
    k = (D[-1] - D[0]) / cell
    T.clear(k, 1e-6)
    T.assume(k > 1 and (par < mpc / n or mpc / cell >= 1) and abs(d / k % 1 - 0.5) > 1e-6)
    if T.frame:
        return T.call(OLP, a, nu, dth, verbose=False, **kw)
    if par > mpc / n:
        T.clear(mpc / cell)
    r, z, q = T.call(OLP, a, nu, dth, verbose=False, **kw)
    T.ensure_eq('the coarser of the two resolutions', q, cell, rtol=1e-9)
    m = int(mpc / q)
    T.assume(m >= 1)
    s = np.stack([T.call(ASP, a[:, :, i], T.call('cosmo.nu_to_z', nu[i]), fov, q, mpc, order) for i in range(d)], axis=2)
    T.ensure('every slice cut to the same size', s.shape == (m, m, d))
    w, zz = T.call(BM, s, nu, q)
    T.ensure_eq('slices at the scale of their own redshift, in order', r, w, atol=1e-9)
    T.ensure_eq('redshifts', z, zz, rtol=1e-12)
    T.ensure('one slice for each redshift', r.shape[2] == np.size(z) and bool((np.diff(np.atleast_1d(z)) > 0).all()))
    v = T.real('constant', gen=(-9, 9))
    r = T.call(OLP, 0 * a + v, nu, dth, verbose=False, **kw)[0]
    T.ensure_eq('constant', r, np.full(r.shape, v), atol=1e-9)
    T.ensure('increasing frequencies refused', not T.try_call(OLP, a, nu[::-1], dth, verbose=False)[0])
