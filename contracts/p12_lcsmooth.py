from pyded.kit import contract
from contracts.common import *


@contract('P12', ['smoothing.smooth_lightcone_gauss', 'smoothing.smooth_gauss'], frame=True, bounded='lightcones of up to 7x7x9 cells')
def own_beam(T):
    np = T.np
    n, d = T.int('n', 1, gen=(1, 7)), T.int('depth', 1, gen=(1, 9))
    ax = T.choice('nu_axis', [2, 0, 1])
    shp = [n, n, n]
    shp[ax] = d
    a = T.array('lightcone', tuple(shp), gen=(-9, 9))
    w = T.array('fwhm', (d,), gt=0.1, gen=(0.2, 6))
    r = T.call('smoothing.smooth_lightcone_gauss', a, w, **({} if ax == 2 and T.bool('default') else dict(nu_axis=ax)))
    if T.frame:
        return
    s = lambda x, i: np.take(x, i, axis=ax)
    want = np.stack([T.call('smoothing.smooth_gauss', s(a, i), fwhm=w[i]) for i in range(d)], axis=ax)
    T.ensure_eq('every slice with its own beam', r, want, atol=1e-9)
    # never mixes slices
    b = T.array('other', tuple(shp), gen=(-9, 9))
    i = T.int('i', 0, gen=(0, 8)) % d
    ix = [slice(None)] * 3
    ix[ax] = i
    c = b.copy()
    c[tuple(ix)] = a[tuple(ix)]
    r2 = T.call('smoothing.smooth_lightcone_gauss', c, w, nu_axis=ax)
    T.ensure_eq('no other slice matters', s(r2, i), s(r, i), atol=1e-9)


@contract('P12', ['smoothing.smooth_lightcone_gauss', 'smoothing.smooth_gauss', 'smoothing.smooth_with_kernel', 'fft_functions.fftconvolve'], frame=True)
def every_slice_its_own_beam(T):
    n, d = T.int('n', 1, gen=(1, 7)), T.int('depth', 1, gen=(1, 7))
    ax = T.choice('nu_axis', [2, 0, 1])
    at = lambda x, y, i: (i, x, y) if ax == 0 else (x, i, y) if ax == 1 else (x, y, i)
    a = T.array('lightcone', at(n, n, d), gen=(-9, 9), kind=T.choice('kind', ['f', 'i']))
    w = T.array('fwhm', (d,), gt=0.1, gen=(0.2, 6))
    r = T.call('smoothing.smooth_lightcone_gauss', a, w, **({} if ax == 2 else dict(nu_axis=ax)))
    if T.frame:
        return
    i = T.int('i', 0, gen=(0, 6))
    T.assume(i < d)
    T.ensure('shape', T.land(*[p == q for p, q in zip(T.shape(r), at(n, n, d))]))
    k = T.call('smoothing.gauss_kernel', n, fwhm=T.at(w, i))
    T.forall('every slice with its own beam and no other slice', (n, n), lambda x, y: ('eq', T.at(r, *at(x, y, i)),
             T.sum((n, n), lambda p, q: T.at(a, *at(p, q, i)) * T.at(k, (x - p + n // 2) % n, (y - q + n // 2) % n)), 1e-9))
    T.ensure_eq('mean of the slice', T.sum((n, n), lambda p, q: T.at(r, *at(p, q, i))), T.sum((n, n), lambda p, q: T.at(a, *at(p, q, i))), atol=1e-8)


@contract('P12', ['helper_functions.find_idx'], frame=True)
def position_in_a_grid(T):
    n = T.int('n', 2, gen=(2, 12))
    up = T.choice('order', [1, -1])
    ar = T.array('grid', (n,), gen=(-9, 9))
    if T.sym:
        T.given((n, n), lambda i, j: T.imp(i < j, up * T.at(ar, i) < up * T.at(ar, j)))
    else:
        ar = T.np.sort(ar)[::up]
        T.assume((up * T.np.diff(ar) > 1e-6).all())
    where = T.choice('where', ['between', 'below', 'above'])
    k = T.int('k', 0, gen=(0, 10))
    f = T.real('f', lo=0, hi=1, gen=(0, 1))
    T.assume(k < n - 1)
    g = lambda i: T.at(ar, i)
    v = g(k) + f * (g(k + 1) - g(k)) if where == 'between' else g(0) - up * 5 * f if where == 'below' else g(n - 1) + up * 5 * f
    r = T.call('helper_functions.find_idx', ar, v)
    if T.frame:
        return
    T.ensure_eq('fractional index', r, k + f if where == 'between' else 0 if where == 'below' else n - 1, atol=1e-7)


def grid(T, c, n, lo=2):
    """increasing redshifts of a lightcone"""
    d = T.int('depth', lo, gen=(lo, 14))
    z0 = T.real('z0', lo=5, gen=(6, 11))
    return d, z0 + T.np.cumsum(T.array('dz', (d,), gt=0, gen=(0.002, 0.03), plain=True))


def window(np, zs, i, w):
    """slices from the lower edge of the window up to the first slice not below its upper edge"""
    lo, hi = max(zs[i] - w / 2, zs[0]), min(zs[i] + w / 2, zs[-1])
    first = min(k for k in range(len(zs)) if zs[k] >= lo - 1e-12)
    last = min(k for k in range(len(zs)) if zs[k] >= hi - 1e-12)
    return first, last


def opaque_index():
    """callee contract of find_idx (position_in_a_grid): a function of the value; rounded up it is the first entry of the grid, its last entry set aside,
    that is not below the value"""
    from pyded.vals import as_arr, raw, zr, z, zb, wrap, num, r_ceil, r_cmp, simp, CTX
    from pyded.sym import fn, RL
    import z3
    f = fn('position', RL, RL)

    def ov(w, fv, args, kw):
        ar = as_arr(args[0])
        v = num(raw(args[1]))
        n = ar.shape[0]
        p = f(zr(v))
        i = z(r_ceil(p))
        CTX.add_fact(z3.And(p >= 0, p <= z3.ToReal(z(n)) - 1, i >= 0, i <= z(n) - 1))
        CTX.add_fact(z3.Or(i == 0, zb(r_cmp('<', ar.get((simp(i - 1),)), v))))
        CTX.add_fact(z3.Or(i == z(n) - 1, zb(r_cmp('>=', ar.get((i,)), v))))
        return wrap(p)
    return {'helper_functions.find_idx': ov}


@contract('P12', ['smoothing.smooth_lightcone_tophat'], frame=True, overrides=opaque_index)
def along_any_depth(T):
    n, d = T.int('n', 1, gen=(1, 3)), T.int('depth', 2, gen=(2, 9))
    zs = T.array('zs', (d,), gen=(6, 6.15))
    if T.sym:
        T.given((d, d), lambda i, j: T.imp(i < j, T.at(zs, i) < T.at(zs, j)))
    else:
        zs = T.np.sort(zs)
        T.assume((T.np.diff(zs) > 1e-6).all())
    a = T.array('lightcone', (n, n, d), gen=(-9, 9))
    dz = T.array('width', (d,), gt=0, gen=(0.001, 0.1))
    z = lambda j: T.at(zs, j)
    i = T.int('i', 0, gen=(0, 8))
    T.assume(i < d)
    lo, hi = z(i) - T.at(dz, i) / 2, z(i) + T.at(dz, i) / 2
    f, l = (-T.floor(-T.call('helper_functions.find_idx', zs, v)) for v in (lo, hi))
    if not T.sym:
        f, l = int(f), int(l)
        T.assume(all(abs(float(z(k)) - e) > 1e-9 for k in range(int(d)) for e in (lo, hi)))
    r = T.call('smoothing.smooth_lightcone_tophat', a, zs, dz, verbose=False)
    if T.frame:
        return
    T.ensure('the slice itself is in its window', T.land(f <= i, i <= l))
    T.ensure('window', T.land(lo <= z(f), T.lor(f == 0, z(T.ite(f > 0, f - 1, 0)) < lo), T.lor(hi <= z(l), l == d - 1), z(l - 1) < hi))
    T.forall('mean of the slices in the window', (n, n), lambda x, y: ('eq', T.at(r, x, y, i), T.sum((l - f + 1,), lambda j: T.at(a, x, y, f + j)) / (l - f + 1), 1e-9))


@contract('P12', ['smoothing.smooth_lightcone_tophat', 'helper_functions.find_idx'], frame=True, bounded='lightcones of up to 4x4x14 cells')
def along(T):
    np = T.np
    n = T.int('n', 1, gen=(1, 4))
    d, zs = grid(T, None, n)
    a = T.array('lightcone', (n, n, d), gen=(-9, 9))
    dz = T.array('width', (d,), gt=0, gen=(0.001, 0.1))
    r = T.call('smoothing.smooth_lightcone_tophat', a, zs, dz, verbose=False)
    if T.frame:
        return
    for i in range(d):
        T.apart(np.abs(zs - zs[i] + dz[i] / 2), 0 * zs, 1e-9)
        T.apart(np.abs(zs - zs[i] - dz[i] / 2), 0 * zs, 1e-9)
    want = np.zeros(a.shape)
    for i in range(d):
        f, l = window(np, zs, i, dz[i])
        T.ensure('the slice itself is in its window', f <= i <= l)
        want[:, :, i] = a[:, :, f:l + 1].mean(axis=2)
    T.ensure_eq('mean of the slices in the window', r, want, atol=1e-9)


@contract('P12', ['smoothing.smooth_lightcone', 'smoothing.smooth_lightcone_gauss', 'smoothing.smooth_lightcone_tophat', 'smoothing.smooth_gauss', 'helper_functions.find_idx'],
          frame=True, bounded='lightcones of up to 6x6x14 cells')
def lightcone(T):
    np = T.np
    c = cosmo(T)
    LB = box(T, T.real('LB', gt=1, gen=(20, 400)))
    n = T.int('n', 2, gen=(2, 6))
    d, zs = grid(T, c, n)
    order = T.choice('order', ['increasing', 'decreasing', 'lowest'])
    if order == 'lowest':
        zs = T.call('cosmo.cdist_to_z', T.call('cosmo.z_to_cdist', zs[0]) + np.arange(d) * (LB / n))
    a = T.array('lightcone', (n, n, d), gen=(-9, 9))
    B = T.real('baseline', gt=0.1, gen=(0.3, 5))
    ratio = T.real('ratio', gt=0.1, gen=(0.2, 3))
    kw = dict(max_baseline=B, ratio=ratio, verbose=False)
    if T.bool('box given'):
        kw['box_size_mpc'] = LB
        T.setmod('conv', LB=1.0)
    zin = zs if order == 'increasing' else zs[::-1].copy() if order == 'decreasing' else zs[0]
    ain = a[:, :, ::-1].copy() if order == 'decreasing' else a
    r, zr = T.call('smoothing.smooth_lightcone', ain, zin, **kw)
    if T.frame:
        return
    T.ensure_eq('redshifts in the order given', zr, zs[::-1] if order == 'decreasing' else zs, atol=1e-6)
    if order == 'decreasing':
        r = r[:, :, ::-1]
    want = np.zeros(a.shape)
    for i in range(d):
        D = T.call('cosmo.z_to_cdist', zs[i])
        w = (1 + zs[i]) * 21e-5 / B * D
        dz = ratio * w / c['c'] * 100 * c['h'] * math.sqrt(E2(c, zs[i]))
        T.apart(np.abs(zs - zs[i] + dz / 2), 0 * zs, 1e-6)
        T.apart(np.abs(zs - zs[i] - dz / 2), 0 * zs, 1e-6)
        f, l = window(np, zs, i, dz)
        want[:, :, i] = T.call('smoothing.smooth_gauss', a[:, :, f:l + 1].mean(axis=2), fwhm=w * n / LB)
    T.ensure_eq('every slice with the beam of its redshift', r, want, atol=1e-5)


@contract('P12', ['smoothing.get_beam_w'])
def beam_width(T):
    c = cosmo(T)
    B, z = T.real('baseline', gt=0.1, gen=(100, 9000)), T.real('z', lo=0, gen=(0, 20))
    m = T.call('smoothing.get_beam_w', B, z)
    T.ensure_eq('wavelength over baseline in arcmin', m * B * T.np.pi * c['nu0'] * 1e6, c['c'] * 1e3 * (1 + z) * 180 * 60, atol=1e-6)


@contract('P12', ['smoothing.smooth_lightcone_uv_threshold'], bounded='lightcones of up to 5x5x5 cells', frame=True)
def uv_threshold(T):
    np = T.np
    n, d = T.int('n', 1, gen=(1, 5)), T.int('depth', 1, gen=(1, 5))
    a = T.array('lightcone', (n, n, d), gen=(-9, 9))
    uv = T.array('uv', (n, n, d), lo=0, gen=(0, 5))
    t = T.real('threshold', lo=0, gen=(0, 5))
    r = T.call('smoothing.smooth_lightcone_uv_threshold', a, uv, t)
    if T.frame:
        return
    want = np.stack([np.real(np.fft.ifft2(np.where(uv[:, :, i] < t, 0, np.fft.fft2(a[:, :, i])))) for i in range(d)], axis=2)
    T.ensure_eq('every slice loses the cells below the threshold', r, want, atol=1e-9)
