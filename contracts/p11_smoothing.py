from pyded.kit import contract
from contracts.common import *


def centred(T, k, n):
    """entry x equals the entry mirrored at the centre cell n//2 (periodically)"""
    np = T.np
    i = (2 * (n // 2) - np.arange(n)) % n
    m = k
    for ax in range(k.ndim):
        m = np.take(m, i, axis=ax)
    T.ensure_eq('symmetric about the centre', m, k, atol=1e-12)


def kernel_ok(T, k, dim, n):
    np = T.np
    T.ensure('shape', k.shape == (n,) * dim)
    T.ensure('non-negative', bool((k >= 0).all()))
    T.ensure_eq('sums to one', k.sum(), 1.0, atol=1e-9)


@contract('P11', ['smoothing.gauss_kernel', 'smoothing.gauss_kernel_3d'], bounded='kernels of up to 12 cells a side')
def gauss(T):
    np = T.np
    dim = T.choice('dim', [2, 3])
    n = T.int('size', 1, gen=(1, 12))
    s = T.real('sigma', gt=0.05, gen=(0.05, 20))
    f = 'smoothing.gauss_kernel' if dim == 2 else 'smoothing.gauss_kernel_3d'
    how = T.choice('how', ['sigma', 'fwhm', 'both'])
    w = s * 2 * math.sqrt(2 * math.log(2))
    k = T.call(f, n, sigma=s) if how == 'sigma' else T.call(f, n, fwhm=w) if how == 'fwhm' else T.call(f, n, sigma=9.0, fwhm=w)
    kernel_ok(T, k, dim, n)
    centred(T, k, n)
    x = np.arange(n) - n // 2
    g = np.exp(-x * x / (2.0 * s * s))
    g = g / g.sum()
    want = g[:, None] * g[None, :] if dim == 2 else g[:, None, None] * g[None, :, None] * g[None, None, :]
    T.ensure_eq('Gaussian of that width', k, want, atol=1e-12)


@contract('P11', ['smoothing.gauss_kernel', 'smoothing.gauss_kernel_3d'], frame=True)
def gauss_of_any_size(T):
    dim = T.choice('dim', [2, 3])
    n = T.int('size', 1, gen=(1, 9))
    s = T.real('sigma', gt=0.05, gen=(0.05, 20))
    how = T.choice('how', ['sigma', 'fwhm'])
    f = 'smoothing.gauss_kernel' if dim == 2 else 'smoothing.gauss_kernel_3d'
    w = s * 2 * T.np.sqrt(2 * T.np.log(2.0))
    k = T.call(f, n, sigma=s) if how == 'sigma' else T.call(f, n, fwhm=w)
    if T.frame:
        return
    T.ensure('shape', T.land(*[T.shape(k)[i] == n for i in range(dim)]))
    T.forall('non-negative', (n,) * dim, lambda *ix: ('le', 0, T.at(k, *ix)))
    T.ensure_eq('sums to one', T.np.sum(k), 1, atol=1e-9)
    c = n // 2
    m = lambda i: T.ite(2 * c - i < n, 2 * c - i, i)
    T.forall('symmetric about the centre', (n,) * dim, lambda *ix: ('eq', T.at(k, *[m(i) for i in ix]), T.at(k, *ix), 1e-12))
    r2 = lambda *ix: sum((i - c) * (i - c) for i in ix)
    T.forall('Gaussian of that width', (n,) * dim, lambda *ix: ('eq', T.at(k, *ix), T.at(k, *[c] * dim) * T.np.exp(-r2(*ix) / (2 * s * s)), 1e-12))


@contract('P11', ['smoothing.tophat_kernel', 'smoothing.tophat_kernel_3d'], frame=True)
def tophat_of_any_size(T):
    dim = T.choice('dim', [2, 3])
    n = T.int('size', 1, gen=(1, 9))
    w = T.choice('width', [T.int('w', 1, gen=(1, 12)), T.real('wf', gt=0.01, gen=(0.01, 12))])
    k = T.call('smoothing.tophat_kernel' if dim == 2 else 'smoothing.tophat_kernel_3d', n, w)
    if T.frame:
        return
    T.ensure('shape', T.land(*[T.shape(k)[i] == n for i in range(dim)]))
    T.forall('non-negative', (n,) * dim, lambda *ix: ('le', 0, T.at(k, *ix)))
    T.ensure_eq('sums to one', T.np.sum(k), 1, atol=1e-9)


@contract('P11', ['smoothing.tophat_kernel', 'smoothing.tophat_kernel_3d'], bounded='kernels of up to 12 cells a side')
def tophat(T):
    np = T.np
    dim = T.choice('dim', [2, 3])
    n = T.int('size', 1, gen=(1, 12))
    w = T.choice('width', [T.int('w', 1, gen=(1, 16)), T.real('wf', gt=0.01, gen=(0.01, 16))])
    k = T.call('smoothing.tophat_kernel' if dim == 2 else 'smoothing.tophat_kernel_3d', n, w)
    kernel_ok(T, k, dim, n)
    vals = np.unique(k)
    T.ensure('two values', len(vals) <= 2 and (len(vals) == 1 or vals[0] == 0))
    lo, hi = int(math.floor(w / 2.0)), int(math.ceil(w / 2.0))
    if (lo + hi) % 2 == 1 and (w <= n):
        centred(T, k, n)
    if w == int(w) and w <= n:
        T.ensure_eq('as wide as asked', (k > 0).sum(), int(w) ** dim)


@contract('P11', ['smoothing.tophat_kernel_3d'], bounded='kernels of up to 12 cells a side')
def sphere(T):
    np = T.np
    n = T.int('size', 1, gen=(1, 12))
    w = T.real('w', lo=0, gen=(0, 16))
    k = T.call('smoothing.tophat_kernel_3d', n, w, shape='sphere')
    kernel_ok(T, k, 3, n)
    centred(T, k, n)
    x = np.arange(n) - n // 2
    r2 = x[:, None, None] ** 2 + x[None, :, None] ** 2 + x[None, None, :] ** 2
    T.apart(r2 + 0.0, 0.25 * w * w, 1e-6)
    T.ensure('ball of that diameter', bool(((k > 0) == (np.sqrt(r2) <= 0.5 * w)).all()))


def smooth(T, a, n, how):
    np = T.np
    if how == 'gauss':
        s = T.real('sigma', gt=0.1, gen=(0.1, 5))
        x = np.arange(n) - n // 2
        g = np.exp(-x * x / (2.0 * s * s))
        g = g / g.sum()
        return T.call('smoothing.smooth_gauss', a, sigma=s), g[:, None] * g[None, :]
    if how == 'fwhm':
        s = T.real('sigma', gt=0.1, gen=(0.1, 5))
        k = T.call('smoothing.gauss_kernel', n, s)
        return T.call('smoothing.smooth_gauss', a, fwhm=s * 2 * math.sqrt(2 * math.log(2))), k
    if how == 'tophat':
        w = T.int('width', 1, gen=(1, 9))
        T.assume(w <= n)
        return T.call('smoothing.smooth_tophat', a, w), T.call('smoothing.tophat_kernel', n, w)
    k = T.array('kernel', (n,) * a.ndim, gen=(-1, 1))
    return T.call('smoothing.smooth_with_kernel', a, k), k


def conv(T, a, k):
    """periodic convolution with the kernel centred on cell n//2, by its definition"""
    np = T.np
    out = np.zeros(a.shape, dtype=np.result_type(a.dtype, k.dtype, float))
    for idx in np.ndindex(*k.shape):
        if k[idx] != 0:
            out = out + k[idx] * np.roll(a, [i - s // 2 for i, s in zip(idx, k.shape)], axis=tuple(range(a.ndim)))
    return out


def folded(T, a, k, n, dim):
    """entries of the periodic convolution with the kernel centred on cell n//2"""
    return lambda *ix: T.sum((n,) * dim, lambda *m: T.at(a, *m) * T.at(k, *[(i - j + n // 2) % n for i, j in zip(ix, m)]))


@contract('P11', ['smoothing.smooth_with_kernel', 'fft_functions.fftconvolve'], frame=True)
def any_kernel(T):
    dim = T.choice('dim', [1, 2, 3])
    n = T.int('n', 1, gen=(1, 7))
    a = T.array('field', (n,) * dim, gen=(-9, 9), kind=T.choice('kind', ['f', 'i']))
    k = T.array('kernel', (n,) * dim, gen=(-1, 1))
    r = T.call('smoothing.smooth_with_kernel', a, k)
    if T.frame:
        return
    T.ensure('shape', T.land(*[T.shape(r)[i] == n for i in range(dim)]))
    T.forall('the periodic convolution', (n,) * dim, lambda *ix: ('eq', T.at(r, *ix), folded(T, a, k, n, dim)(*ix), 1e-9))
    T.ensure_eq('mean', T.np.mean(r), T.np.mean(a) * T.np.sum(k), atol=1e-9)
    c = T.real('c', gen=(-5, 5))
    u = T.call('smoothing.smooth_with_kernel', T.build((n,) * dim, lambda *ix: c), k)
    T.forall('constant field', (n,) * dim, lambda *ix: ('eq', T.at(u, *ix), c * T.np.sum(k), 1e-9))


@contract('P11', ['smoothing.smooth_gauss', 'smoothing.smooth_tophat', 'smoothing.gauss_kernel', 'smoothing.tophat_kernel'], frame=True)
def sky_plane(T):
    n = T.int('n', 1, gen=(1, 9))
    a = T.array('field', (n, n), gen=(-9, 9), kind=T.choice('kind', ['f', 'i']))
    how = T.choice('how', ['gauss', 'fwhm', 'tophat'])
    s = T.real('sigma', gt=0.1, gen=(0.1, 5))
    w = T.int('width', 1, gen=(1, 9))
    if how == 'tophat':
        k = T.call('smoothing.tophat_kernel', n, w)
        f = lambda x: T.call('smoothing.smooth_tophat', x, w)
    elif how == 'gauss':
        k = T.call('smoothing.gauss_kernel', n, s)
        f = lambda x: T.call('smoothing.smooth_gauss', x, sigma=s)
    else:
        k = T.call('smoothing.gauss_kernel', n, fwhm=s)
        f = lambda x: T.call('smoothing.smooth_gauss', x, fwhm=s)
    r = f(a)
    if T.frame:
        return
    T.forall('the periodic convolution', (n, n), lambda *ix: ('eq', T.at(r, *ix), folded(T, a, k, n, 2)(*ix), 1e-9))
    T.ensure_eq('mean', T.np.mean(r), T.np.mean(a), atol=1e-9)
    c = T.real('c', gen=(-5, 5))
    u = f(T.build((n, n), lambda *ix: c))
    T.forall('constant field', (n, n), lambda *ix: ('eq', T.at(u, *ix), c, 1e-9))


@contract('P11', ['fft_functions.fftconvolve'], frame=True)
def circular_of_any_shape(T):
    dim = T.choice('dim', [1, 2, 3])
    shp = tuple(T.int('n%d' % i, 1, gen=(1, {1: 60, 2: 18, 3: 7}[dim])) for i in range(dim))
    ks = tuple(T.int('k%d' % i, 1, gen=(1, {1: 9, 2: 5, 3: 5}[dim])) for i in range(dim))
    T.assume(T.land(*[a >= b for a, b in zip(shp, ks)]))
    a = T.array('a', shp, gen=(-5, 5))
    k = T.array('k', ks, gen=(-5, 5))
    r = T.call('fft_functions.fftconvolve', a, k)
    if T.frame:
        return
    T.ensure('same shape', T.land(*[T.shape(r)[i] == shp[i] for i in range(dim)]))
    T.forall('the periodic convolution', shp, lambda *ix: ('eq', T.at(r, *ix), T.sum(ks, lambda *m: T.at(k, *m) * T.at(a, *[(i - j + q // 2) % n for i, j, q, n in zip(ix, m, ks, shp)])), 1e-9))
    T.ensure_eq('mean', T.np.mean(r), T.np.mean(a) * T.np.sum(k), atol=1e-9)


@contract('P11', ['smoothing.smooth_gauss', 'smoothing.smooth_tophat', 'smoothing.smooth_with_kernel', 'fft_functions.fftconvolve'], frame=True, bounded='fields of up to 20 cells a side')
def smoothed(T):
    np = T.np
    n = T.int('n', 1, gen=(1, 20))
    kind = T.choice('kind', ['f', 'i', 'complex'])
    a = T.array('field', (n, n), gen=(-9, 9), kind='i' if kind == 'i' else 'f')
    if kind == 'complex':
        a = a + 1j * T.array('im', (n, n), gen=(-9, 9))
    how = T.choice('how', ['gauss', 'fwhm', 'tophat', 'kernel'])
    r, k = smooth(T, a, n, how)
    if T.frame:
        return
    T.ensure_eq('the periodic convolution', r, conv(T, a, k), atol=1e-9)
    T.ensure_eq('mean', r.mean(), a.mean() * k.sum(), atol=1e-9)
    c = T.real('c', gen=(-5, 5))
    r, k = smooth(T, np.zeros((n, n)) + c, n, how)
    T.ensure_eq('constant field', r, np.zeros((n, n)) + c * k.sum(), atol=1e-9)


@contract('P11', ['fft_functions.fftconvolve'], frame=True, bounded='fields of up to 7 cells a side, kernels of up to 7')
def convolve_nd(T):
    np = T.np
    dim = T.choice('dim', [1, 2, 3])
    shp = tuple(T.int('n%d' % i, 1, gen=(1, 7)) for i in range(dim))
    ks = tuple(T.int('k%d' % i, 1, gen=(1, 7)) for i in range(dim))
    bd = T.choice('boundary', ['circular', 'wrap', 'constant', 'nearest', 'reflect', 'mirror'])
    mode = T.choice('mode', ['same', 'full', 'valid'])
    T.assume(all(a >= b for a, b in zip(shp, ks)))
    a = T.array('a', shp, gen=(-5, 5))
    k = T.array('k', ks, gen=(-5, 5))
    if T.bool('complex'):
        k = k * (1 + 2j)
    T.assume(bd != 'reflect' or min(shp) > 1)
    r = T.call('fft_functions.fftconvolve', a, k, mode=mode, boundary=bd)
    if T.frame:
        return
    if bd == 'circular' and mode != 'valid':
        T.ensure_eq('periodic convolution', r, conv(T, a, k), atol=1e-8)
    elif mode == 'same':
        T.ensure('same shape', r.shape == shp)
        p = dict(wrap='wrap', nearest='edge', constant='constant', reflect='reflect', mirror='symmetric')[bd]
        b = np.pad(a, [(s, s) for s in ks], mode=p)
        full = conv(T, b, k)
        T.ensure_eq('convolution of the continued field', r, full[tuple(slice(s, s + n) for s, n in zip(ks, shp))], atol=1e-8)
    elif mode == 'valid':
        full = conv(T, a, k)
        T.ensure_eq('only where the kernel fits', r, full[tuple(slice(s - 1 - s // 2, n - s // 2) for s, n in zip(ks, shp))], atol=1e-8)
    else:
        T.ensure('full shape', r.shape == tuple(x + y - 1 for x, y in zip(shp, ks)))


@contract('P11', ['smoothing.smooth_coeval_tophat', 'smoothing.smooth_coeval_gauss', 'smoothing.smooth_lightcone_gauss'], frame=True)
def cube_along_and_across(T):
    n = T.int('n', 1, gen=(1, 7))
    a = T.array('cube', (n, n, n), gen=(-9, 9), kind=T.choice('kind', ['f', 'i']))
    ax = T.choice('nu_axis', [2, 0, 1])
    w = T.real('fwhm', gt=0.1, gen=(0.2, 6))
    how = T.choice('how', ['across', 'along'])
    f = lambda x: T.call('smoothing.smooth_coeval_gauss', x, w, ax) if how == 'across' else T.call('smoothing.smooth_coeval_tophat', x, w, ax, verbose=False)
    r = f(a)
    if T.frame:
        return
    N3 = (n, n, n)
    T.ensure('shape', T.land(*[p == n for p in T.shape(r)]))
    other = ax if how == 'across' else 1 if ax == 0 else 0
    at = lambda x, y, i: (i, x, y) if other == 0 else (x, i, y) if other == 1 else (x, y, i)
    k = T.call('smoothing.gauss_kernel', n, fwhm=w) if how == 'across' else T.call('smoothing.tophat_kernel', n, w)
    T.forall('each plane with that kernel', N3, lambda x, y, i: ('eq', T.at(r, *at(x, y, i)),
             T.sum((n, n), lambda p, q: T.at(a, *at(p, q, i)) * T.at(k, (x - p + n // 2) % n, (y - q + n // 2) % n)), 1e-9))
    T.ensure_eq('mean', T.np.mean(r), T.np.mean(a), atol=1e-9)
    c = T.real('c', gen=(-5, 5))
    u = f(T.build(N3, lambda *ix: c))
    T.forall('constant cube', N3, lambda *ix: ('eq', T.at(u, *ix), c, 1e-9))


def opaque_tophat():
    """callee contract of smooth_coeval_tophat (cube_along_and_across): an array shaped like the cube, a function of its entries, the width and the axis"""
    from pyded.vals import as_arr, raw, z, zr, Arr
    from pyded.sym import fn, RL, I
    o = abstract_distances()

    def ov(w, fv, args, kw):
        cube = as_arr(args[0])
        width = args[1] if len(args) > 1 else kw['width']
        ax = args[2] if len(args) > 2 else kw['nu_axis']
        f = fn('tophat_of', I, I, I, RL, I, RL)
        return Arr(cube.shape, lambda ix: f(*[z(i) for i in ix], zr(raw(width)), z(raw(ax))), 'f')
    o['smoothing.smooth_coeval_tophat'] = ov
    return o


@contract('P11', ['smoothing.smooth_coeval', 'smoothing.smooth_coeval_gauss'], frame=True, overrides=opaque_tophat)
def coeval_steps(T):
    c = cosmo(T)
    LB = box(T, T.real('LB', gt=1, gen=(20, 400)))
    n = T.int('n', 1, gen=(1, 6))
    a = T.array('cube', (n, n, n), gen=(-9, 9))
    z = T.real('z', lo=5, gen=(5, 12))
    ax = T.choice('nu_axis', [2, 0, 1])
    B, q = T.real('baseline', gt=0.2, gen=(0.3, 4)), T.real('ratio', gt=0.1, gen=(0.2, 2))
    w = (1 + z) * 21e-5 / B * T.call('cosmo.z_to_cdist', z) * n / LB
    T.assume(w > 0.01)
    how = T.choice('box', ['given', 'default'])
    kw = dict(box_size_mpc=LB) if how == 'given' else {}
    if how == 'given':
        T.setmod('conv', LB=1.0)
    r = T.call('smoothing.smooth_coeval', a, z, max_baseline=B, ratio=q, nu_axis=ax, verbose=False, **kw)
    if T.frame:
        return
    t = T.call('smoothing.smooth_coeval_tophat', a, w * q, ax, verbose=False)
    k = T.call('smoothing.gauss_kernel', n, fwhm=w)
    at = lambda x, y, i: (i, x, y) if ax == 0 else (x, i, y) if ax == 1 else (x, y, i)
    T.forall('each sky plane with its beam, after the top-hat in frequency', (n, n, n), lambda x, y, i: ('eq', T.at(r, *at(x, y, i)),
             T.sum((n, n), lambda p, q: T.at(t, *at(p, q, i)) * T.at(k, (x - p + n // 2) % n, (y - q + n // 2) % n)), 1e-8))
    T.ensure_eq('mean of the cube after the top-hat', T.np.mean(r), T.np.mean(t), atol=1e-8)


@contract('P11', ['smoothing.smooth_coeval', 'smoothing.smooth_coeval_tophat', 'smoothing.smooth_coeval_gauss'], frame=True, bounded='cubes of up to 8 cells a side')
def coeval(T):
    np = T.np
    c = cosmo(T)
    LB = box(T, T.real('LB', gt=1, gen=(20, 400)))
    n = T.int('n', 2, gen=(2, 8))
    a = T.array('cube', (n, n, n), gen=(-9, 9))
    z = T.real('z', lo=5, gen=(5, 12))
    ax = T.choice('nu_axis', [2, 0, 1])
    how = T.choice('box', ['given', 'default'])
    kw = dict(max_baseline=T.real('baseline', gt=0.2, gen=(0.3, 4)), ratio=T.real('ratio', gt=0.1, gen=(0.2, 2)), nu_axis=ax, verbose=False)
    w = (1 + z) * 21e-5 / kw['max_baseline'] * T.call('cosmo.z_to_cdist', z) * n / LB
    if how == 'given':
        kw['box_size_mpc'] = LB
        T.setmod('conv', LB=1.0)
    f = lambda x: T.call('smoothing.smooth_coeval', x, z, **kw)
    r = f(a)
    if T.frame:
        return
    T.ensure_eq('mean of the cube', r.mean(), a.mean(), atol=1e-8)
    v = T.real('c', gen=(-5, 5))
    T.ensure_eq('constant cube', f(np.zeros((n, n, n)) + v), np.zeros((n, n, n)) + v, atol=1e-9)
    t = T.call('smoothing.smooth_coeval_tophat', a, w * kw['ratio'], nu_axis=ax, verbose=False)
    k = T.call('smoothing.gauss_kernel', n, fwhm=w)
    sl = lambda x, i: np.take(x, i, axis=ax)
    T.ensure_eq('each sky plane with its beam', np.stack([sl(r, i) for i in range(n)]), np.stack([conv(T, sl(t, i), k) for i in range(n)]), atol=1e-8)
    kt = T.call('smoothing.tophat_kernel', n, w * kw['ratio'])
    other = 1 if ax == 0 else 0
    T.ensure_eq('top-hat in the planes along frequency', np.stack([np.take(t, i, axis=other) for i in range(n)]),
                np.stack([conv(T, np.take(a, i, axis=other), kt) for i in range(n)]), atol=1e-8)


@contract('P11', ['smoothing.interpolate2d', 'smoothing.interpolate3d'], frame=True, bounded='fields of up to 6 cells a side')
def interpolated(T):
    np = T.np
    dim = T.choice('dim', [2, 3])
    shp = tuple(T.int('n%d' % i, 1, gen=(1, 6)) for i in range(dim))
    m = tuple(T.int('m%d' % i, 1, gen=(1, 6)) for i in range(dim))
    xs = [np.linspace(0, s - 1, k) for s, k in zip(shp, m)]
    a = T.array('field', shp, gen=(-5, 5))
    o = T.choice('order', [0, 1, 2, 3])
    f = 'smoothing.interpolate2d' if dim == 2 else 'smoothing.interpolate3d'
    r = T.call(f, a, *xs, order=o)
    if T.frame:
        return
    T.ensure('requested shape', r.shape == m)
    v = T.real('c', gen=(-5, 5))
    T.ensure_eq('constant', T.call(f, np.zeros(shp) + v, *xs, order=o), np.zeros(m) + v, atol=1e-9)
    far = [np.arange(k) * s / k for s, k in zip(shp, m)] if T.bool('centres of the new cells') else [np.linspace(-s, 2 * s, k) for s, k in zip(shp, m)]
    T.ensure_eq('constant beyond the last cell centre', T.call(f, np.zeros(shp) + v, *far, order=o), np.zeros(m) + v, atol=1e-9)
    g = np.meshgrid(*[np.arange(s) for s in shp], indexing='ij')
    at = [np.array([T.int('p%d%d' % (i, j), 0, gen=(0, 5)) % s for j in range(3)]) for i, s in enumerate(shp)]
    if o < 2:
        T.ensure_eq('grid points keep their values', T.call(f, a, *[q + 0.0 for q in at], order=o), a[np.ix_(*at)], atol=1e-9)


@contract('P11', ['smoothing.smooth_line'], frame=True, bounded='lines of up to 40 points')
def line(T):
    np = T.np
    n = T.int('n', 1, gen=(1, 40))
    kind = T.choice('kind', ['tophat', 'boxcar', 'gaussian', 'normal', 'triangular', 'hamming', 'hanning', 'custom', 'custom list'])
    w = T.int('window', 3, gen=(3, 6))
    m = w
    win = w
    if kind.startswith('custom'):
        win = T.array('win', (w,), gt=0, gen=(0.1, 3))
        if kind == 'custom list':
            win = [int(10 * x) + 1 for x in win]
        kw = {}
    else:
        kw = dict(kind=T.choice('case', [kind, kind.upper()]))
        m = dict(gaussian=6 * w + 1, normal=6 * w + 1, triangular=2 * w - 1).get(kind, w)
    T.assume(n >= m)
    y = T.array('y', (n,), gen=(-5, 5))
    c = T.real('c', gen=(-5, 5))
    f = lambda v: T.call('smoothing.smooth_line', v, window=win, **kw)
    r = f(y)
    if T.frame:
        return
    T.ensure('same length', r.shape == (n,))
    T.ensure_eq('a constant stays constant away from the ends', f(np.zeros(n) + c)[m:n - m], (np.zeros(n) + c)[m:n - m], atol=1e-9)
    b = T.array('y2', (n,), gen=(-5, 5))
    T.ensure_eq('linear', f(y + 2 * b), r + 2 * f(b), atol=1e-9)
    if kind in ('gaussian', 'normal'):
        e = np.zeros(n)
        e[n // 2] = 1
        e = f(e)
        T.ensure_eq('Gaussian of that width', e[n // 2 - w: n // 2 + w + 1] / e[n // 2], np.exp(-np.arange(-w, w + 1) ** 2 / (2 * w ** 2)), atol=1e-9)
    T.ensure('averages', bool(np.abs(r).max() <= np.abs(y).max() + 1e-9))
