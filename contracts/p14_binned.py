from pyded.kit import contract
from contracts.common import *
from contracts.p13_powernd import field, dims, vol, PS, XS

M = 'power_spectrum.'


def wavenumber(T, ix, shp, L):
    s = 0.0
    for i, n, l in zip(ix, shp, L):
        c = 2 * T.np.pi * (i - n // 2) / l
        s = s + c * c
    return T.np.sqrt(s)


@contract('P14', [M + 'get_k', M + '_get_k', M + '_get_dims'], frame=True)
def modes(T):
    dim = T.choice('dim', [1, 2, 3])
    shp = field(T, dim)
    a = T.array('field', shp)
    args, kw, L = dims(T, dim)
    T.assume(not kw)
    comp, k = T.call(M + 'get_k', a, *args)
    if T.frame:
        return
    for ax in range(dim):
        T.forall('component %d' % ax, shp, lambda *ix: ('eq', T.at(comp[ax], *ix) * L[ax], 2 * T.np.pi * (ix[ax] - shp[ax] // 2), 1e-6))
    T.forall('magnitude', shp, lambda *ix: ('eq', T.at(k, *ix), wavenumber(T, ix, shp, L), 1e-6))


@contract('P14', [M + 'radial_average', M + '_get_k', M + '_get_kbins'], frame=True)
def spherical_bins(T):
    dim = T.choice('dim', [1, 2, 3])
    shp = field(T, dim)
    a = T.array('power', shp, gen=(-9, 9))
    L = [T.real('L%d' % i, gt=0, gen=(1, 500)) for i in range(dim)]
    nb = T.int('bins', 1, gen=(1, 6))
    if T.sym:
        edges = T.array('edges', (nb + 1,))
        T.given((nb,), lambda i: T.at(edges, i) < T.at(edges, i + 1))
    else:
        top = 3.3 * max(n / l for n, l in zip(shp, L))
        edges = T.np.cumsum(T.array('widths', (nb + 1,), gt=0, gen=(0.01, 1), plain=True)) * (top * 2 / (nb + 1)) - T.real('start', gen=(0, 0.2)) * top
    d, k, n = T.call(M + 'radial_average', a, L, kbins=edges)
    if T.frame:
        return

    def inside(b, ix):
        q = wavenumber(T, ix, shp, L)
        return T.land(q >= T.at(edges, b), T.lor(q < T.at(edges, b + 1), T.land(b == nb - 1, q == T.at(edges, b + 1))))
    if not T.sym:
        q = T.call(M + '_get_k', a, L)[1]
        for e in edges:
            T.apart(q, 0 * q + e, 1e-9)
    T.forall('modes per bin', (nb,), lambda b: ('eq', T.at(n, b), T.sum(shp, lambda *ix: T.ite(inside(b, ix), 1.0, 0.0))))
    T.forall('mean over the modes of the bin', (nb,),
             lambda b: T.imp(T.at(n, b) != 0, ('eq', T.at(d, b) * T.at(n, b), T.sum(shp, lambda *ix: T.ite(inside(b, ix), 1.0, 0.0) * T.at(a, *ix)), 1e-6)) if T.sym else
             (True if n[b] == 0 else ('eq', d[b] * n[b], T.sum(shp, lambda *ix: T.ite(inside(b, ix), 1.0, 0.0) * T.at(a, *ix)), 1e-6)))
    T.forall('bin centres', (nb,), lambda b: ('eq', T.at(k, b) * 2, T.at(edges, b) + T.at(edges, b + 1), 1e-9))


def edges_array(T, name, n, lo, hi, touch=False):
    """n+1 increasing bin edges"""
    if T.sym:
        e = T.array(name, (n + 1,))
        T.given((n,), lambda i: T.at(e, i) < T.at(e, i + 1))
        return e
    w = T.array(name, (n + 1,), gt=0, gen=(0.05, 1), plain=True)
    T.assume(lo < hi)
    e = lo + (hi - lo) * (T.np.cumsum(w) - w[0]) / (w.sum() - w[0])
    return e


def in_bin(T, q, e, b, n):
    lo, hi = T.at(e, b), T.at(e, b + 1)
    return T.land(q >= lo, T.lor(q < hi, T.land(b == n - 1, q == hi)))


@contract('P14', [M + 'mu_binning', M + '_get_k', M + '_get_mu', M + '_get_kbins', M + '_get_nonzero_idx'], frame=True, minruns=300, bounded='boxes of up to 5 cells a side, up to 4x4 bins')
def mu_bins(T):
    shp = shape3(T, g=(1, 5))
    a = T.array('power', shp, gen=(-9, 9))
    L = [T.real('L%d' % i, gt=0, gen=(1, 500)) for i in range(3)]
    los = T.choice('los_axis', [0, 1, 2])
    nk, nm = T.int('kbins', 1, gen=(1, 4)), T.int('mubins', 1, gen=(1, 4))
    drop = T.choice('exclude_zero_modes', [True, False])
    absmu = T.choice('absolute_mus', [True, False])
    top = None if T.sym else 3.3 * max(n / l for n, l in zip(shp, L))
    ke = edges_array(T, 'kedges', nk, None if T.sym else top * T.real('start', lo=0, gen=(0, 0.2)), None if T.sym else 2 * top)
    me = edges_array(T, 'muedges', nm, 0.0 if absmu else -1.0, 1.0)
    p = a * 1.0
    d, mc, kc, n = T.call(M + 'mu_binning', p, los, me, ke, L, None, drop, absolute_mus=absmu)
    if T.frame:
        return

    def inside(i, b, ix):
        q = wavenumber(T, ix, shp, L)
        z = 2 * T.np.pi * (ix[los] - shp[los] // 2) / L[los]
        mu = T.ite(q == 0, 2.0, (abs(z / q) if absmu else z / q) if T.sym or q else 2.0)
        ok = T.land(q != 0, in_bin(T, q, ke, b, nk), in_bin(T, mu, me, i, nm))
        if drop:
            x, y = [ax for ax in range(3) if ax != los]
            ok = T.land(ok, T.lor(ix[x] != shp[x] // 2, ix[y] != shp[y] // 2))
        return T.ite(ok, 1.0, 0.0)
    if not T.sym:
        kk = T.call(M + '_get_k', a, L)
        z = kk[0][los]
        for e in ke:
            T.apart(kk[1], 0 * kk[1] + e, 1e-9)
        with T.np.errstate(all='ignore'):
            mu = T.np.where(kk[1] > 0, z / T.np.where(kk[1] > 0, kk[1], 1), 0.123456)
        for e in me[1:-1]:
            T.apart(abs(mu) if absmu else mu, 0 * mu + e, 1e-9)
    T.forall('modes per bin', (nm, nk), lambda i, b: ('eq', T.at(n, i, b), T.sum(shp, lambda *ix: inside(i, b, ix))))
    tot = lambda i, b: T.sum(shp, lambda *ix: inside(i, b, ix) * T.at(a, *ix))
    T.forall('mean over the modes of the bin', (nm, nk),
             lambda i, b: T.imp(T.at(n, i, b) != 0, ('eq', T.at(d, i, b) * T.at(n, i, b), tot(i, b), 1e-6)) if T.sym else
             (True if n[i, b] == 0 else ('eq', d[i, b] * n[i, b], tot(i, b), 1e-6)))
    T.forall('wavenumber bin centres', (nk,), lambda b: ('eq', T.at(kc, b) * 2, T.at(ke, b) + T.at(ke, b + 1), 1e-9))
    T.forall('mu bin centres', (nm,), lambda b: ('eq', T.at(mc, b) * 2, T.at(me, b) + T.at(me, b + 1), 1e-9))


def spectrum_edges(T, L, shp, kind=None):
    """a documented bin specification: its argument(s) and the edges it stands for"""
    np = T.np
    q = T.call(M + '_get_k', np.zeros(shp), L)[1]
    lo, hi = 2 * np.pi / min(L), float(q.max())
    T.assume(lo < hi)
    how = T.choice('bins', ['log', 'linear', 'mixed', 'edges', 'edge list'])
    n = T.int('kbins', 1, gen=(1, 6))
    if how in ('edges', 'edge list'):
        e = edges_array(T, 'kedges', n, hi * T.real('start', lo=0, gen=(0, 0.3)), hi * T.real('end', gt=0.35, gen=(0.4, 1.2)))
        for x in e:
            T.apart(q, 0 * q + x, 1e-9)
        return dict(kbins=list(e) if how == 'edge list' else e), e
    lg = lo * (hi / lo) ** (np.arange(n + 1) / n)
    ln = lo + (hi - lo) * np.arange(n + 1) / n
    for e in (lg, ln):
        e[0], e[-1] = lo, hi
    kw = dict(kbins=n, binning=how)
    if how == 'mixed':
        b = kw['breakpoint'] = float(lo + (hi - lo) * T.real('breakpoint', gen=(0.1, 0.9)))
        T.apart(lg, 0 * lg + b, 1e-9)
        T.apart(ln, 0 * ln + b, 1e-9)
        e = np.concatenate([ln[ln < b], lg[lg > b]])
        T.assume(len(e) > 1)
    else:
        e = ln if how == 'linear' else lg
    for x in e[1:-1]:
        T.apart(q, 0 * q + x, 1e-9)
    T.apart(q[(q != lo) & (q != hi)], 0 * q[(q != lo) & (q != hi)] + lo, 1e-9)
    T.apart(q[(q != lo) & (q != hi)], 0 * q[(q != lo) & (q != hi)] + hi, 1e-9)
    return kw, e


def bins_of(T, q, e):
    """bin number of every value, -1 outside; the last bin is closed"""
    np = T.np
    n = len(e) - 1
    r = np.zeros(np.shape(q), int) - 1
    for b in range(n):
        r[(q >= e[b]) & ((q < e[b + 1]) | ((b == n - 1) & (q == e[b + 1])))] = b
    return r


def some_window(T, shp):
    """(argument, factor) of the documented tapers"""
    from scipy.signal import windows
    np = T.np
    w = T.choice('window', [None, 'blackmanharris', 'tukey', 'Tukey', 'array'])
    if w is None or len(shp) != 3:
        return None, 1.0
    if w == 'array':
        a = T.array('taper', shp, gen=(0, 1))
        return a, a
    return w, getattr(windows, w.lower())(shp[-1])[None, None, :]


def box_spec(T, dim):
    args, kw, L = dims(T, dim)
    if not kw:
        kw = dict(box_dims=args[0])
    return kw, L


def own_power(T, a, b, L):
    np = T.np
    f, g = np.fft.fftshift(np.fft.fftn(a)), np.fft.fftshift(np.fft.fftn(b))
    return (f * g.conj()).real * np.prod(L) / a.size ** 2


def own_k(T, shp, L):
    np = T.np
    return [2 * np.pi * (np.indices(shp)[i] - shp[i] // 2) / L[i] for i in range(len(shp))]


def check_bins(T, d, n, P, idx, count, scale, name=''):
    np = T.np
    for b in np.ndindex(*count):
        sel = np.ones(P.shape, bool)
        for x, i in zip(idx, b):
            sel &= x == i
        if n is not None:
            T.ensure('modes per bin' + name, n[b] == sel.sum())
        if sel.any():
            T.ensure_eq('mean over the modes of the bin' + name, d[b], P[sel].mean(), atol=1e-9 * scale)


@contract('P14', [M + 'power_spectrum_1d', M + 'cross_power_spectrum_1d', M + 'apply_window', M + 'radial_average', M + '_get_kbins', M + '_get_dims'], frame=True,
          bounded='fields of 1 to 3 dimensions with up to 6 cells a side, up to 6 bins', minruns=200)
def spherical_spectrum(T):
    dim = T.choice('dim', [1, 2, 3])
    shp = tuple(T.int('n%d' % i, 2, gen=(2, 6)) for i in range(dim))
    a = T.array('field', shp, gen=(-9, 9), kind=T.choice('kind', ['f', 'i']))
    bkw, L = box_spec(T, dim)
    kw, e = spectrum_edges(T, L, shp)
    cross = T.choice('cross', [False, True])
    modes = T.choice('return_n_modes', [True, False])
    if cross:
        b = T.array('other', shp, gen=(-9, 9))
        r = T.call(M + 'cross_power_spectrum_1d', a, b, return_n_modes=modes, **kw, **bkw)
    else:
        w, f = some_window(T, shp)
        r = T.call(M + 'power_spectrum_1d', a, return_n_modes=modes, window=w, **kw, **bkw)
        a = b = a * f
    if T.frame:
        return
    T.ensure('as many results as asked for', len(r) == (3 if modes else 2))
    P = own_power(T, a, b, L)
    q = T.np.sqrt(sum(c * c for c in own_k(T, shp, L)))
    q = T.call(M + '_get_k', a, L)[1]
    T.ensure_eq('bin centres', r[1], (e[1:] + e[:-1]) / 2)
    check_bins(T, r[0], r[2] if modes else None, P, [bins_of(T, q, e)], (len(e) - 1,), abs(P).max())


@contract('P14', [M + 'power_spectrum_2d', M + 'apply_window', M + '_get_dims'], frame=True,
          bounded='boxes of up to 6 cells a side, up to 5x5 bins', minruns=200)
def cylindrical_spectrum(T):
    np = T.np
    shp = tuple(T.int('n%d' % i, 2, gen=(2, 6)) for i in range(3))
    a = T.array('field', shp, gen=(-9, 9))
    kw, L = box_spec(T, 3)
    nu = T.choice('nu_axis', [2, 1, 0])
    w, f = some_window(T, shp)
    comp = own_k(T, shp, L)
    xy = [i for i in range(3) if i != nu]
    kz = abs(comp[nu])
    kp = np.sqrt(comp[xy[0]] ** 2 + comp[xy[1]] ** 2)
    ranges = [(v[v > 0].min(), v.max()) for v in (kp, kz)]
    T.assume(all(lo < hi * 0.999 for lo, hi in ranges))
    n = [T.int('nper', 1, gen=(1, 5)), T.int('npar', 1, gen=(1, 5))]
    how = T.choice('bins', ['count', 'counts', 'edges'])
    log = T.choice('binning', ['log', 'linear']) == 'log'
    if how == 'count':
        n[1] = n[0]
    if how == 'edges':
        e = [edges_array(T, 'e%d' % i, n[i], hi * T.real('start%d' % i, lo=0, gen=(0, .3)), hi * T.real('end%d' % i, gt=0.35, gen=(0.5, 1.2))) for i, (lo, hi) in enumerate(ranges)]
        kb = e
    else:
        e = [lo * (hi / lo) ** (np.arange(m + 1) / m) if log else lo + (hi - lo) * np.arange(m + 1) / m for m, (lo, hi) in zip(n, ranges)]
        kb = n[0] if how == 'count' else list(n)
    modes = T.choice('return_modes', [True, False])
    r = T.call(M + 'power_spectrum_2d', a, kbins=kb, binning='log' if log else 'linear', nu_axis=nu, window=w, return_modes=modes, **kw)
    if T.frame:
        return
    T.ensure('as many results as asked for', len(r) == (4 if modes else 3))
    idx = []
    for q, x, (lo, hi) in zip((kp, kz), e, ranges):
        if how != 'edges':
            x[0], x[-1] = x[0] * (1 - 1e-12), x[-1] * (1 + 1e-12)
        T.apart(np.repeat(q.ravel()[:, None], len(x), 1), np.repeat(x[None], q.size, 0), 1e-13 if how != 'edges' else 1e-9)
        for y in x[1:-1]:
            T.apart(q, 0 * q + y, 1e-9)
        idx.append(bins_of(T, q, x))
    P = own_power(T, a * f, a * f, L)
    for i in (0, 1):
        x = e[i]
        mid = np.sqrt(x[1:] * x[:-1]) if log and how != 'edges' else (x[1:] + x[:-1]) / 2
        T.ensure_eq('bin centres', r[1 + i], mid, atol=1e-9 * x[-1])
    check_bins(T, r[0], r[3] if modes else None, P, idx, tuple(n), abs(P).max())


@contract('P14', [M + 'power_spectrum_mu', M + 'cross_power_spectrum_mu', M + 'mu_binning', M + '_get_mu', M + '_get_nonzero_idx', M + '_get_kbins'], frame=True,
          bounded='boxes of up to 6 cells a side, up to 6x5 bins', minruns=200)
def mu_spectrum(T):
    np = T.np
    shp = tuple(T.int('n%d' % i, 2, gen=(2, 6)) for i in range(3))
    a = T.array('field', shp, gen=(-9, 9))
    bkw, L = box_spec(T, 3)
    kw, e = spectrum_edges(T, L, shp)
    T.assume(kw.get('binning', 'log') == 'log')
    kw.pop('binning', 0)
    los = T.choice('los_axis', [0, 1, 2])
    absmu = T.choice('absolute_mus', [True, False])
    drop = T.choice('exclude_zero_modes', [True, False])
    modes = T.choice('return_n_modes', [True, False])
    nm = T.int('mubins', 1, gen=(1, 5))
    lo = 0.0 if absmu else -1.0
    me = lo + (1 - lo) * np.arange(nm + 1) / nm
    mb = nm
    if T.choice('mu bins', ['count', 'edges']) == 'edges':
        me = edges_array(T, 'muedges', nm, lo, T.real('mutop', gt=lo, lt=1, gen=(0.3, 0.95)))
        mb = me
    wt = T.array('weights', shp, gt=0, gen=(0.1, 2)) if T.choice('weighted', [False, True]) else None
    cross = T.choice('cross', [False, True])
    kw.update(bkw, los_axis=los, mubins=mb, weights=wt, exclude_zero_modes=drop, return_n_modes=modes, absolute_mus=absmu)
    b = T.array('other', shp, gen=(-9, 9)) if cross else a
    r = T.call(M + 'cross_power_spectrum_mu', a, b, **kw) if cross else T.call(M + 'power_spectrum_mu', a, **kw)
    if T.frame:
        return
    T.ensure('as many results as asked for', len(r) == (4 if modes else 3))
    P = own_power(T, a, b, L)
    comp = own_k(T, shp, L)
    q = T.call(M + '_get_k', a, L)[1]
    z = comp[los]
    mu = np.where(q > 0, z / np.where(q > 0, q, 1), np.nan)
    if absmu:
        mu = abs(mu)
    for x in me[1:-1]:
        T.apart(np.where(q > 0, mu, 0.1234567), 0 * mu + x, 1e-9)
    mu = np.clip(mu, -1, 1)
    mu = np.where(abs(mu) > 1 - 1e-12, np.sign(mu), mu)
    ki, mi = bins_of(T, q, e), bins_of(T, mu, me)
    ki[tuple(n // 2 for n in shp)] = -1
    if drop:
        x, y = [i for i in range(3) if i != los]
        ki[(comp[x] == 0) & (comp[y] == 0)] = -1
    T.ensure_eq('mu bin centres', r[1], (me[1:] + me[:-1]) / 2)
    T.ensure_eq('wavenumber bin centres', r[2], (e[1:] + e[:-1]) / 2)
    d, n = r[0], r[3] if modes else None
    for i, j in np.ndindex(nm, len(e) - 1):
        sel = (mi == i) & (ki == j)
        if n is not None:
            T.ensure('modes per bin', n[i, j] == sel.sum())
        if sel.any():
            v = P[sel].mean() if wt is None else (P * wt)[sel].sum() / wt[sel].sum()
            T.ensure_eq('weighted mean over the modes of the bin', d[i, j], v, atol=1e-9 * abs(P).max())


@contract('P14', [M + 'dimensionless_ps', M + 'power_spectrum_1d'], frame=True, bounded='boxes of 3 to 8 cells a side, up to 5 bins', minruns=100)
def dimensionless(T):
    np = T.np
    n = T.int('n', 3, gen=(3, 8))
    a = T.array('field', (n, n, n), gen=(-9, 9))
    L = box(T)
    nb, f = T.int('kbins', 1, gen=(1, 5)), T.int('factor', 2, gen=(2, 4))
    how = T.choice('binning', ['log', 'linear'])
    given = T.choice('box_dims', [True, False])
    kw = dict(box_dims=L) if given else {}
    r, k = T.call(M + 'dimensionless_ps', a, kbins=nb, binning=how, factor=f, **kw)
    if T.frame:
        return
    P, ks = T.call(M + 'power_spectrum_1d', a, kbins=nb * f, box_dims=L, binning=how)
    lo, hi = ks[1], ks[-1]
    t = np.arange(nb) / max(nb - 1, 1)
    want = lo * (hi / lo) ** t if how == 'log' else lo + (hi - lo) * t
    T.ensure_eq('wavenumbers', k, want, atol=1e-9 * hi)
    T.apart(k[:, None] + 0 * ks, ks[None] + 0 * k[:, None], 1e-9) if nb > 2 else None
    D = ks ** 3 * P / (2 * np.pi ** 2)
    i = np.clip(np.searchsorted(ks, k) - 1, 0, len(ks) - 2)
    w = (k - ks[i]) / (ks[i + 1] - ks[i])
    ref = D[i] + w * (D[i + 1] - D[i])
    ok = np.isfinite(ref) & np.isfinite(r)
    T.ensure_eq('k^3 P / 2 pi^2 of the finely binned spectrum, interpolated', np.where(ok, r, 0), np.where(ok, ref, 0), atol=1e-6 * np.nanmax(abs(D)))
    fin = np.isfinite(D[i]) & np.isfinite(D[i + 1])
    T.ensure('a value wherever both neighbouring bins have modes', bool(np.isfinite(r[fin]).all()))


@contract('P14', ['power_legendre.power_spectrum_multipoles', M + '_get_mu', M + '_get_nonzero_idx'], frame=True, bounded='boxes of up to 6 cells a side, up to 6 bins', minruns=100)
def multipoles(T):
    np = T.np
    shp = tuple(T.int('n%d' % i, 2, gen=(2, 6)) for i in range(3))
    a = T.array('field', shp, gen=(-9, 9))
    args, bkw, L = dims(T, 3)
    T.assume(not bkw)
    kw, e = spectrum_edges(T, L, shp)
    T.assume(kw.get('binning', 'log') == 'log')
    kw.pop('binning', 0)
    los = T.choice('los_axis', [0, 1, 2])
    drop = T.choice('exclude_zero_modes', [True, False])
    r, k = T.call('power_legendre.power_spectrum_multipoles', a, box_dims=args[0], los_axis=los, exclude_zero_modes=drop, **kw)
    if T.frame:
        return
    comp = own_k(T, shp, L)
    q = T.call(M + '_get_k', a, L)[1]
    idx = bins_of(T, q, e)
    if drop:
        x, y = [i for i in range(3) if i != los]
        idx[(comp[x] == 0) & (comp[y] == 0)] = -1
    P = own_power(T, a, a, L)
    mu = np.where(q > 0, comp[los] / np.where(q > 0, q, 1), np.nan)
    T.ensure_eq('bin centres', k, (e[1:] + e[:-1]) / 2)
    for b in range(len(e) - 1):
        sel = idx == b
        T.ensure('modes per bin', r['nmodes'][b] == sel.sum())
        if sel.any() and q[sel].min() > 0:
            m2 = mu[sel] ** 2
            for name, l in (('P0', 1 + 0 * m2), ('P2', (3 * m2 - 1) / 2), ('P4', (35 * m2 ** 2 - 30 * m2 + 3) / 8)):
                # the roots of the fourth polynomial are coded to six digits
                tol = 1e-4 * (1 + abs(l).sum() / (l * l).sum())
                T.ensure_eq('multipole ' + name, r[name][b], (P[sel] * l).sum() / (l * l).sum(), atol=tol * abs(P).max())
