from pyded.kit import contract
from contracts.common import *

S = 'superpixels.'


def labels_of(T, dim, kind=None):
    shp = tuple(T.int('n%d' % i, 1, gen=(1, 5)) for i in range(dim))
    lab = T.array('labels', shp, kind=kind or T.choice('label kind', ['i', 'f']), gen=(-3, 4), vals=(-3, -1, 0, 1, 2, 2.5, 7, 100))
    return shp, lab


@contract('P24', [S + 'superpixel_map'], frame=True)
def given_values(T):
    """the map of given values: every voxel gets the value of its label, labels counted in increasing order"""
    np = T.np
    dim = T.choice('dim', [2, 3])
    shp, lab = labels_of(T, dim, 'i')
    a = T.array('data', shp, gen=(-9, 9))
    u, inv = np.unique(lab, return_inverse=True)
    inv = np.reshape(inv, shp) if not T.sym else inv
    k = T.shape(u)[0]
    m = T.array('values', (k,), gen=(-9, 9))
    if T.sym:
        for loop in (0, 1):
            T.loop(S + 'superpixel_map', k=loop, inv=lambda i, pre: dict(sp_map=T.build(shp, lambda *ix: T.ite(T.at(inv, *ix) < i, T.at(m, T.at(inv, *ix)), 0.0))))
    r = T.call(S + 'superpixel_map', a, lab, mns=m, verbose=False)
    if T.frame:
        return
    T.forall('value of the label', shp, lambda *ix: ('eq', T.at(r, *ix), T.at(m, T.at(inv, *ix))))


@contract('P24', [S + 'see_label'], frame=True)
def one_label(T):
    shp, lab = labels_of(T, T.choice('dim', [2, 3]), 'i')
    l = T.int('label', gen=(-3, 9))
    r = T.call(S + 'see_label', lab, l)
    if T.frame:
        return
    T.forall('the voxels of the label', shp, lambda *ix: ('eq', T.at(r, *ix), T.ite(T.at(lab, *ix) == l, 1.0, 0.0)))


@contract('P24', [S + 'get_combined_mean_std'], frame=True)
def combined(T):
    n = T.int('regions', 1, gen=(1, 6))
    m, s = T.array('means', (n,), gen=(-9, 9)), T.array('sigmas', (n,), lo=0, gen=(0, 5))
    k = T.array('pixels', (n,), kind='i', lo=1, gen=(1, 9))
    N = T.sum((n,), lambda i: T.at(k, i) * 1.0)
    T.assume(N > 1)
    mn, st = T.call(S + 'get_combined_mean_std', m, s, k)
    if T.frame:
        return
    T.ensure_eq('mean of all pixels', mn * N, T.sum((n,), lambda i: T.at(m, i) * T.at(k, i)))
    A = T.sum((n,), lambda i: (T.at(k, i) - 1) * T.at(s, i) * T.at(s, i))
    B = T.sum((n,), lambda i: T.at(k, i) * (T.at(m, i) - mn) * (T.at(m, i) - mn))
    T.lemma('scatter within', A >= 0)
    T.lemma('scatter between', B >= 0)
    V = A + B
    T.ensure_eq('variance of all pixels', st * st * (N - 1), V)


@contract('P24', [S + 'xfrac_volume_estimate', S + 'xfrac_mass_estimate'], frame=True)
def estimates(T):
    np = T.np
    shp = tuple(T.int('n%d' % i, 1, gen=(1, 5)) for i in range(3))
    b = T.array('binary', shp, kind=T.choice('kind', ['b', 'i']), lo=0, hi=1, gen=(0, 1))
    r = T.call(S + 'xfrac_volume_estimate', b)
    d, z = T.real('dT', gen=(-10, 40)), T.real('z', lo=5, hi=15)
    x = T.call(S + 'xfrac_mass_estimate', d, z)
    if T.frame:
        return
    T.ensure_eq('ionized fraction of the volume', r * (shp[0] * shp[1] * shp[2]), T.sum(shp, lambda *ix: T.ite(T.at(b, *ix) * 1 == 1, 1.0, 0.0)))
    T.ensure_eq('mass fraction', (1 - x) * 27 * np.sqrt((1 + z) / 10), d)


BND = 'up to 5 cells a side in 2 and 3 dimensions, labels of any values'


def case(T):
    np = T.np
    shp = tuple(T.int('n%d' % i, 1, 5) for i in range(T.choice('dim', [2, 3])))
    lab = T.array('labels', shp, kind=T.choice('label kind', ['i', 'f']), gen=(-3, 4), vals=(-3, -1, 0, 1, 2, 7, 100))
    if T.bool('numbered from zero'):
        lab = np.unique(lab, return_inverse=True)[1].reshape(shp)
    return shp, T.array('data', shp, gen=(-9, 9), kind=T.choice('data kind', ['f', 'i'])), lab


@contract('P24', [S + 'apply_operator_labelled_data', S + 'get_superpixel_means', S + 'get_superpixel_sigmas', S + 'get_superpixel_n_pixels', S + 'get_superpixel_pixels'], bounded=BND)
def operators(T):
    np = T.np
    shp, a, lab = case(T)
    u = np.unique(lab)
    parts = [a[lab == l] for l in u]
    vb = T.bool('verbose') and len(u) < 2
    time_ = T.mod('superpixels').time
    T.setmod('superpixels', time=type('T', (), dict(sleep=staticmethod(lambda s: None), time=time_.time)))
    for nm, op in (('mean', np.mean), ('sum', np.sum), ('sigma', np.std), ('number', len), ('order', lambda v: (v * np.arange(1, v.size + 1)).sum())):
        r = T.call(S + 'apply_operator_labelled_data', a, lab, operator=op, verbose=vb)
        T.ensure(nm + ': one per label', len(r) == len(u))
        T.ensure_eq(nm + ' over the voxels of each label', np.array(r, float), np.array([op(p) for p in parts], float), atol=1e-9)
    T.ensure_eq('means', T.call(S + 'get_superpixel_means', a, labels=lab, verbose=False), np.array([p.mean() for p in parts]), atol=1e-9)
    T.ensure_eq('sigmas', T.call(S + 'get_superpixel_sigmas', a, labels=lab, verbose=False), np.array([p.std() for p in parts]), atol=1e-9)
    T.ensure_eq('numbers', T.call(S + 'get_superpixel_n_pixels', a, labels=lab), np.array([p.size for p in parts]))
    px = T.call(S + 'get_superpixel_pixels', data=a, labels=lab, verbose=False)
    T.ensure('pixels in the order of the data', len(px) == len(parts) and all(np.array_equal(p, q) for p, q in zip(px, parts)))


@contract('P24', [S + 'superpixel_map', S + 'get_superpixel_means'], bounded=BND)
def mean_map(T):
    np = T.np
    shp, a, lab = case(T)
    r = T.call(S + 'superpixel_map', a, lab, verbose=False)
    want = np.zeros(shp)
    for l in np.unique(lab):
        want[lab == l] = a[lab == l].mean()
    T.ensure_eq('mean of the region', r, want, atol=1e-9)
    T.ensure_eq('total preserved', r.sum(), a.sum() * 1.0, atol=1e-8)
    T.ensure_eq('idempotent', T.call(S + 'superpixel_map', r, lab, verbose=False), r, atol=1e-9)
    u, inv = np.unique(lab, return_inverse=True)
    p = np.argsort(np.argsort(T.array('new numbers', (len(u),), gen=(0, 1)), kind='stable'), kind='stable') * T.choice('spacing', [1, 3]) - T.choice('first', [0, 2])
    T.ensure_eq('numbering of the regions does not matter', T.call(S + 'superpixel_map', a, p[inv.reshape(shp)], verbose=False), r, atol=1e-9)
    time_ = T.mod('superpixels').time
    T.setmod('superpixels', time=type('T', (), dict(sleep=staticmethod(lambda s: None), time=time_.time)))
    if T.bool('verbose') and len(u) < 3:
        m = T.array('values', (len(u),), gen=(-9, 9))
        T.ensure_eq('given values', T.call(S + 'superpixel_map', a, lab, mns=m, verbose=True), m[inv.reshape(shp)])


@contract('P24', [S + 'binary_stitch', S + 'stitch_superpixels', S + 'stitch_using_histogram'], bounded=BND)
def stitched(T):
    np = T.np
    from skimage.filters import threshold_otsu
    shp, a, lab = case(T)
    want = np.zeros(shp)
    for l in np.unique(lab):
        want[lab == l] = a[lab == l].mean()
    thr = a.mean() * 1.0
    kw = {}
    if T.bool('threshold given'):
        thr = kw['thres'] = T.real('thres', gen=(-5, 5))
        T.assume(thr != 0)
    T.assume(np.abs(want - thr).min() > 1e-9)
    T.ensure('regions below the threshold', np.array_equal(T.call(S + 'binary_stitch', a, lab, **kw), want < thr))
    u = np.unique(lab)
    m = np.array([a[lab == l].mean() for l in u])
    if np.ptp(m) > 1e-3 * np.abs(m).max():
        t = threshold_otsu(m)
        if np.abs(want - t).min() > 1e-9:
            T.ensure('Otsu threshold of the region means', np.array_equal(T.call(S + 'binary_stitch', a, lab, stitch='otsu'), want < t))
        b = T.int('bins', 3, 9)
        t = T.call(S + 'stitch_using_histogram', a, m, lab, bins=b, binary=False, verbose=False)
        if np.abs(want - t).min() > 1e-9 and np.abs(a - t).min() > 1e-9:
            T.ensure('map below the threshold of the histogram', np.array_equal(T.call(S + 'stitch_superpixels', a, lab, bins=b, verbose=False), want < t))
            T.ensure('data below it', np.array_equal(T.call(S + 'stitch_superpixels', a, lab, bins=b, on_superpixel_map=False, verbose=False), a < t))


@contract('P24', [S + 'get_superpixel_SNRs', S + 'mean_estimate', S + 'get_combined_mean_std'], bounded=BND)
def ratios(T):
    np = T.np
    shp, a, lab = case(T)
    u = np.unique(lab)
    m = np.array([a[lab == l].mean() for l in u])
    s = np.array([a[lab == l].std() for l in u])
    n = np.array([(lab == l).sum() for l in u])
    T.assume(s.min() > 1e-6)
    T.assume(len(u) < 2 or np.diff(np.sort(m)).min() > 1e-9)
    o = np.argsort(m)
    r = T.call(S + 'get_superpixel_SNRs', means=m, sigmas=s, n_pix=n)
    for nm, x, y in zip(('ratios', 'means', 'sigmas', 'numbers'), r, ((m / s)[o], m[o], s[o], n[o])):
        T.ensure_eq(nm + ' in the order of the means', x, y, atol=1e-9)
    T.setmod('superpixels', time=type('T', (), dict(sleep=staticmethod(lambda s: None))))
    px = T.call(S + 'get_superpixel_SNRs', means=m, sigmas=s, n_pix=n, data=a, labels=lab, pixels=True)[4]
    T.ensure('pixels too', len(px) == len(u) and all(np.array_equal(p, a[lab == u[i]]) for p, i in zip(px, o)))
    th = T.real('SNR_thres', gen=(-2, 3))
    lim = th if th <= 0 else -th
    T.assume(np.abs(m / s - lim).min() > 1e-9)
    k = m / s < lim
    got = T.call(S + 'mean_estimate', a, means=m, sigmas=s, n_pix=n, SNR_thres=th)
    if not k.any():
        T.ensure('nothing significant', tuple(got) == (0, 0))
    elif n[k].sum() > 1:
        mm = np.abs(m[k])
        M = (mm * n[k]).sum() / n[k].sum()
        V = ((n[k] - 1) * s[k] ** 2 + n[k] * (mm - M) ** 2).sum() / (n[k].sum() - 1)
        T.ensure_eq('mean of the significant regions', got[0], M, atol=1e-9)
        T.ensure_eq('their scatter', got[1] ** 2, V, atol=1e-9)


@contract('P24', [S + 'get_combined_mean_std'], bounded='up to 5 groups of 2 to 6 numbers')
def groups(T):
    np = T.np
    g = [T.array('g%d' % i, (T.int('k%d' % i, 2, 6),), gen=(-9, 9)) for i in range(T.int('groups', 1, 5))]
    mn, st = T.call(S + 'get_combined_mean_std', np.array([x.mean() for x in g]), np.array([x.std(ddof=1) for x in g]), np.array([x.size for x in g]))
    x = np.concatenate(g)
    T.ensure_eq('mean of all', mn, x.mean(), atol=1e-9)
    T.ensure_eq('standard deviation of all', st, x.std(ddof=1), atol=1e-9)
