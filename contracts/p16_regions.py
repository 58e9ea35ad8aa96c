from pyded.kit import contract
from contracts.common import *

R = 'identify_regions.'
S = 'bubble_stats.'


@contract('P16', [R + 'bubbles_from_fixed_threshold'], frame=True)
def fixed_threshold(T):
    dim = T.choice('dim', [3, 2, 1])
    shp = tuple(T.int('n%d' % i, 1, gen=(1, 5)) for i in range(dim))
    a = T.array('data', shp, kind=T.choice('kind', ['f', 'i']), gen=(-4, 4))
    t = T.real('threshold', gen=(-3, 3))
    up = T.choice('upper_lim', [True, False])
    given = T.choice('threshold given', [True, False])
    r = T.call(R + 'bubbles_from_fixed_threshold', a, upper_lim=up, **(dict(threshold=t) if given else {}))
    if T.frame:
        return
    t = t if given else 0
    T.ensure('same shape', T.shape(r) == tuple(shp)) if not T.sym else None
    T.forall('exactly the cells on the chosen side', shp, lambda *ix: T.at(r, *ix) == ((T.at(a, *ix) <= t) if up else (T.at(a, *ix) >= t)))


@contract('P16', [R + 'bubbles_from_triangle3D', R + 'bubbles_from_triangle2D'], frame=True, bounded='boxes of up to 6 cells a side')
def triangle(T):
    np = T.np
    shp = shape3(T, 2, g=(2, 6))
    a = T.array('data', shp, gen=(-4, 4))
    T.assume(all(s.min() < s.max() for ax in range(3) for s in np.moveaxis(a, ax, 0)))
    up = T.choice('upper_lim', [True, False])
    nb = T.int('nbins', 4, gen=(4, 64))
    from skimage.filters import threshold_triangle
    if T.choice('per slice', [False, True]):
        ax = T.choice('loc_axis', [2, 0, 1, -1, -2, -3])
        r = T.call(R + 'bubbles_from_triangle2D', a, upper_lim=up, nbins=nb, loc_axis=ax)
        t = np.median([threshold_triangle(s, nbins=nb) for s in np.moveaxis(a, ax, 0)])
    else:
        r = T.call(R + 'bubbles_from_triangle3D', a, upper_lim=up, nbins=nb)
        t = threshold_triangle(a, nbins=nb)
    if T.frame:
        return
    T.ensure_eq('exactly the cells on the chosen side', np.asarray(r) * 1, ((a <= t) if up else (a >= t)) * 1)


@contract('P16', [R + 'bubbles_from_kmeans', R + 'threshold_kmeans', R + 'threshold_kmeans_3cluster'], frame=True, det=False, bounded='boxes of up to 6 cells a side', minruns=100)
def kmeans(T):
    np = T.np
    shp = shape3(T, g=(1, 6))
    kind = T.choice('values', ['continuous', 'two', 'one'])
    a = T.array('data', shp, gen=(-4, 4), plain=True)
    if kind == 'two':
        a = T.track('two-valued', np.where(a > 0, 2.5, -1.0))
    elif kind == 'one':
        a = T.track('constant', a * 0 + 2.0)
    n = T.choice('n_clusters', [3, 2])
    T.assume(a.size >= n or len(np.unique(a)) <= 2)
    up = T.choice('upper_lim', [True, False])
    T.seed()
    r = T.call(R + 'bubbles_from_kmeans', a, upper_lim=up, n_clusters=n)
    if T.frame:
        return
    r = np.asarray(r)
    T.ensure('a binary cube of the same shape', r.shape == a.shape and bool(np.isin(r, (0, 1)).all()))
    m = r.astype(bool)
    if len(np.unique(a)) < 2:
        T.ensure('a constant field is one region', bool(m.all()))
        return
    T.ensure('some cells on each side', bool(m.any() and not m.all()))
    T.ensure('every chosen cell is beyond every other', bool(a[m].max() <= a[~m].min()) if up else bool(a[m].min() >= a[~m].max()))
    if len(np.unique(a)) == 2:
        T.ensure_eq('the lower or upper value of a two-valued field', m * 1, (a == (a.min() if up else a.max())) * 1)


@contract('P16', [R + 'bubbles_from_slic', 'superpixels.stitch_superpixels', 'superpixels.slic_cube'], frame=True, bounded='boxes of 6 to 9 cells a side', minruns=20, weight=0.5)
def slic(T):
    np = T.np
    n = T.int('n', 6, gen=(6, 9))
    a = T.array('data', (n, n, n), gen=(-4, 4), plain=True)
    ns = T.int('n_segments', 4, gen=(8, 60))
    r = T.call(R + 'bubbles_from_slic', a, n_segments=ns, verbose=False)
    if T.frame:
        return
    lab = T.call('superpixels.slic_cube', a, n_segments=ns, verbose=False)
    r = np.asarray(r).astype(bool)
    T.ensure('same shape', r.shape == a.shape)
    mean = {l: a[lab == l].mean() for l in np.unique(lab)}
    part = {l: (r[lab == l].any(), r[lab == l].all()) for l in mean}
    T.ensure('whole superpixels', all(x == y for x, y in part.values()))
    on = [mean[l] for l in mean if part[l][1]]
    off = [mean[l] for l in mean if not part[l][0]]
    T.ensure('exactly the superpixels below a level', not on or not off or max(on) <= min(off))


def same_partition(T, lab, mask, conn, name):
    from scipy import ndimage
    np = T.np
    ref, m = ndimage.label(mask, structure=ndimage.generate_binary_structure(mask.ndim, conn))
    T.ensure('non-zero label on exactly the cells' + name, bool(((lab != 0) == mask).all()))
    pairs = set(zip(np.asarray(lab)[mask].tolist(), ref[mask].tolist()))
    T.ensure('equal labels on exactly the connected cells' + name, len(pairs) == m and len({p[0] for p in pairs}) == m)
    return ref, m


@contract('P16', [S + 'fof'], frame=True, bounded='boxes of 1 to 3 dimensions, up to 7 cells a side')
def friends(T):
    np = T.np
    dim = T.choice('dim', [3, 2, 1])
    shp = tuple(T.int('n%d' % i, 1, gen=(1, 7)) for i in range(dim))
    a = T.array('data', shp, gen=(0, 1))
    t = T.choice('threshold', [0.5, 0.3, 0.8, 0.0, 1.5])
    conn = T.choice('connectivity', [1, 2, 3])
    T.assume(conn <= dim)
    kw = {} if t == 0.5 else dict(xth=t)
    if conn > 1:
        kw['connectivity'] = conn
    lab, size = T.call(S + 'fof', a, **kw)
    if T.frame:
        return
    mask = a >= t
    ref, m = same_partition(T, lab, mask, conn, '')
    want = sorted(np.bincount(ref.ravel())[1:].tolist())
    T.ensure('every region once', sorted(int(x) for x in size) == want)
    T.ensure('volumes sum to the cells of the mask', int(np.sum(size)) == int(mask.sum()))
    got = [int((lab == l).sum()) for l in np.unique(lab) if l != 0]
    T.ensure('volumes are in the order of the labels', got == [int(x) for x in size])


@contract('P16', ['Friends_of_Friends.FoF_search'], frame=True, bounded='boxes of 1 to 3 dimensions, up to 6 cells a side')
def own_search(T):
    np = T.np
    dim = T.choice('dim', [3, 2, 1])
    shp = tuple(T.int('n%d' % i, 1, gen=(1, 6)) for i in range(dim))
    a = T.array('data', shp, gen=(0, 1))
    t = T.choice('threshold', [0.5, 0.3, 0.8, -0.5, 1.5])
    lab, size = T.call('Friends_of_Friends.FoF_search', a, t)
    if T.frame:
        return
    mask = a > t
    ref, m = same_partition(T, lab, mask, 1, '')
    T.ensure('every region once', sorted(int(x) for x in size) == sorted(np.bincount(ref.ravel())[1:].tolist()))
    T.ensure('volumes sum to the cells of the mask', int(np.sum(size)) == int(mask.sum()))


@contract('P16', ['percolation.find_percolation_cluster', S + 'dist_from_volumes', S + 'plot_fof_sizes'], frame=True, bounded='boxes of 2 to 7 cells a side, up to 20 bins')
def volumes(T):
    np = T.np
    shp = shape3(T, 2, g=(2, 7))
    a = T.array('data', shp, gen=(0, 1))
    t = T.choice('threshold', [0.5, 0.3, 0.8, 0.0])
    p = T.call('percolation.find_percolation_cluster', a, xth=t)
    lab, size = T.call(S + 'fof', a, xth=t)
    if not T.frame:
        T.ensure('no or one of the regions percolates', int(p) == 0 or int(p) in [int(x) for x in size])
        if (a >= t).all():
            T.ensure('a full box percolates', int(p) == a.size)
    T.assume(len(size) > 0)
    nb, res = T.int('bins', 1, gen=(1, 20)), T.real('resolution', gt=0, gen=(0.2, 5))
    v, pv, r, pr = T.call(S + 'dist_from_volumes', size, resolution=res, bins=nb, null_factor=0)
    L = box(T)
    norm = T.choice('normalize', ['box', 'ionized'])
    x, z, low = T.call(S + 'plot_fof_sizes', size, bins=nb, normalize=norm)
    if T.frame:
        return
    lg = np.log10(size)
    h, e = np.histogram(lg, bins=nb)
    T.ensure_eq('volume bins', v, 10 ** e * res ** 3, atol=1e-9 * res ** 3 * a.size * 10)
    T.ensure_eq('volume fractions', pv[:-1], h / len(size))
    h2, e2 = np.histogram(np.log10((size * 3 / 4 / np.pi) ** (1 / 3)), bins=nb)
    T.ensure_eq('radius bins', r, 10 ** e2 * res, atol=1e-9 * res * a.size)
    T.ensure_eq('radius fractions', pr[1:], h2 / len(size))
    T.ensure_eq('size bins', x, 10 ** e, atol=1e-9 * a.size)
    y = h * 10 ** e[:-1]
    y = y / y.sum() if norm == 'ionized' else y / L ** 3
    y = np.where(y == 0, y[y > 0].min() / 10, y)
    T.ensure_eq('volume in every size bin', z[:-1], y, atol=1e-9 * y.max())
