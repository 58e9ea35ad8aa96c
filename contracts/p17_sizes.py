from pyded.kit import contract
from contracts.common import *

S = 'bubble_stats.'


def directions(T, dim):
    """the directions a ray can take, with their probabilities"""
    np = T.np
    t = np.radians(np.arange(360))
    if dim == 2:
        return np.stack([np.sin(t), np.cos(t)], 1)
    p = np.radians(np.arange(360))
    t = t[:181]
    d = np.stack([np.outer(np.sin(t), np.cos(p)), np.outer(np.sin(t), np.sin(p)), np.outer(np.cos(t), np.ones(360))], -1).reshape(-1, 3)
    return d


def weights(T, dim):
    np = T.np
    if dim == 2:
        return np.full(360, 1 / 360)
    w = np.full(181, 2.0)
    w[0] = w[180] = 1.0
    return np.repeat(w / 360, 360) / 360


def inside_mask(T, m, x, slack):
    """interpolated mask above one half; slack widens (+) or narrows (-) the box and the threshold by rounding"""
    np = T.np
    n = np.array(m.shape)
    ok = np.all((x >= -slack) & (x <= n - 1 + slack), 1)
    x = np.clip(x, 0, n - 1)
    i = np.minimum(x.astype(int), np.maximum(n - 2, 0))
    f = x - i
    v = np.zeros(len(x))
    for c in np.ndindex(*(2,) * m.ndim):
        w = np.ones(len(x))
        for ax in range(m.ndim):
            w = w * (f[:, ax] if c[ax] else 1 - f[:, ax])
        v += w * m[tuple(np.minimum(i[:, ax] + c[ax], n[ax] - 1) for ax in range(m.ndim))]
    return ok & (v > 0.5 - slack)


def survival(T, mask, starts, top, slack):
    """probability that a ray is longer than r cells, r = 0 .. top-1"""
    np = T.np
    dim = mask.ndim
    d, w = directions(T, dim), weights(T, dim)
    m = mask.astype(float)
    out = np.zeros(top)
    for s in starts:
        x, dd, ww = np.repeat(np.array(s, float)[None], len(d), 0), d, w
        for r in range(top):
            x = x + dd
            k = inside_mask(T, m, x, slack)
            x, dd, ww = x[k], dd[k], ww[k]
            out[r] += ww.sum()
            if not len(x):
                break
    return out / len(starts)


def longer(T, r, p, cell):
    """measured probability of a ray longer than the k-th radius, from the curve r dP/dr (r in cells)"""
    np = T.np
    n = np.round(r / cell)
    q = np.where(n > 0, p / np.where(n > 0, n, 1), 0)
    return np.array([q[n > k].sum() for k in range(len(r))])


def region_field(T, dim, hi):
    np = T.np
    shp = tuple(T.int('n%d' % i, 2, gen=(2, hi)) for i in range(dim))
    a = T.array('data', shp, gen=(0, 1))
    up = T.choice('upper_lim', [False, True])
    t = T.choice('threshold', [0.5, 0.3, 0.8, 1.5, -0.5, 0.9])
    return shp, a, t, up, (a <= t) if up else (a >= t)


@contract('P17', [S + 'mfp', 'mfp_np.mfp2d', 'mfp_np.mfp3d', 'mfp_np._ray3d'], frame=True, det=False, bounded='boxes of up to 5 cells a side (2 and 3 dimensions), 6000 rays', minruns=20)
def free_paths(T):
    np = T.np
    dim = T.choice('dim', [2, 3])
    shp, a, t, up, mask = region_field(T, dim, 6 if dim == 2 else 4)
    own = T.choice('box size given', [True, False])
    L = T.real('boxsize', gt=0, gen=(10, 500))
    if not own:
        box(T, L)
    kw = dict(boxsize=L) if own else {}
    N = 6000
    T.seed()
    r, p = T.call(S + 'mfp', a, xth=t, upper_lim=up, iterations=N, verbose=False, **kw)
    if T.frame:
        return
    cell = L / shp[0]
    T.ensure_eq('radii in cells of the box', r, np.arange(len(r)) * cell, atol=1e-9 * L)
    T.ensure('never negative', bool((p >= 0).all()))
    if not mask.any():
        T.ensure('no region, no sizes', bool((p == 0).all()))
        return
    got = longer(T, r, p, cell)
    cells = np.argwhere(mask)
    if dim == 3:
        T.assume(len(cells) <= 10)
    top = int(2 * max(shp)) + 2
    lo, hi = survival(T, mask, cells, top, -1e-9), survival(T, mask, cells, top, 1e-9)
    T.ensure('no ray longer than the box diagonal', got[-1] == 0 and len(r) <= top)
    k = len(got)
    T.ensure('every ray is counted', bool(hi[k - 1:].max() <= 0.06))
    T.ensure('lengths are distributed like straight rays from random cells of the mask', bool((got >= lo[:k] - 0.06).all() and (got <= hi[:k] + 0.06).all()))


@contract('P17', [S + 'mfp'], det=False, bounded='boxes of up to 6 cells a side, 500 rays', minruns=50)
def complement(T):
    """asking for the cells below a threshold is asking for the cells above in the mirrored field; only the mask matters; radii scale with the box"""
    np = T.np
    dim = T.choice('dim', [2, 3])
    shp, a, t, up, mask = region_field(T, dim, 6)
    L = T.real('boxsize', gt=0, gen=(10, 500))
    s = T.int('seed', 0, 10 ** 6)
    np.random.seed(s)
    r, p = T.call(S + 'mfp', a, xth=t, upper_lim=up, iterations=500, boxsize=L, verbose=False)
    np.random.seed(s)
    r2, p2 = T.call(S + 'mfp', mask * 1.0, xth=0.5, iterations=500, boxsize=2 * L, verbose=False)
    T.ensure_eq('radii scale', r2, 2 * r, atol=1e-9 * L)
    T.ensure_eq('same sizes from the mask itself', p2, p)
    np.random.seed(s)
    r3, p3 = T.call(S + 'mfp', (~mask) * 1.0, xth=0.5, upper_lim=True, iterations=500, boxsize=L, verbose=False)
    T.ensure_eq('same sizes from the complement', p3, p)
    if dim == 3 or len(r) > 4:
        np.random.seed(s)
        i = np.arange(1, len(r))
        r4, p4 = T.call(S + 'mfp', a, xth=t, upper_lim=up, iterations=500, boxsize=L, verbose=False, bins=r[i])
        T.ensure_eq('given radii', r4, r[i])
        T.ensure_eq('the curve at given radii', p4, p[i], atol=1e-6)
        nb = T.int('bins', 2, gen=(2, 6))
        np.random.seed(s)
        r5, p5 = T.call(S + 'mfp', a, xth=t, upper_lim=up, iterations=500, boxsize=L, verbose=False, bins=nb, r_min=r[1], r_max=r[-1] * 0.999)
        T.ensure_eq('logarithmic radii', r5, r[1] * (r[-1] * 0.999 / r[1]) ** (np.arange(nb) / (nb - 1)), atol=1e-9 * L)


@contract('P17', [S + 'mfp_from_point', 'mfp_np.mfp2d', 'mfp_np.mfp3d'], det=False, bounded='boxes of up to 6 cells a side, 6000 rays', minruns=30)
def from_point(T):
    np = T.np
    dim = T.choice('dim', [2, 3])
    shp, a, t, up, mask = region_field(T, dim, 6)
    T.assume(mask.any())
    L = T.real('boxsize', gt=0, gen=(10, 500))
    pt = [T.int('p%d' % i, 0, gen=(0, 5)) % n for i, n in enumerate(shp)]
    T.seed()
    out = T.call(S + 'mfp_from_point', a, pt, xth=t, upper_lim=up, iterations=6000, boxsize=L, verbose=False)
    if not mask[tuple(pt)]:
        T.ensure('a point outside the regions has no sizes', out is None)
        return
    T.ensure('a result', out is not None and len(out) == 2)
    r, p = out
    cell = L / shp[0]
    T.ensure_eq('radii in cells of the box', r, np.arange(len(r)) * cell, atol=1e-9 * L)
    T.ensure('a probability', bool((p >= 0).all()) and abs(p.sum() - 1) < 1e-9)
    top = int(2 * max(shp)) + 2
    lo, hi = survival(T, mask, [pt], top, -1e-9), survival(T, mask, [pt], top, 1e-9)
    got = 1 - np.cumsum(p)
    k = len(got)
    T.ensure('lengths are those of straight rays from the point', bool((got >= lo[:k] - 0.06).all() and (got <= hi[:k] + 0.06).all()))


@contract('P17', [S + 'averaged_mfp'], det=False, bounded='boxes of up to 5 cells a side', minruns=10, maxruns=60, weight=0.5)
def averaged(T):
    np = T.np
    shp, a, t, up, mask = region_field(T, 3, 5)
    L = T.real('boxsize', gt=0, gen=(10, 500))
    T.assume(mask.sum() >= 3)
    T.seed()
    r, p = T.call(S + 'averaged_mfp', a, xth=t, upper_lim=up, iterations=20, rays_per_point=15, boxsize=L, verbose=False, n_jobs=1)
    T.ensure('never negative', bool((p >= 0).all()))
    cell = L / shp[0]
    T.ensure('radii within the box', bool((r > 0).all() and (r <= 2 * max(shp) * cell).all()))
    w = np.diff(np.log(r))
    T.ensure_eq('equal logarithmic bins', w, 0 * w + w.mean(), atol=1e-9)
    T.ensure_eq('integrates to one over the logarithm of the sizes', p.sum() * w.mean(), 1.0, atol=1e-6)


@contract('P17', [S + 'spa', 'spa_np.spa_np'], frame=True, bounded='boxes of 5 to 9 cells a side, up to 6 scales', minruns=40)
def spherical_average(T):
    np = T.np
    n, ny, nz = shape3(T, 5, (5, 9))
    a = T.array('data', (n, ny, nz), gen=(0, 1))
    up = T.choice('upper_lim', [False, True])
    t = T.choice('threshold', [0.5, 0.3, 0.55, 0.45, 0.05, 0.95])
    k = T.int('nscales', 2, gen=(2, 6))
    how = T.choice('binning', ['log', 'linear'])
    own = T.choice('box size given', [True, False])
    L = T.real('boxsize', gt=0, gen=(10, 500))
    if not own:
        box(T, L)
    r, p = T.call(S + 'spa', a, xth=t, upper_lim=up, nscales=k, binning=how, verbose=False, use_fftconvolve=T.choice('fft', [True, False]), **(dict(boxsize=L) if own else {}))
    if T.frame:
        return
    lo, hi = (2.0, n / 2) if how == 'log' else (1.0, n / 2)
    f = np.arange(k) / (k - 1)
    R = lo * (hi / lo) ** f if how == 'log' else lo + (hi - lo) * f
    T.ensure_eq('radii in units of the box', r, R * L / n, atol=1e-9 * L)
    best = np.zeros(a.shape, int)
    for i in range(k):
        h = int(R[i] + 1e-7)
        x = np.arange(-h, h + 1) ** 2
        d2 = x[:, None, None] + x[:, None] + x
        T.apart(d2, 0 * d2 + R[i] ** 2, 1e-4) if abs(R[i] - round(R[i])) > 1e-7 else None
        K = d2 <= R[i] ** 2 + 1e-7
        m = np.zeros(a.shape)
        pad = np.pad(a, h)
        for o in np.argwhere(K):
            m += pad[tuple(slice(q, q + s) for q, s in zip(o, a.shape))]
        m /= K.sum()
        T.apart(m, 0 * m + t, 1e-9)
        best[(m <= t) if up else (m >= t)] = i + 1
    count = np.array([(best == i + 1).sum() for i in range(k)])
    if count.sum() == 0:
        return
    T.ensure('never negative', bool((p >= 0).all()))
    T.ensure_eq('probabilities add to one', p.sum(), 1.0)
    T.ensure_eq('share of the cells whose largest ionised sphere has the radius', p, count / count.sum())
