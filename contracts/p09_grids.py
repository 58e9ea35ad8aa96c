from pyded.kit import contract
from contracts.common import *

def distance_step(T, c, L, N, z):
    """next redshift one cell further away: the frequency falls by the width of a cell at the local Hubble rate"""
    H = 100.0 * c['h'] * T.np.sqrt(E2(c, z)) if not T.sym else c['H0'] * T.np.sqrt(E2(c, z))
    dnu = c['nu0'] * H * L / ((1 + z) * (1 + z)) / c['c'] / N
    return c['nu0'] / (c['nu0'] / (1 + z) - dnu) - 1


@contract('P09', ['lightcone.redshifts_at_equal_comoving_distance', 'const.Hz'], frame=True)
def distance_grid(T):
    c = cosmo(T)
    N = T.int('box_grid_n', 1, gen=(2, 64))
    own = T.choice('box length given', [True, False])
    L = T.real('box_length', gt=0, gen=(20, 400))
    if not own:
        box(T, L)
    zl = T.real('z_low', lo=0, gen=(5, 9))
    zh = zl + T.real('width', gt=0, gen=(0.01, 1.5))
    if T.sym:
        Z = T.ghost('Z', 1, kind='f')
        T.assume(Z(0) == zl)
        T.given((None,), lambda i: Z(i + 1) == distance_step(T, c, L, N, Z(i)))
        T.given((None,), lambda i: Z(i) >= 0)
        # cells smaller than the Hubble length at every redshift of the interval
        T.loop('lightcone.redshifts_at_equal_comoving_distance', lambda i, pre: dict(z=Z(i), z_array=T.seq(i, Z)), held=lambda k, pre: Z(k) < zh)
    z = T.call('lightcone.redshifts_at_equal_comoving_distance', zl, zh, N, **(dict(box_length_mpc=L) if own else {}))
    if T.frame:
        return
    n = T.shape(z)[0]
    T.ensure_le('at least one redshift', 1, n)
    T.ensure_eq('starts at the lowest redshift', T.at(z, 0), zl)
    T.forall('one cell apart', (n - 1,), lambda i: ('eq', T.at(z, i + 1), distance_step(T, c, L, N, T.at(z, i)), 1e-9))
    T.forall('below the highest redshift', (n,), lambda i: T.at(z, i) < zh)
    T.ensure('the next one would not be', distance_step(T, c, L, N, T.at(z, n - 1)) >= zh - (0 if T.sym else 1e-9))


@contract('P09', ['lightcone.redshifts_at_equal_comoving_distance'])
def step_increases(T):
    """the step of the distance grid goes up for every cell smaller than the Hubble length, and its frequency width is that of the cell"""
    c = cosmo(T)
    L = T.real('box_length', gt=0, gen=(20, 400))
    N = T.int('box_grid_n', 1, gen=(2, 64))
    z = T.real('z', lo=0, gen=(0, 20))
    H = (c['H0'] if T.sym else 100.0 * c['h']) * T.np.sqrt(E2(c, z))
    T.assume(H * L < c['c'] * N * (1 + z))
    z2 = distance_step(T, c, L, N, z)
    T.ensure('increases', z2 > z)
    T.ensure_eq('frequency width of a cell', c['nu0'] / (1 + z) - c['nu0'] / (1 + z2), c['nu0'] * H / ((1 + z) * (1 + z)) / c['c'] * (L / N), atol=1e-9)


@contract('P09', ['lightcone.redshifts_at_equal_frequncy_width'], frame=True)
def frequency_grid(T):
    c = cosmo(T)
    zl = T.real('z_low', lo=0, gen=(5, 9))
    zh = zl + T.real('width', gt=0, gen=(0.01, 1.5))
    dnu = T.real('dnu', gt=0, gen=(0.3, 20))
    nxt = lambda z: (1 + z) / (1 + dnu / c['nu0'] * (1 + z)) - 1
    if T.sym:
        Z = T.ghost('Z', 1, kind='f')
        T.assume(Z(0) == zh)
        T.given((None,), lambda i: Z(i + 1) == nxt(Z(i)))
        T.given((None,), lambda i: Z(i) > -1)
        T.loop('lightcone.redshifts_at_equal_frequncy_width', lambda i, pre: dict(z=Z(i), z_array=T.seq(i, Z)), held=lambda k, pre: Z(k) > zl)
    z = T.call('lightcone.redshifts_at_equal_frequncy_width', zl, zh, dnu)
    if T.frame:
        return
    n = T.shape(z)[0]
    T.ensure_le('at least one redshift', 1, n)
    T.ensure_eq('ends at the highest redshift', T.at(z, n - 1), zh)
    T.forall('one channel apart', (n - 1,), lambda i: ('eq', T.at(z, i), nxt(T.at(z, i + 1)), 1e-9))
    T.forall('above the lowest redshift', (n,), lambda i: T.at(z, i) > zl)
    T.ensure('the next one would not be', nxt(T.at(z, 0)) <= zl + (0 if T.sym else 1e-9))


@contract('P09', ['lightcone.redshifts_at_equal_frequncy_width'])
def channel_width(T):
    """the step of the frequency grid is one channel"""
    c = cosmo(T)
    dnu = T.real('dnu', gt=0, gen=(0.3, 20))
    z = T.real('z', lo=0, gen=(0, 20))
    z2 = (1 + z) / (1 + dnu / c['nu0'] * (1 + z)) - 1
    T.ensure('decreases', z2 < z)
    T.ensure('a redshift', z2 > -1)
    T.ensure_eq('one channel', c['nu0'] / (1 + z2) - c['nu0'] / (1 + z), dnu, atol=1e-9)


@contract('P09', ['lightcone._get_output_z', 'lightcone.redshifts_at_equal_comoving_distance', 'lightcone.redshifts_at_equal_frequncy_width'],
          bounded='2 to 7 cubes, redshift ranges reaching beyond them')
def within_the_files(T):
    """the output redshifts never leave the range of the files, and nothing inside the range is dropped"""
    c = cosmo(T)
    L = T.real('box_length', gt=0, gen=(20, 400))
    K = T.int('cubes', 2, gen=(2, 7))
    fz = T.array('file_redshifts', (K,), lo=0, gen=(6, 12), plain=True)
    T.assume(fz.max() - fz.min() > 0.3)
    N = T.int('box_grid_n', 1, gen=(4, 64))
    zl = T.choice('z_low', [None, T.real('zl', lo=0, gen=(5.5, 8))])
    zh = T.choice('z_high', [None, T.real('zh', lo=0, gen=(9, 13))])
    dnu = T.choice('dnu', [None, T.real('dnu_', gt=0, gen=(0.3, 20))])
    a, b = (fz.min() if zl is None else zl), (fz.max() if zh is None else zh)
    T.assume(b > a + 0.01)
    g = T.call('lightcone.redshifts_at_equal_frequncy_width', a, b, dnu) if dnu else T.call('lightcone.redshifts_at_equal_comoving_distance', a, b, N, box_length_mpc=L)
    want = g[(g >= fz.min()) & (g <= fz.max())]
    T.assume(len(want) > 0)
    r = T.call('lightcone._get_output_z', fz, zl, zh, N, box_length_mpc=L, dnu=dnu)
    T.ensure_eq('the grid within the files', r, want)


@contract('P09', ['lightcone.get_lightcone_subvolume'], bounded='lightcones of up to 4x4x40 cells', frame=True)
def subvolume(T):
    c = cosmo(T)
    box(T, T.real('LB', gt=1, gen=(50, 300)))
    n = T.int('n', 8, gen=(8, 40))
    z0 = T.real('z0', lo=0, gen=(6, 9))
    zs = z0 + T.np.cumsum(T.array('dz', (n,), gt=0, gen=(0.004, 0.02), plain=True))
    lc = T.array('lightcone', (T.int('nx', 1, gen=(1, 4)), T.int('ny', 1, gen=(1, 4)), n))
    zc = zs[0] + (zs[-1] - zs[0]) * T.real('f', lo=0.3, hi=0.7)
    odd, sub, verb = T.bool('odd_num_cells'), T.bool('subtract_mean'), T.bool('verbose')
    nu = lambda z: c['nu0'] / (1 + z)
    zof = lambda v: c['nu0'] / v - 1
    frac = T.real('depth', gt=0, hi=1)
    fov = T.choice('fov', [None, 123.0])
    kw = {} if fov is None else dict(fov_Mpc=fov)
    if T.choice('depth in', ['MHz', 'Mpc']) == 'MHz':
        half = min(nu(zc) - nu(zs[-1]), nu(zs[0]) - nu(zc)) * frac
        lo, hi = zof(nu(zc) + half), zof(nu(zc) - half)
        kw['depth_mhz'] = 2 * half
        T.assume(half > 1e-6)
        depth = None
    else:
        d = T.call('cosmo.z_to_cdist', T.np.array([zs[0], zc, zs[-1]]))
        half = min(d[1] - d[0], d[2] - d[1]) * frac
        T.assume(half > 1e-3)
        depth = kw['depth_mpc'] = 2 * half
        lo, hi = T.call('cosmo.cdist_to_z', d[1] - half), T.call('cosmo.cdist_to_z', d[1] + half)
    T.assume(lo > zs[0] + 1e-9 and hi < zs[-1] - 1e-9)
    i0, i1 = int(T.np.argmin(abs(zs - lo))), int(T.np.argmin(abs(zs - hi)))
    for v in (lo, hi):
        q = T.np.sort(abs(zs - v))
        T.apart(q[0], q[1], 1e-7)
    r, dims, z = T.call('lightcone.get_lightcone_subvolume', lc, zs, zc, odd_num_cells=odd, subtract_mean=sub, verbose=verb, **kw)
    if T.frame:
        return
    k = len(z)
    T.ensure('slices and redshifts match', T.shape(r)[2] == k)
    T.ensure('odd number of slices when asked', (not odd) or k % 2 == 1)
    s = int(T.np.argmin(abs(zs - z[0]))) if k else i0
    T.ensure_eq('contiguous redshifts', z, zs[s:s + k])
    want = lc[:, :, s:s + k]
    if sub:
        want = want - want.mean(axis=(0, 1))
    T.ensure_eq('the slices of these redshifts', r, want, atol=1e-9)
    T.ensure('lower bound within one cell', (not k) or abs(s - i0) <= 1)
    T.ensure('upper bound within one cell', (not k) or abs(s + k - 1 - i1) <= 1)
    T.ensure_eq('transverse size', T.np.array(dims[:2]), T.np.full(2, fov if fov else T.attr(T.mod('conv'), 'LB')))
    if depth is not None:
        T.ensure_eq('depth', dims[2], depth, rtol=1e-6)
