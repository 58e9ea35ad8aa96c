from pyded.kit import contract
from contracts.common import *

S = 'radio_telescope_sensitivity.'
N = 'radio_telescope_noise.'


def sefd_of(T, c, nu, Ts, D, ep):
    """2 k T / A in Jansky with A the aperture efficiency times the area of the station"""
    np = T.np
    if Ts is None:
        Ts = 60.0 * (300.0 / nu) ** 2.55 + 100.0
    if ep is None:
        ep = T.ite(nu > 110.0, (110.0 / nu) * (110.0 / nu), 1.0)
    return 2 * c['KB_SI'] * Ts / (ep * np.pi * (D / 2) * (D / 2)) / c['janskytowatt']


def telescope(T):
    Ts = T.real('T_sys', gt=0, gen=(20, 2000)) if T.bool('T_sys given') else None
    ep = T.real('ep_aperture', gt=0, gen=(.1, 1)) if T.bool('efficiency given') else None
    D = T.real('D_station', gt=0, gen=(5, 60))
    kw = dict(D_station=D)
    if Ts is not None:
        kw['T_sys'] = Ts
    if ep is not None:
        kw['ep_aperture'] = ep
    return Ts, ep, D, kw


@contract('P21', [S + 'get_SEFD'], frame=True)
def sefd(T):
    m = T.mod('const')
    c = {k: getattr(m, k) for k in FIXED}
    Ts, ep, D, kw = telescope(T)
    if T.bool('one frequency'):
        nu = T.real('nu', gt=1, gen=(50, 300))
        r = T.call(S + 'get_SEFD', nu, **kw)
        if not T.frame:
            T.ensure('a number', T.is_scalar(r))
            T.ensure_eq('radiometer', r, sefd_of(T, c, nu, Ts, D, ep))
        return
    n = T.int('frequencies', 2, gen=(2, 6))
    nu = T.array('nu', (n,), gt=1, gen=(50, 300))
    r = T.call(S + 'get_SEFD', nu, **kw)
    if not T.frame:
        T.ensure('one per frequency', T.land(len(T.shape(r)) == 1, T.shape(r)[0] == n))
        T.forall('radiometer', (n,), lambda i: ('eq', T.at(r, i), sefd_of(T, c, T.at(nu, i), Ts, D, ep)))


@contract('P21', [S + 'get_SEFD'], bounded='up to 6 frequencies, tables of up to 6 rows')
def sefd_models(T):
    np = T.np
    n = T.int('frequencies', 1, 6)
    nu = T.array('nu', (n,), gt=1, gen=(50, 300))
    a, b = T.real('a', gen=(10, 900)), T.real('b', gen=(-2, 0))
    c = {k: getattr(T.mod('const'), k) for k in FIXED}
    r = T.call(S + 'get_SEFD', nu, T_sys=lambda v: a * v ** b, ep_aperture=lambda v: 50. / v)
    want = np.array([sefd_of(T, c, v, a * v ** b, 40., 50. / v) for v in nu])
    T.ensure_eq('models as functions of the frequency', np.atleast_1d(r), want)
    m = T.int('rows', 2, 6)
    x = np.sort(T.array('nu_data', (m,), gt=1, gen=(50, 300)))
    T.assume(np.diff(x).min() > 1)
    y = T.array('sefd_data', (m,), gt=1, gen=(500, 5000))
    k = T.int('row', 0, gen=(0, 5)) % m
    T.ensure_eq('measured values', T.call(S + 'get_SEFD', x, sefd_data=y, nu_data=x), y)
    j = T.int('interval', 0, gen=(0, 5)) % (m - 1)
    q = (x[j] + x[j + 1]) / 2
    T.ensure_eq('geometric mean half way', T.call(S + 'get_SEFD', q, sefd_data=y, nu_data=x), np.sqrt(y[j] * y[j + 1]))
    T.ensure('table without frequencies', not T.try_call(S + 'get_SEFD', q, sefd_data=y)[0])


@contract('P21', [S + 'sigma_noise_radio', S + 'get_SEFD'], frame=True)
def rms(T):
    np = T.np
    m = T.mod('const')
    c = {k: getattr(m, k) for k in FIXED}
    Ts, ep, D, kw = telescope(T)
    z, B = T.real('z', lo=0, gen=(5, 20)), T.real('depth_mhz', gt=0, gen=(0.01, 5))
    obs, it = T.real('obs_time', gt=0, gen=(1, 3000)), T.real('int_time', gt=0, gen=(1, 100))
    n = T.int('N_ant', 2, gen=(2, 600))
    sg, v = T.call(S + 'sigma_noise_radio', z, B, obs, it, N_ant=n, verbose=False, **kw)
    if T.frame:
        return
    q = sefd_of(T, c, 1420. / (1 + z), Ts, D, ep)
    T.ensure_eq('noise of one visibility', v * v * (2 * B * it), q * q * 1e6, rtol=1e-7)
    T.ensure_eq('noise of the image', sg * sg * (n * (n - 1) / 2) * (3600 * obs) * (2 * B), q * q * 1e6, rtol=1e-7)
    T.ensure('positive', T.land(v > 0, sg > 0))


@contract('P21', [S + 'kelvin_jansky_conversion', S + 'jansky_2_kelvin', S + 'kelvin_2_jansky'], frame=True, overrides=abstract_distances)
def units_of_brightness(T):
    c = cosmo(T)
    lb = box(T)
    z = T.real('z', gen=(5, 20), lo=1, hi=30)
    dim = T.choice('dim', [2, 3])
    shp = tuple(T.int('n%d' % k, 1, gen=(1, 5)) for k in range(dim))
    a = T.array('map', shp, gen=(-9, 9))
    kw = {}
    n, L = shp[0], lb
    if T.bool('cells given'):
        n = kw['ncells'] = T.int('ncells', 1, gen=(1, 50))
    if T.bool('box given'):
        L = kw['boxsize'] = T.real('boxsize', gt=0, gen=(10, 900))
    T.assume(T.call('cosmo.z_to_cdist', z) > 0)
    j = T.call(S + 'kelvin_2_jansky', a, z, **kw)
    k = T.call(S + 'jansky_2_kelvin', a, z, **kw)
    if T.frame:
        return
    Dc = T.call('cosmo.z_to_cdist', z)
    th = L / Dc / n
    nu = 1420. / (1 + z) * 1e6
    f = 2 * c['KB_SI'] * nu * nu / c['c_light_SI'] / c['c_light_SI'] / c['janskytowatt'] * 1e3 * th * th
    T.ensure_eq('Rayleigh-Jeans brightness of a pixel', T.call(S + 'kelvin_jansky_conversion', n, z, boxsize=L), f)
    T.forall('Jansky of Kelvin', shp, lambda *i: ('eq', T.at(j, *i), T.at(a, *i) * f))
    T.forall('Kelvin of Jansky', shp, lambda *i: ('eq', T.at(k, *i) * f, T.at(a, *i)))
    b = T.call(S + 'jansky_2_kelvin', j, z, **kw)
    T.forall('inverse', shp, lambda *i: ('eq', T.at(b, *i), T.at(a, *i)))


def sampling(T, n):
    return T.array('uv_map', (n, n), lo=0, gen=(0, 4), kind=T.choice('uv kind', ['i', 'f']))


@contract('P21', [N + 'apply_uv_response_noise'], frame=True)
def weighting(T):
    np = T.np
    n = T.int('ncells', 1, gen=(1, 6))
    uv = sampling(T, n)
    x = T.array('noise', (n, n), kind='c', gen=(-5, 5))
    w = T.choice('uv_weighting', ['natural', 'nat', 'uniform', 'uni', 'Natural'])
    kw = {}
    cut = 0.01
    if T.bool('threshold given'):
        cut = kw['uv_map_min'] = T.real('uv_map_min', gt=0, gen=(0.001, 2))
    r = T.call(N + 'apply_uv_response_noise', x, uv, uv_weighting=w, **kw)
    if T.frame:
        return
    nat = w.lower() != 'uniform' and w != 'uni'
    for nm, part in (('real', np.real), ('imaginary', np.imag)):
        p, q = part(r), part(x)
        T.forall('%s part' % nm, (n, n), lambda i, j: ('eq', T.at(p, i, j), T.ite(T.at(uv, i, j) < cut, 0., T.at(q, i, j) / (np.sqrt(T.at(uv, i, j)) if nat else 1.))))


@contract('P21', [S + 'apply_uv_response'], frame=True)
def weighting_loop(T):
    np = T.np
    n = T.int('ncells', 1, gen=(1, 6))
    uv = sampling(T, n)
    x = T.array('noise', (n, n), kind='c', gen=(-5, 5))
    r = T.call(S + 'apply_uv_response', x, uv)
    if T.frame:
        return
    for nm, part in (('real', np.real), ('imaginary', np.imag)):
        p, q = part(r), part(x)
        T.forall('%s part' % nm, (n, n), lambda i, j: ('eq', T.at(p, i, j), T.ite(T.at(uv, i, j) == 0, 0., T.at(q, i, j) / np.sqrt(T.at(uv, i, j)))))


@contract('P21', [N + 'apply_uv_response_on_image'], frame=True)
def image(T):
    np = T.np
    n, m = T.int('nx', 1, gen=(1, 6)), T.int('ny', 1, gen=(1, 6))
    uv = T.array('uv_map', (n, m), lo=0, gen=(0, 3), kind=T.choice('uv kind', ['i', 'f']))
    a = T.array('image', (n, m), gen=(-5, 5))
    r = T.call(N + 'apply_uv_response_on_image', a, uv)
    if T.frame:
        return
    want = np.real(np.fft.ifft2(np.where(uv == 0, 0, np.fft.fft2(a))))
    T.forall('only the sampled modes', (n, m), lambda i, j: ('eq', T.at(r, i, j), T.at(want, i, j), 1e-9))


@contract('P21', [N + 'apply_uv_response_on_coeval', N + 'apply_uv_response_on_image'], bounded='cubes of up to 6 x 6 x 4 cells')
def cube(T):
    np = T.np
    n, m = T.int('ncells', 1, 6), T.int('slices', 1, 4)
    a = T.array('cube', (n, n, m), gen=(-5, 5))
    uv = T.array('uv_map', (n, n), kind='i', lo=0, hi=2)
    r = T.call(N + 'apply_uv_response_on_coeval', a, 8., uv_map=uv)
    T.ensure_eq('every slice', r, np.array([T.call(N + 'apply_uv_response_on_image', a[:, :, k], uv) for k in range(m)]).transpose(1, 2, 0))
    F, G = np.fft.fft2(a, axes=(0, 1)), np.fft.fft2(r, axes=(0, 1))
    s = (uv != 0)
    both = s & np.roll(s[::-1, ::-1], 1, axis=(0, 1))
    neither = ~s & ~np.roll(s[::-1, ::-1], 1, axis=(0, 1))
    T.ensure_eq('sampled modes kept', G[both], F[both], atol=1e-8)
    T.ensure_eq('unsampled modes empty', G[neither], 0 * F[neither], atol=1e-8)


@contract('P21', [N + 'apply_uv_response_on_coeval', N + 'get_uv_map'], bounded='3 antennas, cubes of up to 6 x 6 x 4 cells')
def cube_of_layout(T):
    np = T.np
    cosmo(T)
    box(T)
    n, m = T.int('ncells', 2, 6), T.int('slices', 1, 4)
    a = T.array('cube', (n, n, m), gen=(-5, 5))
    A = T.array('antxyz', (3, 3), gen=(-90, 90))
    z = T.real('z', gen=(6, 15), lo=1, hi=30)
    kw = dict(subarray_type=A, total_int_time=2., int_time=1800., declination=T.real('declination', lo=-90, hi=90))
    uv, k = T.call(N + 'get_uv_map', n, z, verbose=False, **kw)
    T.ensure_eq('uv map of that layout and redshift', T.call(N + 'apply_uv_response_on_coeval', a, z, **kw), T.call(N + 'apply_uv_response_on_coeval', a, z, uv_map=uv))


def draws(T, n, scale):
    """the two normal maps the function will draw next"""
    np = T.np
    s = np.random.get_state()
    x = np.random.normal(loc=0.0, scale=scale, size=(n, n))
    y = np.random.normal(loc=0.0, scale=scale, size=(n, n))
    np.random.set_state(s)
    return x + 1j * y


def expected_map(T, n, z, B, obs, it, uv, w, kw, x=None):
    np = T.np
    v = T.call(S + 'sigma_noise_radio', z, B, obs, it, verbose=False, **kw)[1]
    g = draws(T, n, v)
    with np.errstate(all='ignore'):
        g = np.where(uv < 0.01, 0, g / (np.sqrt(uv) if w == 'natural' else 1))
    from scipy.signal import windows
    q = windows.blackmanharris(n)
    q = np.roll(q[:, None] * q[None, :], (-(n // 2), -(n // 2)), axis=(0, 1))
    return np.real(np.fft.ifft2(g * q)) * np.sqrt(it / 3600. / obs)


@contract('P21', [N + 'noise_map', N + 'apply_uv_response_noise', S + 'sigma_noise_radio'], bounded='up to 7 cells')
def noise_maps(T):
    np = T.np
    Ts, ep, D, kw = telescope(T)
    np.random.seed(T.seed('draw') % 2 ** 31)
    n = T.int('ncells', 1, 7)
    uv = T.array('uv_map', (n, n), lo=0, hi=4)
    uv[T.array('empty', (n, n), kind='b')] = 0
    z, B = T.real('z', gen=(5, 20), lo=1, hi=30), T.real('depth_mhz', gt=0, gen=(0.01, 5))
    obs, it = T.real('obs_time', gt=0, gen=(1, 3000)), T.real('int_time', gt=0, gen=(1, 100))
    w = T.choice('uv_weighting', ['natural', 'uniform'])
    A = T.array('antxyz', (3, 3), gen=(-90, 90))
    want = expected_map(T, n, z, B, obs, it, uv, w, kw)
    r = T.call(N + 'noise_map', n, z, B, obs_time=obs, int_time=it, subarray_type=A, uv_map=uv, uv_weighting=w, verbose=False, **kw)
    T.ensure_eq('noise of the sampled modes', r, want, rtol=1e-8, atol=1e-8 * (abs(want).max() + 1e-30))


@contract('P21', [N + 'noise_cube_coeval', N + 'noise_map', S + 'jansky_2_kelvin'], bounded='up to 5 cells')
def noise_cube(T):
    np = T.np
    cosmo(T)
    lb = box(T)
    Ts, ep, D, kw = telescope(T)
    np.random.seed(T.seed('draw') % 2 ** 31)
    T.setmod('radio_telescope_noise', sleep=lambda s: None)
    n = T.int('ncells', 2, 5)
    uv = T.array('uv_map', (n, n), lo=0, hi=4)
    z, obs, it = T.real('z', gen=(6, 20), lo=5, hi=30), T.real('obs_time', gt=0, gen=(1, 3000)), T.real('int_time', gt=0, gen=(1, 100))
    w = T.choice('uv_weighting', ['natural', 'uniform'])
    A = T.array('antxyz', (3, 3), gen=(-90, 90))
    k2 = dict(kw)
    if T.bool('box given'):
        k2['boxsize'] = lb
        T.setmod('conv', LB=lb * 2)
    if T.bool('depth given'):
        B = k2['depth_mhz'] = T.real('depth_mhz', gt=0, gen=(0.01, 5))
    else:
        d = T.call('cosmo.z_to_cdist', z)
        B = 1420. * (1 / (1 + T.call('cosmo.cdist_to_z', d - lb / 2)) - 1 / (1 + T.call('cosmo.cdist_to_z', d + lb / 2))) / n
    state = np.random.get_state()
    want = []
    for k in range(n):
        want.append(expected_map(T, n, z, B, obs, it, uv, w, kw))
        np.random.normal(size=(n, n)), np.random.normal(size=(n, n))
    np.random.set_state(state)
    want = T.call(S + 'jansky_2_kelvin', np.array(want).transpose(1, 2, 0), z, boxsize=lb)
    r = T.call(N + 'noise_cube_coeval', n, z, obs_time=obs, int_time=it, subarray_type=A, uv_map=uv, uv_weighting=w, verbose=False, **k2)
    T.ensure_eq('independent noise of every slice in mK', r, want, rtol=1e-6, atol=1e-6 * abs(want).max())


@contract('P21', [N + 'noise_lightcone', N + 'noise_cube_lightcone', N + 'get_uv_map_lightcone'], bounded='3 antennas, up to 5 cells, up to 4 slices', weight=2)
def noise_cone(T):
    np = T.np
    cosmo(T)
    lb = box(T)
    Ts, ep, D, kw = telescope(T)
    np.random.seed(T.seed('draw') % 2 ** 31)
    n = T.int('ncells', 2, 5)
    A = T.array('antxyz', (3, 3), gen=(-90, 90))
    obs = T.real('obs_time', gt=0, gen=(1, 3000))
    w = T.choice('uv_weighting', ['natural', 'uniform'])
    k2 = dict(kw, obs_time=obs, uv_weighting=w, subarray_type=A, total_int_time=2., int_time=1800., declination=T.real('declination', lo=-90, hi=90), verbose=False, n_jobs=T.int('jobs', 1, 3), checkpoint=T.choice('checkpoint', [1, 2, 16]))
    if T.bool('around one redshift'):
        z = T.real('z', gen=(7, 15), lo=5, hi=30)
        d = T.call('cosmo.z_to_cdist', z)
        zs = T.call('cosmo.cdist_to_z', np.linspace(d - lb / 2, d + lb / 2, n))
        f, first = 'noise_cube_lightcone', z
    else:
        m = T.int('slices', 2, 4)
        zs = T.real('z0', gen=(6, 12), lo=5, hi=30) + np.cumsum(T.array('steps', (m,), lo=0.01, hi=0.5)) * T.choice('order', [1, -1])
        f, first = 'noise_lightcone', list(zs) if T.bool('list') else zs
    T.assume(len(set('%.3f' % q for q in zs)) == len(zs))
    state = np.random.get_state()
    want = []
    for k, q in enumerate(zs):
        B = abs(1420. / (1 + zs[k + 1]) - 1420. / (1 + q)) if k + 1 < len(zs) else abs(1420. / (1 + q) - 1420. / (1 + zs[k - 1]))
        uv = T.call(N + 'get_uv_map', n, q, subarray_type=A, total_int_time=2., int_time=1800., declination=k2['declination'], verbose=False)[0]
        x = expected_map(T, n, q, B, obs, 1800., uv, w, kw)
        np.random.normal(size=(n, n)), np.random.normal(size=(n, n))
        want.append(T.call(S + 'jansky_2_kelvin', x, q, boxsize=lb))
    np.random.set_state(state)
    want = np.array(want).transpose(1, 2, 0)
    r = T.call(N + f, n, first, **k2)
    T.ensure_eq('noise of every slice through its own coverage and depth', r, want, rtol=1e-6, atol=1e-6 * abs(want).max() + 1e-30)


@contract('P21', [N + 'get_uv_map', N + 'max_baseline_to_max_k'], bounded='4 antennas, up to 9 cells')
def longest_baseline(T):
    np = T.np
    cosmo(T)
    lb = box(T)
    n, z = T.int('ncells', 2, 9), T.real('z', gen=(6, 15), lo=1, hi=30)
    A = T.array('antxyz', (4, 3), gen=(-90, 90))
    kw = dict(subarray_type=A, total_int_time=2., int_time=1800., declination=T.real('declination', lo=-90, hi=90), verbose=False)
    import astropy.units as u
    b = T.real('max_baseline', gt=0, gen=(0.001, 0.2))
    full = T.call(N + 'get_uv_map', n, z, **kw)[0]
    r = T.call(N + 'get_uv_map', n, z, max_baseline=b if T.bool('plain kilometres') else b * 1e3 * u.m, **kw)[0]
    modes = np.fft.fftfreq(n, 1. / n)
    k2 = modes[:, None] ** 2 + modes[None, :] ** 2
    cut = b * 1e5 / 21. / (1 + z) / T.call('cosmo.z_to_cdist', z) * lb
    T.assume(abs(k2 - cut ** 2).min() > 1e-6 * (1 + cut ** 2))
    T.ensure_eq('modes of longer baselines empty', r, np.where(k2 > cut ** 2, 0, full), rtol=1e-6)
