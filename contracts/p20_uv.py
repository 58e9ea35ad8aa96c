from pyded.kit import contract
from contracts.common import *

L = 'radio_telescope_layout.'
C = 'radio_telescope_calibration.'


def hour_angle(T, i, step, hours):
    """centred observation, 15 degrees per hour"""
    return T.np.deg2rad(15.0 * (-0.5 * hours * 3600 + i * step) / 3600.)


def rotated(T, N, b, i, step, hours, dec):
    np = T.np
    H, d = hour_angle(T, i, step, hours), np.deg2rad(dec)
    x, y, w = T.at(N, b, 0), T.at(N, b, 1), T.at(N, b, 2)
    sH, cH, sd, cd = np.sin(H), np.cos(H), np.sin(d), np.cos(d)
    return [sH * x + cH * y, -sd * cH * x + sd * sH * y + cd * w, cd * cH * x - cd * sH * y + sd * w]


def observing(T):
    return T.real('int_time', gt=0, gen=(1, 4000)), T.real('total_int_time', gt=0, gen=(0.1, 12)), T.real('declination', lo=-90, hi=90)


@contract('P20', [L + 'earth_rotation_effect'], frame=True)
def rotation(T):
    n = T.int('baselines', 1, gen=(1, 8))
    N = T.array('Nbase', (n, 3), gen=(-500, 500))
    step, hours, dec = observing(T)
    i = T.int('time', 0, gen=(0, 50))
    r = T.call(L + 'earth_rotation_effect', N, i, step, hours, declination=dec)
    if T.frame:
        return
    T.ensure('one uvw per baseline', T.land(len(T.shape(r)) == 2, T.shape(r)[0] == n, T.shape(r)[1] == 3))
    for k in range(3):
        T.forall('component %d of the rotated baseline' % k, (n,), lambda b: ('eq', T.at(r, b, k), rotated(T, N, b, i, step, hours, dec)[k]))

    def sq(a, b):
        return sum(T.at(a, b, k) * T.at(a, b, k) for k in range(3))
    T.forall('length kept', (n,), lambda b: ('eq', sq(r, b), sq(N, b), 1e-9))


@contract('P20', [L + 'earth_rotation_effect'])
def rotation_samples(T):
    n, m = T.int('baselines', 1, gen=(1, 6)), T.int('samples', 2, gen=(2, 5))
    N = T.array('Nbase', (n, 3), gen=(-500, 500))
    step, hours, dec = observing(T)
    i = T.array('times', (m,), kind='i', lo=0, hi=50)
    r = T.call(L + 'earth_rotation_effect', N, i, step, hours, declination=dec)
    T.ensure('one uvw per sample and baseline', T.land(len(T.shape(r)) == 3, T.shape(r)[0] == m, T.shape(r)[1] == n, T.shape(r)[2] == 3))
    for k in range(3):
        T.forall('component %d of sample t' % k, (m, n), lambda t, b: ('eq', T.at(r, t, b, k), rotated(T, N, b, T.at(i, t), step, hours, dec)[k]))


@contract('P20', [L + 'enu_to_ecef', L + 'ecef_to_xyz'], frame=True)
def frames(T):
    np = T.np
    n = T.int('antennas', 1, gen=(1, 8))
    A = T.array('enu', (n, 3), gen=(-9e4, 9e4))
    O = T.array('origin', (3,), gen=(-6e6, 6e6))
    lat, lon = T.real('lat', lo=-90, hi=90), T.real('lon', lo=-180, hi=180)
    e = T.call(L + 'enu_to_ecef', A, lat, lon, O)
    x = T.call(L + 'ecef_to_xyz', e, lon, O)
    if T.frame:
        return
    f, g = np.deg2rad(lat), np.deg2rad(lon)
    sf, cf, sg, cg = np.sin(f), np.cos(f), np.sin(g), np.cos(g)
    o = [T.at(O, k) for k in range(3)]
    E, N, U = (lambda b: T.at(A, b, 0)), (lambda b: T.at(A, b, 1)), (lambda b: T.at(A, b, 2))
    T.forall('ecef x', (n,), lambda b: ('eq', T.at(e, b, 0), -sg * E(b) - sf * cg * N(b) + cf * cg * U(b) + o[0], 1e-7))
    T.forall('ecef y', (n,), lambda b: ('eq', T.at(e, b, 1), cg * E(b) - sf * sg * N(b) + cf * sg * U(b) + o[1], 1e-7))
    T.forall('ecef z', (n,), lambda b: ('eq', T.at(e, b, 2), cf * N(b) + sf * U(b) + o[2], 1e-7))
    d = [lambda b, k=k: T.at(e, b, k) - o[k] for k in range(3)]
    T.forall('xyz x', (n,), lambda b: ('eq', T.at(x, b, 0), cg * d[0](b) + sg * d[1](b) + o[0], 1e-7))
    T.forall('xyz y', (n,), lambda b: ('eq', T.at(x, b, 1), -sg * d[0](b) + cg * d[1](b) + o[1], 1e-7))
    T.forall('xyz z', (n,), lambda b: ('eq', T.at(x, b, 2), T.at(e, b, 2), 1e-7))
    T.forall('ecef distances from the centre', (n,), lambda b: ('eq', sum((T.at(e, b, k) - o[k]) * (T.at(e, b, k) - o[k]) for k in range(3)), E(b) * E(b) + N(b) * N(b) + U(b) * U(b), 1))


@contract('P20', [L + 'ecef_to_xyz'])
def local_frame(T):
    n = T.int('antennas', 1, gen=(1, 8))
    A = T.array('ecef', (n, 3), gen=(-6e6, 6e6))
    O = T.array('origin', (3,), gen=(-6e6, 6e6))
    x = T.call(L + 'ecef_to_xyz', A, T.real('lon', lo=-180, hi=180), O)
    T.forall('distances from the centre kept', (n,), lambda b: ('eq', sum((T.at(x, b, k) - T.at(O, k)) * (T.at(x, b, k) - T.at(O, k)) for k in range(3)), sum((T.at(A, b, k) - T.at(O, k)) * (T.at(A, b, k) - T.at(O, k)) for k in range(3)), 1e3))


def layout(T, lo=2, hi=6, far=2000):
    np = T.np
    n = T.int('antennas', lo, hi)
    A = T.array('antxyz', (n, 3), gen=(-far, far))
    if T.bool('metres attached'):
        import astropy.units as u
        return A, (A * u.m if T.bool('in metres') else (A / 1e3) * u.km), n
    return A, A, n


def gridded(T, rows, shp, pos, inside):
    np = T.np
    m = np.zeros(shp)
    for b in range(rows):
        if inside[b]:
            m[pos[b][0], pos[b][1]] += 1
    return m


def cells(T, N, z, n, lb):
    """nearest grid mode of each uv sample (index modulo the number of cells) and whether the grid holds it"""
    np = T.np
    q = np.round(N * (lb / T.call('cosmo.z_to_cdist', z))).astype(int)
    inside = (q[:, 0] < n / 2) & (q[:, 0] >= -n / 2) & (q[:, 1] < n / 2) & (q[:, 1] >= -n / 2)
    return q, inside


def count(T, N, z, n, lb, mirror=False):
    np = T.np
    m = np.zeros((n, n))
    for M in ((N, -N) if mirror else (N,)):
        q, inside = cells(T, M, z, n, lb)
        for b in range(len(q)):
            if inside[b]:
                m[q[b, 0] % n, q[b, 1] % n] += 1
    return m / 2. if mirror else m


def clear_cells(T, N, z, n, lb):
    """no sample half way between two modes (rounding error of the product would decide)"""
    np = T.np
    f = N * (lb / T.call('cosmo.z_to_cdist', z))
    T.assume(abs((f - np.floor(f)) - 0.5).min() > 1e-9)


def uvscale(T, z, n, lb):
    """uv lengths that land around the edge of the grid"""
    return n / (2 * lb / T.call('cosmo.z_to_cdist', z))


@contract('P20', [L + 'grid_uv_tracks'], overrides=abstract_distances, budget=150)
def gridding_any_number(T):
    """for any number of samples and any grid: the cell (x, y) holds the number of samples whose nearest mode is (x, y) modulo
    the number of cells and which lie within the grid; mirrored baselines count half each"""
    np = T.np
    cosmo(T)
    lb = box(T)
    z, n = T.real('z', gen=(5, 20), lo=1, hi=30), T.int('ncells', 1, gen=(1, 9))
    k = T.int('samples', 1, gen=(1, 12))
    N = T.array('uvw', (k, 3), gen=(-300, 300))
    mirror = T.choice('mirrored', [False, True])
    th = lb / T.call('cosmo.z_to_cdist', z)
    if not T.sym:
        clear_cells(T, N, z, n, lb)
    r = T.call(L + 'grid_uv_tracks', N, z, n, boxsize=lb, include_mirror_baselines=mirror)

    if mirror:
        M, rows = T.build((2 * k, 3), lambda s, c: T.ite(s < k, T.at(N, s, c), -T.at(N, s - k, c))) if T.sym else np.concatenate([N, -N]), 2 * k
    else:
        M, rows = N, k

    def hit(s, x, y):
        q = [np.round(T.at(M, s, c) * th) for c in (0, 1)]
        ok = T.land(*[T.land(v < n / 2, v >= -n / 2) for v in q])
        return T.ite(T.land(ok, q[0] == x, q[1] == y), 1.0, 0.0)
    low, high = n - n // 2, n // 2
    for u in (0, 1):
        for v in (0, 1):
            def cell(a, b):
                p, q = a - u * high, b - v * high
                at = T.at(r, a + low if u else a, b + low if v else b)
                return ('eq', at, T.sum((rows,), lambda s: hit(s, p, q)) / (2 if mirror else 1))
            T.forall('samples of the mode', (high if u else low, high if v else low), cell)


@contract('P20', [L + 'grid_uv_tracks'], bounded='up to 40 samples, grids of up to 9 cells')
def gridding(T):
    np = T.np
    cosmo(T)
    lb = box(T)
    z, n = T.real('z', gen=(5, 20), lo=1, hi=30), T.int('ncells', 1, 9)
    k = T.int('samples', 1, 40)
    spread = T.choice('spread', [0.7, 1.0, 1.4])
    N = T.array('uvw', (k, 3), gen=(-1, 1)) * (uvscale(T, z, n, lb) * spread)
    clear_cells(T, N, z, n, lb)
    mirror = T.bool('mirrored')
    how = T.choice('box', ['default', 'zero', 'given'])
    if how == 'given':
        b = lb
        T.setmod('conv', LB=lb * 3)
        r = T.call(L + 'grid_uv_tracks', N, z, n, boxsize=b, include_mirror_baselines=mirror)
    else:
        r = T.call(L + 'grid_uv_tracks', N, z, n, include_mirror_baselines=mirror, **({} if how == 'default' else {'boxsize': None}))
    T.ensure_eq('every sample counted once at its nearest mode', r, count(T, N, z, n, lb, mirror), rtol=1e-12)
    if mirror and n % 2:
        T.ensure_eq('symmetric', r, np.roll(r[::-1, ::-1], 1, axis=(0, 1)), rtol=1e-12)


@contract('P20', [L + 'from_antenna_config', C + 'from_antenna_config_with_antenna_stamp', C + 'from_antenna_config_with_gains', L + 'antenna_positions_to_baselines', L + 'subarray_type_to_antxyz'],
          bounded='up to 6 antennas')
def baselines(T):
    np = T.np
    A, arg, n = layout(T)
    cosmo(T)
    z = T.real('z', gen=(5, 20), lo=1, hi=30)
    nu = T.real('nu', gen=(50, 200), lo=1) if T.bool('frequency given') else None
    lam = 299792458. / ((nu if nu else T.mod('const').nu0 / (1 + z)) * 1e6)
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    want = np.array([(A[i] - A[j]) / lam for i, j in pairs])
    kw = {} if nu is None else {'nu': nu}
    r, m = T.call(L + 'from_antenna_config', arg, z, **kw)
    T.ensure('antennas', m == n)
    T.ensure_eq('separations in wavelengths', r, want, rtol=1e-4, atol=1e-9)
    s, m = T.call(C + 'from_antenna_config_with_antenna_stamp', arg, z, **kw)
    T.ensure('antennas (stamps)', m == n)
    T.ensure_eq('same baselines', s[:, :3], r)
    T.ensure_eq('antennas of each baseline', s[:, 3:], np.array(pairs) + 1)
    g = T.array('gains', (n, 2), gen=(-2, 2))
    q, m = T.call(C + 'from_antenna_config_with_gains', arg, z, gain_model=g, **kw)
    T.ensure_eq('same baselines (gains)', q[:, :3], r)
    T.ensure_eq('products of the gains', q[:, 3:], np.array([[g[i, 0] * g[j, 0], g[i, 1] * g[j, 1], g[i, 0] * g[j, 1], g[i, 1] * g[j, 0]] for i, j in pairs]))
    b = T.call(L + 'antenna_positions_to_baselines', arg)
    b = b.to('m').value if hasattr(b, 'unit') else b
    T.ensure_eq('all ordered pairs', b, np.array([A[i] - A[j] for i in range(n) for j in range(n) if i != j]), atol=1e-6)
    x, m = T.call(L + 'subarray_type_to_antxyz', arg, verbose=False)
    x = x.to('m').value if hasattr(x, 'unit') else x
    T.ensure('as given', m == n)
    T.ensure_eq('positions as given', x, A, atol=1e-6)


@contract('P20', [L + 'geographic_to_cartesian_coordinate_system', L + 'cartesian_to_geographic_coordinate_system'], bounded='up to 12 antennas')
def geographic(T):
    np = T.np
    n = T.int('antennas', 1, 12)
    lon = T.array('lon', (n,), lo=-179.9, hi=179.9)
    lat = T.array('lat', (n,), lo=-89, hi=89)
    x = T.call(L + 'geographic_to_cartesian_coordinate_system', np.array([lon, lat]).T)
    a, b = np.deg2rad(lon), np.deg2rad(lat)
    T.ensure_eq('on the sphere', x, 6371e3 * np.array([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)]).T, rtol=1e-9, atol=1e-3)
    h = T.array('height', (n,), gen=(-1e3, 9e3))
    g = T.call(L + 'cartesian_to_geographic_coordinate_system', x * (1 + h / 6371e3)[:, None])
    T.ensure_eq('back again', g, np.array([lon, lat, h]).T, rtol=1e-7, atol=1e-5)


def watch(T, far=None):
    """an observation: antennas spread so that their tracks cross the edge of the grid"""
    np = T.np
    cosmo(T)
    lb = box(T)
    z, n = T.real('z', gen=(5, 20), lo=1, hi=30), T.int('ncells', 2, 7)
    lam = 299792458. / (1420. / (1 + z) * 1e6)
    A = T.array('antxyz', (T.int('antennas', 2, 5), 3), gen=(-1, 1)) * (uvscale(T, z, n, lb) * lam * T.choice('spread', [0.4, 0.7, 1.2]))
    step = T.choice('int_time', [600., 1800., 2500.])
    hours = T.choice('total_int_time', [1.0, 2.0, 3.7])
    dec = T.real('declination', lo=-90, hi=90)
    kw = dict(total_int_time=hours, int_time=step, declination=dec)
    if T.bool('box given'):
        kw['boxsize'] = lb
        T.setmod('conv', LB=lb * 2)
    N, m = T.call(L + 'from_antenna_config', A, z)

    def at(i):
        r = T.call(L + 'earth_rotation_effect', N, i, step, hours, dec)
        clear_cells(T, r, z, n, lb)
        return r
    return z, n, lb, A, N, int(hours * 3600 / step), at, kw


@contract('P20', [L + 'get_uv_daily_observation', 'radio_telescope_noise.get_uv_map', 'radio_telescope_noise.make_uv_map_lightcone'], bounded='up to 5 antennas, 22 samples, grids of up to 7 cells')
def daily(T):
    np = T.np
    z, n, lb, A, N, k, at, kw = watch(T)
    T.assume(k >= 1)
    mirror = T.bool('mirrored')
    want = sum(count(T, at(i), z, n, lb, mirror) for i in range(1, k + 1)) / k
    r, m = T.call(L + 'get_uv_daily_observation', n, z, antxyz=A, include_mirror_baselines=mirror, verbose=False, **kw)
    T.ensure('antennas', m == len(A))
    T.ensure_eq('mean over the samples', r, want, rtol=1e-5, atol=1e-6)
    r, m = T.call('radio_telescope_noise.get_uv_map', n, z, subarray_type=A, include_mirror_baselines=mirror, verbose=False, **kw)
    T.ensure_eq('uv map', r, want, rtol=1e-5, atol=1e-6)
    T.ensure('antennas of the uv map', m == len(A))
    zs = np.array([z, z + 0.5])
    lc, m = T.call('radio_telescope_noise.make_uv_map_lightcone', n, zs, subarray_type=A, verbose=False, **kw)
    for i in range(2):
        T.ensure_eq('slice %d' % i, lc[:, :, i], T.call('radio_telescope_noise.get_uv_map', n, zs[i], subarray_type=A, verbose=False, **kw)[0], rtol=1e-6)


@contract('P20', [C + 'get_uv_map_with_gains', C + 'gain_uv_map_to_uv_map', C + '_grid_uv_tracks_with_gains'], bounded='up to 5 antennas, 22 samples, grids of up to 7 cells')
def gains(T):
    np = T.np
    z, n, lb, A, N, k, at, kw = watch(T)
    g = T.array('gains', (len(A), 2), gen=(-2, 2))
    mirror = T.bool('mirrored')
    pairs = [(i, j) for i in range(len(A)) for j in range(i + 1, len(A))]
    want = np.zeros((n, n, 5))
    for i in range(k):
        q, inside = cells(T, at(i), z, n, lb)
        for b, (p, s) in enumerate(pairs):
            if inside[b]:
                v = np.array([1, g[p, 0] * g[s, 0], g[p, 1] * g[s, 1], g[p, 0] * g[s, 1], g[p, 1] * g[s, 0]])
                want[q[b, 0] % n, q[b, 1] % n] += v
                if mirror:
                    want[-q[b, 0] % n, -q[b, 1] % n] += v
    r, m = T.call(C + 'get_uv_map_with_gains', n, z, gain_model=g, subarray_type=A, include_mirror_baselines=mirror, verbose=False, **kw)
    T.ensure('antennas', m == len(A))
    T.ensure_eq('every sample once, with the products of its gains', r, want, rtol=1e-9, atol=1e-9)
    T.ensure_eq('sampling', T.call(C + 'gain_uv_map_to_uv_map', r), want[:, :, 0])


@contract('P20', [C + 'get_full_uv_map_with_antenna_stamp', C + 'full_uv_map_with_antenna_stamp_to_uv_map', C + '_process_chunk_get_full_uv_map_with_antenna_stamp', C + '_grid_uv_tracks_with_antenna_stamp'],
          bounded='up to 5 antennas, 22 samples, grids of up to 7 cells, 1 to 9 jobs')
def stamps(T):
    np = T.np
    z, n, lb, A, N, k, at, kw = watch(T)
    T.assume(k >= 1)
    pairs = [(i + 1, j + 1) for i in range(len(A)) for j in range(i + 1, len(A))]
    jobs = T.int('jobs', 1, 9)
    r, m = T.call(C + 'get_full_uv_map_with_antenna_stamp', n, z, subarray_type=A, verbose=False, n_jobs=jobs, **kw)
    T.ensure('antennas', m == len(A))
    T.ensure('one map per sample', r.shape == (k, n, n))
    tot = np.zeros((n, n), int)
    for i in range(k):
        q, inside = cells(T, at(i), z, n, lb)
        want = {}
        for b, p in enumerate(pairs):
            if inside[b]:
                want.setdefault((q[b, 0] % n, q[b, 1] % n), []).append(list(p))
                tot[q[b, 0] % n, q[b, 1] % n] += 1
        for x in range(n):
            for y in range(n):
                T.ensure('antenna pairs seen in cell %d,%d at sample %d' % (x, y, i), sorted([int(c) for c in v] for v in r[i, x, y]) == sorted(want.get((x, y), [])))
    T.ensure_eq('sampling', T.call(C + 'full_uv_map_with_antenna_stamp_to_uv_map', r, verbose=False), tot)


@contract('P20', [C + 'get_full_uv_lagrangian_with_antenna_stamp', C + '_process_chunk_get_full_uv_lagrangian_with_antenna_stamp', C + '_grid_uv_lagrangian_tracks_with_antenna_stamp'],
          bounded='up to 5 antennas, 22 samples, grids of up to 7 cells, 1 to 9 jobs')
def lagrangian(T):
    np = T.np
    z, n, lb, A, N, k, at, kw = watch(T)
    T.assume(k >= 1)
    jobs = T.int('jobs', 1, 9)
    r, pairs = T.call(C + 'get_full_uv_lagrangian_with_antenna_stamp', n, z, subarray_type=A, verbose=False, n_jobs=jobs, **kw)
    T.ensure_eq('pairs', pairs, [(i + 1, j + 1) for i in range(len(A)) for j in range(i + 1, len(A))])
    want = np.full((k, len(N), 2), np.nan)
    for i in range(k):
        q, inside = cells(T, at(i), z, n, lb)
        want[i][inside] = q[inside, :2]
    T.ensure('positions outside the grid empty', r.shape == want.shape and bool((np.isnan(r) == np.isnan(want)).all()))
    T.ensure_eq('track of every baseline', np.nan_to_num(r, nan=-99), np.nan_to_num(want, nan=-99))


@contract('P20', [L + 'get_SKA_Low_layout', L + 'subarray_type_to_antxyz'], bounded='the five built-in layouts')
def layouts(T):
    np = T.np
    name = T.choice('layout', ['AA4', 'AAstar', 'AA*', 'AA2', 'AA1', 'AA0.5', 'aa4'])
    enu, e, x = [T.call(L + 'get_SKA_Low_layout', subarray_type=name, unit=k, verbose=False).to('m').value for k in ('enu', 'ecef', 'xyz')]
    n = len(enu)
    want = {'AA4': 512, 'AASTAR': 307, 'AA*': 307, 'AA2': 64, 'AA1': 16, 'AA0.5': 4}.get(name.upper())
    T.ensure('antennas of %s' % name, want is None or n == want)
    i, j = T.int('i', 0, gen=(0, 600)) % n, T.int('j', 0, gen=(0, 600)) % n
    d = [float(((a[i] - a[j]) ** 2).sum() ** .5) for a in (enu, e, x)]
    T.ensure_eq('separations the same in every frame', [d[0]] * 3, d, rtol=1e-6, atol=1e-5)
    y, m = T.call(L + 'subarray_type_to_antxyz', name, verbose=False)
    T.ensure('antennas', m == n)
    T.ensure_eq('xyz', y.to('m').value, x)
    lat, lon, h = T.call(L + 'get_SKA_Low_layout', subarray_type=name, unit='latlon', verbose=False)
    from astropy.coordinates import EarthLocation
    import astropy.units as u
    c = EarthLocation.from_geodetic(lon * u.deg, lat * u.deg, h * u.m)
    T.ensure_eq('geodetic', np.array([c.x.value, c.y.value, c.z.value]).T, e, atol=1e-3)
