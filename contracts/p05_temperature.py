from pyded.kit import contract
from contracts.common import *


def prefactor(T, c, z):
    return c['meandt'] / c['h'] * (1 + z) * (1 + z) / T.np.sqrt(E2(c, z))


@contract('P05', ['temperature.mean_dt'], frame=True)
def mean_signal(T):
    c = cosmo(T)
    z = T.real('z', lo=0, gen=(0, 30))
    T.ensure_eq('prefactor', T.call('temperature.mean_dt', z), prefactor(T, c, z))
    n = T.int('n', 1, gen=(1, 5))
    zs = T.array('zs', (n,), lo=0, hi=40, gen=(0, 30))
    r = T.call('temperature.mean_dt', zs)
    T.forall('each redshift its own prefactor', (n,), lambda i: ('eq', T.at(r, i), prefactor(T, c, T.at(zs, i)), 1e-9))


@contract('P05', ['temperature.calc_dt'], frame=True)
def signal_saturated(T):
    c = cosmo(T)
    nd = T.choice('ndim', [3, 2, 1])
    shp = shape3(T)[:nd]
    xi = T.array('xi', shp, lo=0, hi=1)
    scale = c['rho_crit_0'] * c['OmegaB']
    d = T.array('overdensity', shp, lo=0, gen=(0.1, 3))
    rho = d * scale
    z = T.real('z', lo=0, gen=(0, 30))
    r = T.call('temperature.calc_dt', xi, rho, z)
    T.ensure_eq('prefactor times neutral fraction times overdensity', r, prefactor(T, c, z) * (1 - xi) * d)


@contract('P05', ['temperature.calc_dt_full'], frame=True)
def signal_spin_temperature(T):
    c = cosmo(T)
    shp = shape3(T)
    xi = T.array('xi', shp, lo=0, hi=1)
    Ts = T.array('Ts', shp, gt=0, gen=(2, 5000))
    scale = c['rho_crit_0'] * c['OmegaB']
    d = T.array('overdensity', shp, lo=0, gen=(0.1, 3))
    z = T.real('z', lo=0, gen=(0, 30))
    r = T.call('temperature.calc_dt_full', xi, d * scale, Ts, z, correct=False)
    tcmb = c['Tcmb0'] * (1 + z)
    T.ensure_eq('spin temperature factor', r, prefactor(T, c, z) * (1 - xi) * d * (1 - tcmb / Ts))


@contract('P05', ['temperature.calc_dt_full'], frame=True)
def signal_corrected(T):
    """partially ionised cells: temperature of the neutral part, floored by adiabatic cooling from z=200"""
    c = cosmo(T)
    shp = shape3(T)
    xi = T.array('xi', shp, lo=0, hi=1)
    Ts = T.array('Ts', shp, gt=0, gen=(2, 50000))
    scale = c['rho_crit_0'] * c['OmegaB']
    d = T.array('overdensity', shp, lo=0, gen=(0.1, 3))
    z = T.real('z', lo=0, gen=(0, 30))
    r = T.call('temperature.calc_dt_full', xi, d * scale, Ts, z)
    tcmb = c['Tcmb0'] * (1 + z)
    tmin = c['Tcmb0'] * 201 * (1 + z) * (1 + z) / (201. * 201.)
    T.ensure_eq('same shape', T.np.zeros(T.shape(r)), T.np.zeros(shp))
    if not T.sym and not T.frame:
        T.apart(xi, 1.0 + 0 * xi, 1e-9) if ((xi < 1) & (xi > 1 - 1e-9)).any() else None

    def voxel(i, j, k):
        x = T.at(xi, i, j, k)
        if not T.sym:
            if x == 1:
                return T.at(r, i, j, k) == 0
        tn = (T.at(Ts, i, j, k) - x * 20000) / (1 - x)
        tn = T.ite(tn < tmin, tmin, tn)
        v = prefactor(T, c, z) * (1 - x) * T.at(d, i, j, k) * (1 - tcmb / tn)
        if T.sym:
            return T.land(T.imp(x == 1, T.at(r, i, j, k) == 0), T.imp(x < 1, T.at(r, i, j, k) == v))
        return ('eq', T.at(r, i, j, k), v, 1e-7)
    T.forall('voxel', shp, voxel)


def _lightcone_z(T, c, n, n_perp, zlow):
    pass


@contract('P05', ['temperature.calc_dt_lightcone'], frame=True, overrides=abstract_distances)
def signal_lightcone(T):
    c = cosmo(T)
    LB = box(T)
    ax = T.choice('los_axis', [2, 0, 1])
    shp = shape3(T, g=(2, 5))
    xi = T.array('xi', shp, lo=0, hi=1)
    scale = c['rho_crit_0'] * c['OmegaB']
    d = T.array('overdensity', shp, lo=0, gen=(0.1, 3))
    zl = T.real('zlow', lo=0, gen=(6, 12))
    r = T.call('temperature.calc_dt_lightcone', xi, d * scale, zl, los_axis=ax)
    n = shp[ax]
    cell = LB / shp[(ax + 1) % 3]
    zz = T.call('cosmo.cdist_to_z', T.np.arange(n) * cell + T.call('cosmo.z_to_cdist', zl)) if not T.frame else None
    if T.frame:
        return
    zz = T.np.atleast_1d(zz)

    def voxel(i, j, k):
        zk = T.at(zz, (i, j, k)[ax])
        return ('eq', T.at(r, i, j, k), prefactor(T, c, zk) * (1 - T.at(xi, i, j, k)) * T.at(d, i, j, k), 1e-7)
    T.forall('slice redshift', shp, voxel)


@contract('P05', ['temperature.calc_dt_full_lightcone'], frame=True, overrides=abstract_distances)
def signal_full_lightcone(T):
    c = cosmo(T)
    LB = box(T)
    ax = T.choice('los_axis', [2, 0, 1])
    shp = shape3(T, g=(2, 5))
    xi = T.array('xi', shp, lo=0, hi=1)
    Ts = T.array('Ts', shp, gt=0, gen=(2, 5000))
    scale = c['rho_crit_0'] * c['OmegaB']
    d = T.array('overdensity', shp, lo=0, gen=(0.1, 3))
    zl = T.real('zlow', lo=0, gen=(6, 12))
    r = T.call('temperature.calc_dt_full_lightcone', xi, Ts, d * scale, zl, los_axis=ax, correct=False)
    if T.frame:
        return
    n = shp[ax]
    cell = LB / shp[(ax + 1) % 3]
    zz = T.np.atleast_1d(T.call('cosmo.cdist_to_z', T.np.arange(n) * cell + T.call('cosmo.z_to_cdist', zl)))

    def voxel(i, j, k):
        zk = T.at(zz, (i, j, k)[ax])
        return ('eq', T.at(r, i, j, k), prefactor(T, c, zk) * (1 - T.at(xi, i, j, k)) * T.at(d, i, j, k) * (1 - c['Tcmb0'] * (1 + zk) / T.at(Ts, i, j, k)), 1e-7)
    T.forall('slice redshift', shp, voxel)
