from pyded.kit import contract
from contracts.common import *


def cosmo0(T):
    """derived constants as the invariant has them (H0 = 100 h)"""
    c = cosmo(T)
    return c


def dist(T, c, z):
    return c['c'] / c['H0'] * T.integral(lambda x: 1 / T.np.sqrt(E2(c, x)), 0, z)


@contract('P04', ['cosmo.hubble_parameter', 'const.Hz'], frame=True)
def hubble(T):
    c = cosmo(T)
    z = T.real('z', lo=0, gen=(0, 30))
    for f in ('cosmo.hubble_parameter', 'const.Hz'):
        H = T.call(f, z)
        T.ensure_eq(f + ' squared', H * H, c['H0'] * c['H0'] * E2(c, z))
        T.ensure(f + ' positive', H > 0)
    n = T.int('n', 1, gen=(1, 5))
    zs = T.array('zs', (n,), lo=0, gen=(0, 30))
    r = T.call('cosmo.hubble_parameter', zs)
    T.forall('array', (n,), lambda i: ('eq', T.at(r, i) * T.at(r, i), c['H0'] * c['H0'] * E2(c, T.at(zs, i))))


@contract('P04', ['cosmo.z_to_cdist', 'cosmo.nu_to_cdist'], frame=True)
def comoving_distance(T):
    c = cosmo(T)
    z = T.real('z', lo=0, gen=(0, 30))
    d = T.call('cosmo.z_to_cdist', z)
    if T.frame:
        return
    T.ensure_eq('c times the integral of the inverse Hubble rate', d, dist(T, c, z), rtol=1e-7)
    T.ensure_eq('distance of a frequency', T.call('cosmo.nu_to_cdist', c['nu0'] / (1 + z)), d, rtol=1e-7, atol=1e-8)
    dz = T.real('dz', gt=0, gen=(0.01, 10))
    T.ensure('distance increases with redshift', T.call('cosmo.z_to_cdist', z + dz) > d)
    n = T.int('n', 2, gen=(2, 4))
    zs = T.array('zs', (n,), lo=0, gen=(0, 30))
    r = T.call('cosmo.z_to_cdist', zs)
    T.forall('array', (n,), lambda i: ('eq', T.at(r, i), dist(T, c, T.at(zs, i)), 1e-5))


@contract('P04', ['cosmo.luminosity_distance', 'cosmo._ldist'], frame=True, budget=120)
def luminosity(T):
    c = cosmo(T)
    z = T.real('z', lo=0, gen=(0, 30))
    d = T.call('cosmo.luminosity_distance', z)
    if T.frame:
        return
    T.ensure_eq('luminosity distance is (1+z) times the comoving distance', d, dist(T, c, z) * (1 + z), rtol=1e-6)


@contract('P04', ['cosmo.luminosity_distance'])
def luminosity_without_lambda(T):
    """Einstein-de Sitter: the closed form"""
    c = cosmo(T)
    T.setmod('const', Omega0=1, lam=0, OmegaL=0, q0=0.5 if not T.sym else T.real('q0', lo=0.5, hi=0.5))
    z = T.real('z', gt=0, gen=(0.01, 30))
    d = T.call('cosmo.luminosity_distance', z)
    T.ensure('scalar for a scalar', T.is_scalar(d))
    T.ensure_eq('closed form', d, 2 * c['c'] / c['H0'] * (1 + z - T.np.sqrt(1 + z)))


@contract('P04', ['cosmo.angular_size', 'cosmo.angular_size_comoving'], frame=True, budget=120)
def angles(T):
    c = cosmo(T)
    z = T.real('z', gt=0, gen=(0.1, 30))
    s = T.real('size', gt=0, gen=(0.1, 1000))
    a = T.call('cosmo.angular_size', s, z)
    b = T.call('cosmo.angular_size_comoving', s, z)
    if T.frame:
        return
    D = dist(T, c, z)
    arcsec = 180 * 3600 / T.np.pi
    # s kpc = angle * angular-diameter distance, with D_A = D/(1+z)
    T.ensure_eq('proper size is angle times angular-diameter distance', a * D / (1 + z) * 1000, s * arcsec, rtol=1e-6)
    T.ensure_eq('comoving size is angle times comoving distance', b * D, s * 180 / T.np.pi, rtol=1e-6)


@contract('P04', ['cosmo.z_to_age'], frame=True)
def age(T):
    c = cosmo(T)
    z = T.real('z', lo=0, gen=(0, 30))
    t = T.call('cosmo.z_to_age', z)
    if T.frame:
        return
    gyr = c['Mpc'] / c['kms'] / c['yr_in_sec'] / 1e9
    T.ensure_eq('age is the integral of da/(a H)', t * c['H0'],
                gyr * T.integral(lambda a: 1 / (a * T.np.sqrt(c['Omega0'] / (a * a * a) + c['lam'])), 0, 1 / (1 + z)), rtol=1e-6)
    dz = T.real('dz', gt=0, gen=(0.01, 10))
    T.ensure('age decreases with redshift', T.call('cosmo.z_to_age', z + dz) < t)
    n = T.int('n', 2, gen=(2, 4))
    zs = T.array('zs', (n,), lo=0, gen=(0, 30))
    r = T.call('cosmo.z_to_age', zs)
    T.forall('array', (n,), lambda i: ('eq', T.at(r, i), T.call('cosmo.z_to_age', T.at(zs, i)), 1e-9), limit=4)
