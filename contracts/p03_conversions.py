from pyded.kit import contract
from contracts.common import *


@contract('P03', ['cosmo.nu_to_z', 'cosmo.z_to_nu', 'cosmo.nu_to_wavel'], frame=True)
def frequency(T):
    c = cosmo(T)
    z = T.real('z', lo=0, gen=(0, 30))
    nu = T.call('cosmo.z_to_nu', z)
    T.ensure_eq('redshifted frequency', nu, c['nu0'] / (1 + z))
    T.ensure_eq('redshift of the frequency of a redshift', T.call('cosmo.nu_to_z', nu), z, atol=1e-9)
    f = T.real('nu', gt=0, gen=(40, 1420))
    T.ensure_eq('frequency of the redshift of a frequency', T.call('cosmo.z_to_nu', T.call('cosmo.nu_to_z', f)), f)
    T.ensure_eq('wavelength times frequency is c', T.call('cosmo.nu_to_wavel', f) * f, c['c'] / 1000.)


@contract('P03', ['cosmo.p_to_c', 'cosmo.c_to_p'], frame=True)
def proper_comoving(T):
    z = T.real('z', lo=0, gen=(0, 30))
    x = T.real('x', gen=(-10, 1000))
    T.ensure_eq('proper size', T.call('cosmo.c_to_p', x, z), x / (1 + z))
    T.ensure_eq('comoving of proper', T.call('cosmo.p_to_c', T.call('cosmo.c_to_p', x, z), z), x)
    T.ensure_eq('proper of comoving', T.call('cosmo.c_to_p', T.call('cosmo.p_to_c', x, z), z), x)


@contract('P03', ['cosmo.deg_to_cdist', 'cosmo.angular_size_comoving'], frame=True)
def angle_distance(T):
    c = cosmo(T)
    z = T.real('z', gt=0, gen=(0.1, 30))
    d = T.real('degrees', gen=(0.01, 20), gt=0)
    L = T.real('cMpc', gen=(0.1, 1000), gt=0)
    T.ensure_eq('angle of the size of an angle', T.call('cosmo.angular_size_comoving', T.call('cosmo.deg_to_cdist', d, z), z), d)
    T.ensure_eq('size of the angle of a size', T.call('cosmo.deg_to_cdist', T.call('cosmo.angular_size_comoving', L, z), z), L)


@contract('P03', ['cosmo.Tvir_to_M', 'cosmo.M_to_Tvir'], frame=True)
def virial(T):
    c = cosmo(T)
    z = T.real('z', lo=0, gen=(0, 30))
    M = T.real('M', gt=0, gen=(1e6, 1e12))
    t = T.real('Tvir', gt=0, gen=(1e3, 1e5))
    T.ensure_eq('mass of the temperature of a mass', T.call('cosmo.Tvir_to_M', T.call('cosmo.M_to_Tvir', M, z), z), M)
    T.ensure_eq('temperature of the mass of a temperature', T.call('cosmo.M_to_Tvir', T.call('cosmo.Tvir_to_M', t, z), z), t)


@contract('P03', ['cosmo.cdist_to_z', 'cosmo.z_to_cdist'], bounded='interpolation error of the redshift of a distance, 0.01<=z<=60, relative 2e-4', weight=1.5)
def distance_inverse(T):
    c = cosmo(T)
    z = T.real('z', lo=0.05, hi=60)
    d = T.call('cosmo.z_to_cdist', z)
    T.ensure_eq('redshift of the distance of a redshift', T.call('cosmo.cdist_to_z', d), z, rtol=3e-4)
    n = T.int('n', 2, gen=(2, 5))
    zs = T.array('zs', (n,), lo=0.05, hi=60)
    T.ensure_eq('array: redshift of the distance of a redshift', T.call('cosmo.cdist_to_z', T.call('cosmo.z_to_cdist', zs)), zs, rtol=3e-4, atol=1e-4)


ONE = ['z_to_cdist', 'cdist_to_z', 'z_to_age', 'luminosity_distance', 'nu_to_z', 'z_to_nu', 'nu_to_wavel', 'nu_to_cdist', 'hubble_parameter']


def containers(fname, *second):
    @contract('P03', ['cosmo.' + fname], name='containers_' + fname, frame=True)
    def c(T):
        cosmo(T)
        rng = {'nu_to_z': (50, 1400), 'nu_to_wavel': (50, 1400), 'nu_to_cdist': (50, 1400), 'cdist_to_z': (100, 9000), 'Tvir_to_M': (1000, 100000), 'M_to_Tvir': (1000000, 1000000000)}.get(fname, (0, 30))
        if second:
            rng = rng if fname in ('Tvir_to_M', 'M_to_Tvir') else (1, 300)
        more = tuple(T.real('z', lo=0 if fname in ('c_to_p', 'p_to_c') else 0.01, gen=(0.1, 30)) for _ in second)
        integer = T.choice('integer', [0, 1])
        n = T.int('n', 2, gen=(2, 5))
        lo = rng[0]
        xs = T.array('xs', (n,), kind='i' if integer else 'f', lo=lo, gen=rng)
        s = T.int('s', lo, gen=rng) if integer else T.real('s', lo=lo, gen=rng)
        one = T.call('cosmo.' + fname, s, *more)
        T.ensure('scalar for a scalar', T.is_scalar(one))
        if not T.frame:
            T.ensure_eq('integer and float scalar agree', one, T.call('cosmo.' + fname, s * 1.0, *more))
        r = T.call('cosmo.' + fname, xs, *more)
        if T.frame:
            return
        T.ensure_eq('one number per entry', T.np.zeros(T.shape(r)), T.np.zeros((n,)))
        T.forall('array entries are the scalar results', (n,), lambda i: ('eq', T.at(r, i), T.call('cosmo.' + fname, T.at(xs, i) * 1.0, *more), 1e-9), limit=8)


for _f in ONE:
    containers(_f)
for _f in ('angular_size', 'angular_size_comoving', 'deg_to_cdist', 'c_to_p', 'p_to_c', 'Tvir_to_M', 'M_to_Tvir'):
    containers(_f, 'z')
