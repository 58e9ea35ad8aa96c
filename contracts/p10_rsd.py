from pyded.kit import contract
from contracts.common import *


def setup(T, kind='f'):
    c = cosmo(T)
    LB = box(T, T.real('LB', gt=1, gen=(20, 300)))
    los = T.choice('los_axis', [0, 1, 2])
    w = T.int('width', 1, gen=(1, 4))
    d = T.int('depth', 2, gen=(2, 9))
    shp = [w, w, w]
    shp[los] = d
    a = T.array('dT', tuple(shp), kind=kind) if kind == 'f' else T.array('dT', tuple(shp), kind='i', gen=(-9, 9))
    z = T.real('z', lo=0, gen=(6, 12))
    return c, LB, los, w, d, tuple(shp), a, z


def hubble(T, c, z):
    return 100.0 * c['h'] * T.np.sqrt(E2(c, z))


def shift(T, c, v, z):
    """comoving displacement of matter moving at v (km/s) seen at redshift z"""
    zo = (1 + z) / (1 - v / c['c']) - 1
    return (1 + zo) * v / hubble(T, c, zo)


def opaque_rate():
    """callee contract of const.Hz (verified under P01/P04): a positive function of the redshift, applied elementwise"""
    from pyded.vals import elementwise, kf_float, zr, CTX
    from pyded.sym import fn, RL
    import z3
    f = fn('rate', RL, RL)
    return {'const.<lambda>': lambda w, fv, args, kw: elementwise(lambda v: f(zr(v)), kf_float, args[0])}


def any_setup(T, kind='f'):
    """a box of any shape, any speeds below that of light, any number of particles"""
    c = cosmo(T)
    LB = box(T, T.real('LB', gt=1, gen=(20, 300)))
    los, va = T.choice('axes', [(0, 0), (1, 1), (2, 2), (2, 0), (0, 1)])
    w, d = T.int('width', 1, gen=(1, 4)), T.int('depth', 2, gen=(2, 9))
    shp = [w, w, w]
    shp[los] = d
    shp = tuple(shp)
    a = T.array('dT', shp, kind=kind) if kind == 'f' else T.array('dT', shp, kind='i', gen=(-9, 9))
    kms = T.array('kms', (3,) + shp, gen=(-300, 300))
    T.given((3,) + shp, lambda *ix: T.land(T.at(kms, *ix) < c['c'] / 2, T.at(kms, *ix) > -c['c'] / 2))
    m = T.int('num_particles', 1, gen=(1, 6))
    T.assume(d * m > 1)
    return c, LB, los, va, w, d, shp, a, kms, m, T.real('z', lo=0, gen=(6, 12)), T.bool('periodic')


@contract('P10', ['pv_mpm.get_distorted_dt', 'helper_functions.get_interpolated_array'], frame=True, overrides=opaque_rate, budget=150)
def linear_any_box(T):
    c, LB, los, va, w, d, shp, a, kms, m, z, per = any_setup(T)
    b = T.array('dT2', shp)
    q = T.real('factor', gen=(-3, 3))
    f = lambda x: T.call('pv_mpm.get_distorted_dt', x, kms, z, los_axis=los, velocity_axis=va, num_particles=m, periodic=per)
    r1 = f(a)
    if T.frame:
        return
    r2, r3 = f(b), f(a + q * b)
    T.forall('linear in the signal', shp, lambda *ix: ('eq', T.at(r3, *ix), T.at(r1, *ix) + q * T.at(r2, *ix), 1e-7))


@contract('P10', ['pv_mpm.get_distorted_dt', 'helper_functions.get_interpolated_array'], overrides=opaque_rate, budget=150)
def numeric_type_any_box(T):
    c, LB, los, va, w, d, shp, a, kms, m, z, per = any_setup(T, 'i')
    f = lambda x: T.call('pv_mpm.get_distorted_dt', x, kms, z, los_axis=los, velocity_axis=va, num_particles=m, periodic=per)
    r1, r2 = f(a), f(a * 1.0)
    T.forall('integer box as a float box', shp, lambda *ix: ('eq', T.at(r1, *ix), T.at(r2, *ix), 1e-9))


@contract('P10', ['pv_mpm.get_distorted_dt', 'helper_functions.get_interpolated_array'], overrides=opaque_rate, budget=150)
def own_line_of_sight(T):
    """any axis gives the same; a line of sight knows its own cells and the velocity along it only"""
    c, LB, los, va, w, d, shp, a, kms, m, z, per = any_setup(T)
    to = (los + 1) % 3
    r = T.call('pv_mpm.get_distorted_dt', a, kms, z, los_axis=los, velocity_axis=va, num_particles=m, periodic=per)
    ax = lambda k, i, j: tuple([k, i, j] if to == 0 else [i, k, j] if to == 1 else [i, j, k])
    src = lambda k, i, j: tuple([k, i, j] if los == 0 else [i, k, j] if los == 1 else [i, j, k])
    sh2 = ax(d, w, w)
    inv = (lambda x, y, t: (x, y, t)) if to == 0 else (lambda x, y, t: (y, x, t)) if to == 1 else (lambda x, y, t: (t, x, y))
    a2 = T.build(sh2, lambda *ix: T.at(a, *src(*inv(*ix))))
    o = T.array('other component', sh2, gen=(-300, 300))
    k2 = T.build((3,) + sh2, lambda q, *ix: T.ite(q == va, T.at(kms, va, *src(*inv(*ix))), T.at(o, *ix)))
    r2 = T.call('pv_mpm.get_distorted_dt', a2, k2, z, los_axis=to, velocity_axis=va, num_particles=m, periodic=per)
    T.forall('any axis, only the velocity along it', (d, w, w), lambda k, i, j: ('eq', T.at(r2, *ax(k, i, j)), T.at(r, *src(k, i, j)), 1e-7))


@contract('P10', ['pv_mpm.get_distorted_dt'], frame=True, bounded='boxes of up to 4x4x9 cells, displacements up to the box depth')
def conserves(T):
    c, LB, los, w, d, shp, a, z = setup(T)
    kms = T.array('kms', (3,) + shp, gen=(-1, 1))
    va = T.choice('velocity_axis', [0, 1, 2])
    # displacements up to one box depth
    amp = T.real('amplitude', lo=0, gen=(0, 1)) * d * LB / w
    v = kms * amp * hubble(T, c, z) / (1 + z) / 1.05
    T.assume(T.np.abs(v).max() < 0.2 * c['c'])
    s = shift(T, c, v[va], z)
    T.assume(T.np.abs(s).max() <= d * LB / w)
    m = T.int('num_particles', 1, gen=(1, 6))
    T.assume(d * m > 1)
    r = T.call('pv_mpm.get_distorted_dt', a, v, z, los_axis=los, velocity_axis=va, num_particles=m)
    if T.frame:
        return
    T.ensure_eq('signal of every line of sight', r.sum(axis=los), a.sum(axis=los), atol=1e-6)


@contract('P10', ['pv_mpm.get_distorted_dt'], bounded='boxes of up to 4x4x9 cells')
def at_rest(T):
    kind = T.choice('kind', ['f', 'i'])
    c, LB, los, w, d, shp, a, z = setup(T, kind)
    m = T.int('num_particles', 1, gen=(1, 6))
    T.assume(d * m > 1)
    r = T.call('pv_mpm.get_distorted_dt', a, T.np.zeros((3,) + shp), z, los_axis=los, num_particles=m)
    T.ensure_eq('unchanged when nothing moves', r, a * 1.0, atol=1e-9)


@contract('P10', ['pv_mpm.get_distorted_dt'], bounded='boxes of up to 4x4x9 cells')
def uniform_flow(T):
    """a box moving as a whole: every particle is displaced by (1+z) v / H, periodically"""
    c, LB, los, w, d, shp, a, z = setup(T)
    np = T.np
    m = T.int('num_particles', 1, gen=(1, 6))
    T.assume(d * m > 1)
    D = d * LB / w
    v = T.real('f', lo=-1, hi=1) * min(D * 0.9 * hubble(T, c, z) / (1 + z), 0.05 * c['c'])
    s = shift(T, c, v, z)
    T.assume(abs(s) <= D)
    kms = np.zeros((3,) + shp)
    kms[0] = v
    M = d * m
    pos = np.linspace(0, D, M) + s
    pos = np.where(pos < 0, pos + D, np.where(pos > D, pos - D, pos))
    cell = np.minimum((pos * d / D).astype(int), d - 1)
    T.apart(np.abs(pos * d / D - np.round(pos * d / D)), 0 * pos, 1e-6)
    sk = np.moveaxis(a, los, 0)
    want = np.zeros(sk.shape)
    for k in range(M):
        want[cell[k]] += sk[k // m] / m
    r = T.call('pv_mpm.get_distorted_dt', a, kms, z, los_axis=los, num_particles=m)
    T.ensure_eq('displaced by v / H', np.moveaxis(r, los, 0), want, atol=1e-9)


@contract('P10', ['pv_mpm.get_distorted_dt'], bounded='lightcones of up to 4x4x9 cells')
def own_redshift(T):
    """a redshift per slice of a lightcone: as with that redshift alone, for uniform motion of each slice"""
    c = cosmo(T)
    LB = box(T, T.real('LB', gt=1, gen=(20, 300)))
    w, d = T.int('width', 1, gen=(1, 4)), T.int('depth', 2, gen=(2, 9))
    a = T.array('dT', (w, w, d))
    zs = T.array('z', (d,), lo=0, gen=(6, 12))
    kms = T.array('kms', (3, w, w, d), gen=(-300, 300))
    np = T.np
    r = T.call('pv_mpm.get_distorted_dt', a, kms, zs, los_axis=2, num_particles=5)
    # velocities that give the same displacement at one common redshift
    z0 = float(zs[0])
    s = shift(T, c, kms[0], zs)
    v = s * hubble(T, c, z0) / (1 + z0)
    for _ in range(60):
        v = v - (shift(T, c, v, z0) - s) * hubble(T, c, z0) / (1 + z0)
    k2 = kms.copy()
    k2[0] = v
    r2 = T.call('pv_mpm.get_distorted_dt', a, k2, z0, los_axis=2, num_particles=5)
    pos = np.linspace(0, 1, d * 5)
    T.ensure_le('displacements at the own redshift', np.abs(r2 - r).max(), 1e-6 * (1 + np.abs(a).max()))
