from pyded.kit import contract
from contracts.common import *

PS = 'power_spectrum.power_spectrum_nd'
XS = 'power_spectrum.cross_power_spectrum_nd'


def field(T, dim, name='field', g=6, kind='f'):
    return tuple(T.int('n%d' % i, 1, gen=(1, g)) for i in range(dim))


def dims(T, dim):
    """every documented way to give the box size: (argument list, keywords, side lengths)"""
    how = T.choice('box size', ['length', 'list', 'array', 'default', 'boxsize'])
    L = [T.real('L%d' % i, gt=0, gen=(1, 500)) for i in range(dim)]
    if how == 'length':
        return [L[0]], {}, [L[0]] * dim
    if how == 'list':
        return [list(L)], {}, L
    if how == 'array':
        return [T.np.array(L)], {}, L
    if how == 'default':
        box(T, L[0])
        return [None], {}, [L[0]] * dim
    return [None], {'boxsize': L[0]}, [L[0]] * dim


def vol(x):
    v = 1
    for k in x:
        v = v * k
    return v


def transform(T, a, ix, shp):
    """Fourier coefficient of the centred mode ix"""
    F = T.np.fft.fftn(a * 1.0)
    at = [(i - n // 2) % n for i, n in zip(ix, shp)]
    return T.at(T.np.real(F), *at), T.at(T.np.imag(F), *at)


@contract('P13', [PS, 'power_spectrum._get_dims'], frame=True)
def auto(T):
    dim = T.choice('dim', [1, 2, 3])
    shp = field(T, dim)
    a = T.array('field', shp, kind=T.choice('kind', ['f', 'i']), gen=(-9, 9))
    args, kw, L = dims(T, dim)
    r = T.call(PS, a, *args, **kw)
    if T.frame:
        return
    V, N = vol(L), vol(shp)

    def want(*ix):
        f = transform(T, a, ix, shp)
        return ('eq', T.at(r, *ix) / V * (N * N), f[0] * f[0] + f[1] * f[1], 1e-6)
    T.forall('centred squared transform times volume over cells squared', shp, want)
    T.forall('never negative', shp, lambda *ix: T.at(r, *ix) >= 0)


@contract('P13', [PS])
def quadratic(T):
    dim = T.choice('dim', [1, 2, 3])
    shp = field(T, dim)
    a = T.array('field', shp, gen=(-9, 9))
    L = T.real('L', gt=0, gen=(1, 500))
    c = T.real('c', gen=(-5, 5))
    T.ensure_eq('quadratic in the amplitude', T.call(PS, a * c, L), T.call(PS, a, L) * (c * c), atol=1e-6)


@contract('P13', [XS, 'power_spectrum._get_dims'], frame=True)
def cross(T):
    dim = T.choice('dim', [1, 2, 3])
    shp = field(T, dim)
    a = T.array('field', shp, gen=(-9, 9))
    b = T.array('other', shp, gen=(-9, 9))
    args, kw, L = dims(T, dim)
    r = T.call(XS, a, b, *args, **kw)
    if T.frame:
        return
    V, N = vol(L), vol(shp)

    def want(*ix):
        f, g = transform(T, a, ix, shp), transform(T, b, ix, shp)
        return ('eq', T.at(r, *ix) / V * (N * N), f[0] * g[0] + f[1] * g[1], 1e-6)
    T.forall('real part of one transform times the conjugate of the other', shp, want)


@contract('P13', [XS])
def symmetric(T):
    dim = T.choice('dim', [1, 2, 3])
    shp = field(T, dim)
    a, b = T.array('field', shp, gen=(-9, 9)), T.array('other', shp, gen=(-9, 9))
    L = T.real('L', gt=0, gen=(1, 500))
    T.ensure_eq('symmetric', T.call(XS, a, b, L), T.call(XS, b, a, L), atol=1e-6)


@contract('P13', [XS])
def linear(T):
    dim = T.choice('dim', [1, 2, 3])
    shp = field(T, dim)
    a, b, d = T.array('field', shp, gen=(-9, 9)), T.array('other', shp, gen=(-9, 9)), T.array('third', shp, gen=(-9, 9))
    L = T.real('L', gt=0, gen=(1, 500))
    c = T.real('c', gen=(-5, 5))
    T.ensure_eq('linear in the first field', T.call(XS, a + c * b, d, L), T.call(XS, a, d, L) + c * T.call(XS, b, d, L), atol=1e-6)
    T.ensure_eq('linear in the second field', T.call(XS, d, a + c * b, L), T.call(XS, d, a, L) + c * T.call(XS, d, b, L), atol=1e-6)


@contract('P13', [XS, PS])
def cross_of_equal(T):
    dim = T.choice('dim', [1, 2, 3])
    shp = field(T, dim)
    a = T.array('field', shp, gen=(-9, 9))
    L = T.real('L', gt=0, gen=(1, 500))
    T.ensure_eq('equal to the auto spectrum', T.call(XS, a, a, L), T.call(PS, a, L), atol=1e-6)


@contract('P13', [PS, XS], bounded='fields of up to 6 cells a side')
def parseval(T):
    np = T.np
    dim = T.choice('dim', [1, 2, 3])
    shp = field(T, dim)
    a = T.array('field', shp, gen=(-9, 9))
    b = T.array('other', shp, gen=(-9, 9))
    L = [T.real('L%d' % i, gt=0, gen=(1, 500)) for i in range(dim)]
    V, N = vol(L), vol(shp)
    P = T.call(PS, a, L)
    T.ensure_eq('Parseval', P.sum(), (a * a).sum() * V / N, atol=1e-6)
    T.ensure_eq('Parseval of the cross spectrum', T.call(XS, a, b, L).sum(), (a * b).sum() * V / N, atol=1e-6)
    s = [T.int('s%d' % i, 0, gen=(0, 5)) for i in range(dim)]
    T.ensure_eq('cyclic shifts', T.call(PS, np.roll(a, s, axis=tuple(range(dim))), L), P, atol=1e-6)
    T.ensure_eq('cyclic shifts of both', T.call(XS, np.roll(a, s, axis=tuple(range(dim))), np.roll(b, s, axis=tuple(range(dim))), L), T.call(XS, a, b, L), atol=1e-6)
    # one mode by the definition of the transform, centred on cell n//2
    m = [T.int('m%d' % i, 0, gen=(0, 5)) % n for i, n in enumerate(shp)]
    ph = sum((k - n // 2) * x / n for k, n, x in zip(m, shp, np.indices(shp)))
    f = (a * np.exp(-2j * np.pi * ph)).sum()
    T.ensure_eq('mode by definition', P[tuple(m)], abs(f) ** 2 * V / N ** 2, atol=1e-6)


@contract('P13', ['power_spect_fast.power_spect_nd', PS])
def fast(T):
    shp = shape3(T)
    a = T.array('field', shp, gen=(-9, 9))
    L = T.choice('how', ['length', 'lengths'])
    L = T.real('L', gt=0, gen=(1, 500)) if L == 'length' else [T.real('L%d' % i, gt=0, gen=(1, 500)) for i in range(3)]
    T.ensure_eq('both implementations agree', T.call('power_spect_fast.power_spect_nd', a, L, False), T.call(PS, a, L), atol=1e-6)
