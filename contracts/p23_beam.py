from pyded.kit import contract
from contracts.common import *

PB = 'primary_beam.primary_beam'
CB = 'primary_beam.circular_beam'
NULL = 'primary_beam.primary_beam_null'


def abstract_beam():
    """callee contract of circular_beam (verified below): a pattern determined by its arguments"""
    from pyded.vals import zr, CTX, Arr, raw
    from pyded.sym import fn, RL
    from pyded.models import ArrOp

    def beam(w, fv, args, kw):
        names = ['ncells', 'z', 'D_station', 'beam_func', 'boxsize', 'l_null']
        p = dict(D_station=40., beam_func='Gaussian', boxsize=None, l_null=None)
        p.update(zip(names, args))
        p.update(kw)
        if p['boxsize'] is None:
            p['boxsize'] = w.load('tools21cm.conv').ns['LB']
        key = 'beam_%s_%s' % (str(p['beam_func']).lower(), 'D' if p['l_null'] is None else 'null')
        n = p['ncells']
        width = p['D_station'] if p['l_null'] is None else p['l_null']
        z = p['z'] if p['l_null'] is None else 0
        f = fn(key, RL, RL, RL, RL, RL, RL, RL)
        pars = [zr(raw(v)) for v in (n, z, width, p['boxsize'])]
        return Arr((raw(n), raw(n)), lambda ix: f(*pars, zr(ix[0]), zr(ix[1])), 'f')
    o = abstract_distances()
    o['primary_beam.circular_beam'] = beam
    return o


KINDS = ['gaussian', 'Gaussian', 'bessel', 'sigmoid', 'step']


@contract('P23', [PB], frame=True, overrides=abstract_beam, paths=900, budget=120)
def slices(T):
    np = T.np
    lb = box(T)
    n, m = T.int('n', 1, gen=(1, 5)), T.int('slices', 1, gen=(1, 5))
    ax = T.choice('nu_axis', [2, 1, 0])
    shp = [n, n]
    shp.insert(ax, m)
    a = T.array('map', tuple(shp), gen=(-9, 9))
    kw = {}
    if ax != 2 or T.bool('axis given'):
        kw['nu_axis'] = ax
    L, kw2 = lb, {}
    if T.bool('beam given'):
        kw2['beam_func'] = T.choice('beam', KINDS if not T.sym else KINDS[:1] + KINDS[-1:])
    if T.bool('box given'):
        L = kw2['boxsize'] = T.real('boxsize', gt=0, gen=(50, 2000))
    wd = T.choice('width', ['default', 'station', 'null'])
    if wd == 'station':
        kw2['D_station'] = T.real('D_station', gt=0, gen=(2, 80))
    if wd == 'null':
        kw2['l_null'] = T.real('l_null', gt=0, gen=(10, 900))
    how = T.choice('redshifts', ['one', 'one in a list', 'array', 'list'])
    if how == 'one':
        z = T.real('z', lo=5, hi=15)
        zk = lambda k: z
    elif how == 'one in a list':
        z0 = T.real('z', lo=5, hi=15)
        z = [z0]
        zk = lambda k: z0
    else:
        zs = T.array('zs', (m,), lo=5, hi=15)
        z = zs if how == 'array' else [T.at(zs, k) for k in range(T.concrete(lambda: m))] if not T.sym else T.seq(m, lambda k: T.at(zs, k))
        zk = lambda k: T.at(zs, k)
    r = T.call(PB, a, z, verbose=False, **kw, **kw2)
    if T.frame:
        return
    T.ensure('shape', T.land(*[x == y for x, y in zip(T.shape(r), shp)]))
    kw2['boxsize'] = L

    def want(i, j, k):
        ix = [i, j]
        ix.insert(ax, k)
        if ax == 0:
            jx = (j, i)   # the first cell axis of the beam follows the swap of the axes; beams are symmetric (contract circle)
        else:
            jx = (i, j)
        return ('eq', T.at(r, *ix), T.at(a, *ix) * T.at(T.call(CB, n, zk(k), **kw2), *jx))
    T.forall('each slice times the beam of its redshift', (n, n, m), want)


@contract('P23', [PB], frame=True, overrides=abstract_beam)
def single_slice(T):
    lb = box(T)
    n = T.int('n', 1, gen=(1, 6))
    a = T.array('map', (n, n), gen=(-9, 9))
    z = T.real('z', lo=5, hi=15)
    kw = dict(boxsize=T.real('boxsize', gt=0, gen=(50, 2000)) if T.bool('box given') else lb)
    wd = T.choice('width', ['default', 'station', 'null'])
    if wd == 'station':
        kw['D_station'] = T.real('D_station', gt=0, gen=(2, 80))
    if wd == 'null':
        kw['l_null'] = T.real('l_null', gt=0, gen=(10, 900))
    kw['beam_func'] = T.choice('beam', KINDS)
    r = T.call(PB, a, z, verbose=False, **kw)
    if T.frame:
        return
    b = T.call(CB, n, z, **kw)
    T.forall('slice times its beam', (n, n), lambda i, j: ('eq', T.at(r, i, j), T.at(a, i, j) * T.at(b, i, j)))


def pattern(T, kind):
    n = T.int('ncells', 1, gen=(1, 9))
    L = T.real('boxsize', gt=0, gen=(50, 3000))
    w = T.real('l_null', gt=0, gen=(10, 900))
    T.hint(n // 2, n // 2)
    return n, L, w, T.call(CB, n, T.real('z', lo=5, hi=15), boxsize=L, l_null=w, beam_func=kind)


def r2(T, i, j, n, L):
    c = n // 2
    d = L / n
    return ((i - c) * (i - c) + (j - c) * (j - c)) * d * d


@contract('P23', [CB], frame=True)
def gaussian(T):
    np = T.np
    n, L, w, b = pattern(T, T.choice('beam', ['gaussian', 'Gaussian']))
    if T.frame:
        return
    s = w / 1.186 / 2.355
    c = n // 2
    T.ensure('shape', T.land(T.shape(b)[0] == n, T.shape(b)[1] == n))
    T.ensure_eq('one at the centre', T.at(b, c, c), 1.0)
    T.forall('Gaussian of the distance from the centre', (n, n), lambda i, j: ('eq', T.at(b, i, j), np.exp(-r2(T, i, j, n, L) / (2. * s * s)), 1e-9))
    T.forall('between zero and one', (n, n), lambda i, j: T.land(T.at(b, i, j) >= 0, T.at(b, i, j) <= 1))
    T.forall('axes interchangeable', (n, n), lambda i, j: ('eq', T.at(b, i, j), T.at(b, j, i)))


@contract('P23', [CB], frame=True)
def step(T):
    n, L, w, b = pattern(T, T.choice('beam', ['step', 'Step']))
    if T.frame:
        return
    c = n // 2
    T.ensure_eq('one at the centre', T.at(b, c, c), 1.0)
    T.forall('the disc of the first null', (n, n), lambda i, j: T.imp(T.apart(4 * r2(T, i, j, n, L), w * w, 1e-6), T.at(b, i, j) == T.ite(4 * r2(T, i, j, n, L) <= w * w, 1.0, 0.0)))
    T.forall('axes interchangeable', (n, n), lambda i, j: ('eq', T.at(b, i, j), T.at(b, j, i)))


@contract('P23', [CB], frame=True)
def sigmoid(T):
    np = T.np
    n, L, w, b = pattern(T, 'sigmoid')
    if T.frame:
        return
    c = n // 2
    T.ensure_eq('one at the centre', T.at(b, c, c), 1.0)
    e = lambda r: 1. - 1. / (1 + np.exp(0.5 * (w / 2 - r)))
    T.forall('sigmoid of the distance', (n, n), lambda i, j: ('eq', T.at(b, i, j) * e(0.0), e(np.sqrt(r2(T, i, j, n, L))), 1e-6))
    T.forall('between zero and one', (n, n), lambda i, j: T.land(T.at(b, i, j) >= 0, T.at(b, i, j) <= 1 + 1e-12))
    T.forall('axes interchangeable', (n, n), lambda i, j: ('eq', T.at(b, i, j), T.at(b, j, i)))


@contract('P23', [CB], bounded='up to 12 cells (Bessel function not modelled)')
def bessel(T):
    np = T.np
    from scipy.special import j1
    n = T.int('ncells', 1, 12)
    L, w = T.real('boxsize', gt=0, gen=(50, 3000)), T.real('l_null', gt=0, gen=(10, 900))
    b = T.call(CB, n, T.real('z', lo=5, hi=15), boxsize=L, l_null=w, beam_func=T.choice('beam', ['bessel', 'Bessel']))
    x = (np.arange(n) - n // 2) * L / n
    r = np.sqrt(x[:, None] ** 2 + x[None] ** 2)
    q = np.where(r == 0, 1., 3.8317 * r / w)
    want = np.where(r == 0, 1., (2 * j1(q) / q) ** 2)
    T.ensure_eq('Airy pattern', b, want, atol=1e-9)
    T.ensure('one at the centre, none above', abs(b[n // 2, n // 2] - 1) < 1e-9 and b.max() <= 1 + 1e-12 and b.min() >= 0)
    T.ensure_eq('axes interchangeable', b, b.T)


@contract('P23', [NULL, CB], frame=True, overrides=abstract_distances)
def width(T):
    c = cosmo(T)
    lb = box(T)
    z = T.real('z', lo=5, hi=15)
    kw, D = {}, 40.
    if T.bool('station given'):
        D = kw['D_station'] = T.real('D_station', gt=0, gen=(2, 80))
    w = T.call(NULL, z, **kw)
    n = T.int('ncells', 1, gen=(1, 6))
    k = T.choice('beam', ['gaussian', 'step', 'sigmoid'])
    T.assume(w > 0)
    b = T.call(CB, n, z, beam_func=k, **kw)
    if T.frame:
        return
    wl = T.call('cosmo.nu_to_wavel', T.call('cosmo.z_to_nu', z))
    T.ensure_eq('first null of a dish', w * D, 1.22 * wl * T.call('cosmo.z_to_cdist', z))
    q = T.call(CB, n, z, beam_func=k, boxsize=lb, l_null=w)
    T.forall('beam of that null over the default box', (n, n), lambda i, j: ('eq', T.at(b, i, j), T.at(q, i, j)))


@contract('P23', [PB, CB, NULL], bounded='up to 6 cells and 4 slices, all beams')
def with_units(T):
    np = T.np
    from astropy import units
    cosmo(T)
    lb = box(T)
    n, m = T.int('n', 1, 6), T.int('slices', 1, 4)
    a = T.array('map', (n, n, m), gen=(-9, 9))
    z = T.array('zs', (m,), lo=5, hi=15)
    D = T.real('D_station', gen=(2, 80))
    k = T.choice('beam', ['gaussian', 'step', 'sigmoid', 'bessel'])
    r = T.call(PB, a, z, beam_func=k, D_station=D * units.m, verbose=False)
    T.ensure_eq('station diameter with units', r, T.call(PB, a, z, beam_func=k, D_station=D, verbose=False))
    T.ensure_eq('in kilometres', r, T.call(PB, a, z, beam_func=k, D_station=D / 1000 * units.km, verbose=False), atol=1e-9)
    T.ensure('unknown beams refused', not T.try_call(PB, a, z, beam_func='square', verbose=False)[0])
    for i in range(m):
        T.ensure_eq('slices on their own', r[:, :, i], T.call(PB, a[:, :, i], z[i], beam_func=k, D_station=D, verbose=False))
