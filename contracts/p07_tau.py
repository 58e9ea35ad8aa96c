from pyded.kit import contract
from contracts.common import *


def coefficient(c):
    return (2.0 * c['c'] * 1e5 * 6.65e-25 * c['OmegaB'] / c['Omega0'] * c['rho_crit_0'] * (1 + c['abu_he']) / c['mean_molecular'] / c['m_p'] / (3. * c['H0cgs']))


def rate(T, c, z):
    return (1 + z) * (1 + z) / T.np.sqrt(E2(c, z))


def depth(T, x, z, n, c, tag=''):
    """optical depth at the j-th given redshift: trapezia above the fully ionised part, by their recurrence"""
    C = coefficient(c)
    f = lambda m: x(m) * rate(T, c, z(m))
    step = lambda m: 1.5 * C * c['Omega0'] * (f(m) + f(m + 1)) * (z(m + 1) - z(m)) / 2
    start = C * (T.np.sqrt(E2(c, z(0))) - 1)
    if T.sym:
        D = T.ghost('depth%s' % tag, 1, kind='f')
        T.assume(D(0) == start)
        T.given((n - 1,), lambda m: D(m + 1) == D(m) + step(m))
        return D
    return lambda j: start + sum(step(m) for m in range(int(j)))


def integrate(T, c, n, p, xs, zs):
    """sorted pairs, the value at entry i, and the loop of tau"""
    C = coefficient(c)
    o = T.np.argsort(zs)
    Z, X = zs[o], xs[o]
    z, x = (lambda m: T.at(Z, m)), (lambda m: T.at(X, m))
    D = depth(T, x, z, n, c)
    below = lambda i: C * (T.np.sqrt(E2(c, (i + 1) * z(0) / p)) - 1)
    if T.sym:
        T.loop('tau.tau', lambda k, pre: dict(tau0=T.build((n + p,), lambda i: T.ite(i < p, below(i), T.ite(i < p + k, D(i - p), 0)))))
    return x, z, D, below


@contract('P07', ['tau.tau'], frame=True)
def one_dimension(T):
    c = cosmo(T)
    n = T.int('n', 1, gen=(1, 6))
    p = T.choice('num_points', [50, 7])
    xs = T.array('xi', (n,), lo=0, hi=1)
    zs = T.array('redshifts', (n,), lo=0, gen=(0, 20), plain=True)
    if T.frame:
        T.call('tau.tau', xs, zs, p)
        return
    x, z, D, below = integrate(T, c, n, p, xs, zs)
    r, tz = T.call('tau.tau', xs, zs, p)
    T.ensure_eq('one entry per redshift', T.np.zeros(T.shape(r)), T.np.zeros((n + p,)))
    T.forall('redshifts up to the first given one', (p,), lambda i: ('eq', T.at(tz, i), (i + 1) * z(0) / p, 1e-9))
    T.forall('then the given ones in increasing order', (n,), lambda j: ('eq', T.at(tz, j + p), z(j), 1e-9))
    T.forall('fully ionised below the first redshift', (p,), lambda i: ('eq', T.at(r, i), below(i), 1e-12))
    T.forall('integral of the history', (n,), lambda j: ('eq', T.at(r, j + p), D(j), 1e-12))


@contract('P07', ['tau.tau'])
def increases(T):
    c = cosmo(T)
    n = T.int('n', 1, gen=(1, 6))
    p = 50
    xs = T.array('xi', (n,), lo=0, hi=1)
    zs = T.array('redshifts', (n,), lo=0, gen=(0, 20), plain=True)
    if T.sym:
        # what one_dimension establishes about the result, with the two factors of a trapezium named
        C = coefficient(c)
        zz = T.array('sorted redshifts', (n,), lo=0, plain=True)
        x, z = T.array('sorted xi', (n,), lo=0, hi=1), lambda m: T.at(zz, m)
        T.given((n - 1,), lambda m: z(m) <= z(m + 1))
        D, f, dz = T.ghost('depth', 1, kind='f'), T.ghost('f', 1, kind='f'), T.ghost('dz', 1, kind='f')
        below = lambda i: C * (T.np.sqrt(E2(c, (i + 1) * z(0) / p)) - 1)
        T.assume(D(0) == C * (T.np.sqrt(E2(c, z(0))) - 1))
        T.given((n,), lambda m: f(m) == T.at(x, m) * rate(T, c, z(m)))
        T.given((n - 1,), lambda m: dz(m) == z(m + 1) - z(m))
        T.given((n - 1,), lambda m: D(m + 1) == D(m) + 1.5 * C * c['Omega0'] * (f(m) + f(m + 1)) * dz(m) / 2)
        T.forall('sorted', (n - 1,), lambda m: ('le', 0, dz(m)))
        T.given((n - 1,), lambda m: dz(m) >= 0)
        T.forall('history times rate is not negative', (n,), lambda m: ('le', 0, T.at(x, m) * rate(T, c, z(m))))
        T.given((n,), lambda m: f(m) >= 0)
        T.forall('each trapezium is not negative', (n - 1,), lambda m: ('le', 0, 1.5 * C * c['Omega0'] * (f(m) + f(m + 1)) * dz(m) / 2))
        T.given((n - 1,), lambda m: 1.5 * C * c['Omega0'] * (f(m) + f(m + 1)) * dz(m) / 2 >= 0)
        r = T.build((n + p,), lambda i: T.ite(i < p, below(i), D(i - p)))
        tz = T.build((n + p,), lambda i: T.ite(i < p, (i + 1) * z(0) / p, z(i - p)))
    else:
        r, tz = T.call('tau.tau', xs, zs)
    T.forall('never decreases below the first redshift', (p - 1,), lambda i: ('le', T.at(r, i), T.at(r, i + 1), 1e-12))
    T.ensure_le('never decreases at the first redshift', T.at(r, p - 1), T.at(r, p), atol=1e-12)
    T.forall('never decreases', (n - 1,), lambda i: ('le', T.at(r, i + p), T.at(r, i + p + 1), 1e-12))
    T.ensure_le('never negative', 0 * T.at(r, 0), T.at(r, 0), atol=1e-12)
    T.forall('redshifts increase', (n - 1,), lambda i: ('le', T.at(tz, i + p), T.at(tz, i + p + 1), 1e-9))


@contract('P07', ['tau.tau'])
def linear(T):
    c = cosmo(T)
    n = T.int('n', 1, gen=(1, 6))
    x1 = T.array('xi1', (n,), lo=0, hi=1)
    x2 = T.array('xi2', (n,), lo=0, hi=1)
    zs = T.array('redshifts', (n,), lo=0, gen=(0, 20), plain=True)
    if T.sym:
        # the contract of tau (one_dimension) in terms of the history integral; what is left is that this integral is linear
        p = 50
        o = T.np.argsort(zs)
        z, w = (lambda m: T.at(zs[o], m)), (lambda x: lambda m: T.at(x[o], m))
        S = [depth(T, w(v), z, n, c, k) for k, v in enumerate((x1, x2, x1 * 0, x1 + 3 * x2))]
        j = T.int('j', 0)
        T.assume(j < n - 1)
        lin = lambda j: S[3](j) - S[2](j) == (S[0](j) - S[2](j)) + 3 * (S[1](j) - S[2](j))
        T.ensure('base', lin(0))
        T.assume(lin(j))
        T.ensure('step', lin(j + 1))
        return
    r1, _ = T.call('tau.tau', x1, zs)
    r2, _ = T.call('tau.tau', x2, zs)
    r0, _ = T.call('tau.tau', x1 * 0, zs)
    r3, _ = T.call('tau.tau', x1 + 3 * x2, zs)
    T.ensure_eq('linear in the history', r3 - r0, (r1 - r0) + 3 * (r2 - r0), atol=1e-12)


@contract('P07', ['tau.tau', 'tau.tau_map'], bounded='random permutations of up to 8 pairs')
def order(T):
    cosmo(T)
    n = T.int('n', 1, 8)
    xs = T.array('xi', (n,), lo=0, hi=1)
    zs = T.np.cumsum(T.array('dz', (n,), gt=0.01, gen=(0.05, 2)))
    perm = T.np.random.permutation(n)
    r, tz = T.call('tau.tau', xs, zs)
    r2, tz2 = T.call('tau.tau', xs[perm], zs[perm])
    T.ensure_eq('any order of the pairs', r2, r, atol=1e-12)
    T.ensure_eq('any order of the pairs (redshifts)', tz2, tz)


@contract('P07', ['tau.tau_map'], frame=True, budget=150)
def each_line_of_sight(T):
    c = cosmo(T)
    nx, ny, n = shape3(T)
    p = T.choice('num_points', [50, 7])
    lc = T.array('xi', (nx, ny, n), lo=0, hi=1)
    zs = T.array('redshifts', (n,), lo=0, gen=(0, 20), plain=True)
    r, tz = T.call('tau.tau_map', lc, zs, num_points=p)
    if T.frame:
        return
    i, j = T.int('i', 0, gen=(0, 3)), T.int('j', 0, gen=(0, 3))
    T.assume(T.land(i < nx, j < ny))
    r1, tz1 = T.call('tau.tau', lc[i, j, :], zs, p)
    T.ensure_eq('same redshifts as in one dimension', tz, tz1)
    T.ensure_eq('each line of sight as in one dimension', r[i, j, :], r1, atol=1e-13)
    T.ensure_eq('shape of the map', T.np.zeros(T.shape(r)), T.np.zeros((nx, ny, n + p)))
