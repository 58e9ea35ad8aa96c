from pyded.kit import contract
from contracts.common import *

DERIVED = ('H0', 'H0cgs', 'q0', 'rho_crit_0', 'rho_matter', 'num_h_0', 'mean_molecular', 'abu_h_mass', 'meandt')
SETTERS = {'set_hubble_h': 'h', 'set_omega_matter': 'Omega0', 'set_omega_baryon': 'OmegaB', 'set_abundance_helium': 'abu_he_mass',
           'set_omega_lambda': 'lam', 'set_sigma_8': 'sigma_8', 'set_ns': 'n_s'}
FUNCS = ['const.' + s for s in SETTERS]


def state(T):
    """arbitrary state satisfying the representation invariant"""
    m = T.mod('const')
    c = {k: getattr(m, k) for k in FIXED}
    c.update(prim(T))
    c['lam'] = T.real('lam0', gen=(0.5, 0.9), gt=0, lt=2)
    c['sigma_8'] = T.real('sigma_8', gt=0, gen=(.7, .9))
    c['n_s'] = T.real('n_s', gt=0, gen=(.9, 1))
    c.update({k: v for k, v in derived(c, T.np, c['lam']).items()})
    T.setmod('const', **{k: v for k, v in c.items() if k not in FIXED})
    return m, c


def invariant(T, m, where):
    c = {k: getattr(m, k) for k in FIXED + ('h', 'Omega0', 'OmegaB', 'abu_he_mass', 'lam')}
    d = derived(c, T.np, c['lam'])
    for k in DERIVED:
        T.ensure_eq('%s: %s follows its formula' % (where, k), getattr(m, k), d[k])


def primaries(T, m):
    return {k: getattr(m, k) for k in ('h', 'Omega0', 'OmegaB', 'abu_he_mass', 'lam', 'sigma_8', 'n_s', 'abu_he')}


@contract('P01', ['const.Hz'])
def initial_state(T):
    m = T.mod('const')
    invariant(T, m, 'on import')
    T.ensure_eq('on import: flat', m.lam + m.Omega0, 1)
    T.ensure_eq('on import: OmegaL', m.OmegaL, m.lam)


def mk(setter):
    @contract('P01', ['const.' + setter], name=setter)
    def c(T):
        m, c0 = state(T)
        before = primaries(T, m)
        k = SETTERS[setter]
        rng = dict(h=(0.2, 2, .5, .9), Omega0=(0.01, 1.5, .1, 1.4), OmegaB=(0, 1, .01, .1), abu_he_mass=(0, .95, .1, .4), lam=(-1, 2, .4, .9), sigma_8=(0, 3, .5, 1), n_s=(0, 3, .5, 1.2))[k]
        v = T.real('value', gt=rng[0], lt=rng[1], gen=rng[2:])
        T.call('const.' + setter, v)
        T.ensure_eq('%s is the value given' % k, getattr(m, k), v)
        for q, old in before.items():
            if q == k:
                continue
            if q == 'lam' and k == 'Omega0':
                T.ensure_eq('Lambda closes the universe', m.lam, 1 - v)
            else:
                T.ensure_eq('%s leaves %s alone' % (setter, q), getattr(m, q), old)
        invariant(T, m, 'after ' + setter)
        z = T.real('z', lo=0, gen=(0, 20))
        T.ensure_eq('Hubble rate', m.Hz(z) if not T.sym else T.call('const.Hz', z), m.H0 * T.np.sqrt(m.Omega0 * (1 + z) * (1 + z) * (1 + z) + m.lam))
        if setter == 'set_omega_matter':
            # recorded finding: only the exact known staleness (the value before the call) is excused
            T.finding('F-P01-OmegaL', T.const_eq(m.OmegaL, c0['OmegaL']))
        T.ensure_eq('both names of Lambda agree', m.OmegaL, m.lam)


for _s in SETTERS:
    mk(_s)


@contract('P01', FUNCS, name='sequences', bounded='random setter sequences up to length 8 on the real module')
def sequences(T):
    m, c0 = state(T)
    n = T.int('n', 1, 8)
    last_matter = False
    for i in range(n):
        s = T.choice('setter', sorted(SETTERS))
        rng = dict(h=(.5, .9), Omega0=(.1, 1.4), OmegaB=(.01, .1), abu_he_mass=(.1, .4), lam=(.4, .9), sigma_8=(.5, 1), n_s=(.5, 1.2))[SETTERS[s]]
        v = T.real('value', lo=rng[0], hi=rng[1])
        T.call('const.' + s, v)
        last_matter = s == 'set_omega_matter' or (last_matter and s != 'set_omega_lambda')
    invariant(T, m, 'after a sequence')
    if not last_matter:
        T.ensure_eq('both names of Lambda agree', m.OmegaL, m.lam)
