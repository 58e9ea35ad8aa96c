from pyded.kit import contract
from contracts.common import *

TABLE = {37: 2048, 47: 3456, 64: 3456, 114: 6144, 200: 3456, 244: 8000, 425: 10976, 500: 13824}
NAMES = ('boxsize', 'LB', 'nbox_fine', 'M_box', 'M_grid', 'lscale', 'tscale')


def formulas(T, c, cv, z, where):
    T.ensure_eq(where + ': box length', cv.LB * c['h'], cv.boxsize)
    L = cv.LB * c['Mpc']
    n = cv.nbox_fine
    T.ensure_eq(where + ': box mass', cv.M_box, c['rho_matter'] * (L * L * L))
    T.ensure_eq(where + ': cell mass times cells is the box mass', cv.M_grid * (n * n * n * 1.0), cv.M_box)
    T.ensure_eq(where + ': length scale', cv.lscale * n, L)
    T.ensure_eq(where + ': time scale', cv.tscale * (3 * T.np.sqrt(c['Omega0']) * c['H0'] / c['Mpc'] * 1e5), 2.0)
    v = T.call(cv.velconvert, z)
    T.ensure_eq(where + ': velocity conversion', v, cv.lscale / cv.tscale * (1 + z) / 1e5)


@contract('P02', ['conv.set_sim_constants', 'conv.velconvert'], weight=.6)
def valid_box(T):
    c = cosmo(T)
    cv = T.mod('conv')
    T.setmod('conv', **{k: getattr(cv, k) for k in NAMES + ('velconvert',)})
    b = T.choice('box', sorted(TABLE))
    flt = T.choice('float', [0, 1])
    z = T.real('z', lo=0, gen=(0, 30))
    T.call('conv.set_sim_constants', float(b) if flt else b)
    T.ensure_eq('box size is the one given', cv.boxsize, b)
    T.ensure_eq('mesh of that box', cv.nbox_fine, TABLE[b])
    formulas(T, c, cv, z, 'box %d' % b)


@contract('P02', ['conv.set_sim_constants'])
def box_after_box(T):
    """no constant of an earlier box survives"""
    c = cosmo(T)
    cv = T.mod('conv')
    T.setmod('conv', **{k: getattr(cv, k) for k in NAMES + ('velconvert',)})
    b1 = T.choice('box1', [37, 244, 500])
    b = T.choice('box', [37, 47, 64, 425])
    z = T.real('z', lo=0, gen=(0, 30))
    T.call('conv.set_sim_constants', b1)
    T.call('conv.set_sim_constants', b)
    T.ensure_eq('mesh of that box', cv.nbox_fine, TABLE[b])
    formulas(T, c, cv, z, 'box %d after %d' % (b, b1))


@contract('P02', ['conv.set_sim_constants'])
def invalid_box(T):
    c = cosmo(T)
    cv = T.mod('conv')
    T.setmod('conv', **{k: getattr(cv, k) for k in NAMES + ('velconvert',)})
    vals = {}
    for k in NAMES:
        v = T.real('old.' + k, gt=0, gen=(1, 500))
        vals[k] = v
    T.setmod('conv', **vals)
    z = T.real('z', lo=0, gen=(0, 30))
    v0 = T.call(cv.velconvert, z)
    b = T.real('box', gen=(-10, 900))
    for t in TABLE:
        T.assume(T.np.abs(b - t) >= 0.0002)
    ok, e = T.try_call('conv.set_sim_constants', b)
    T.ensure('an unsupported box is refused', not ok)
    for k in NAMES:
        T.ensure_eq('%s unchanged by the refused box' % k, getattr(cv, k), vals[k])
    T.ensure_eq('velocity conversion unchanged by the refused box', T.call(cv.velconvert, z), v0)


@contract('P02', ['conv.gridpos_to_mpc', 'conv.gridvel_to_kms', 'conv.gridmass_to_msol'], frame=True)
def helpers(T):
    c = cosmo(T)
    cv = T.mod('conv')
    L, t, M = T.real('lscale', gt=0, gen=(1e21, 1e24)), T.real('tscale', gt=0, gen=(1e16, 1e18)), T.real('M_grid', gt=0, gen=(1e38, 1e40))
    T.setmod('conv', lscale=L, tscale=t, M_grid=M)
    z = T.real('z', lo=0, gen=(0, 30))
    n = T.int('n', 1, gen=(1, 5))
    a = T.array('a', (n,), gt=0, gen=(1, 1000))
    T.ensure_eq('grid position', T.call('conv.gridpos_to_mpc', a), a * (L / c['Mpc']))
    T.ensure_eq('grid velocity', T.call('conv.gridvel_to_kms', a, z), a * (L / t * (1 + z) / 1e5))
    T.ensure_eq('grid mass', T.call('conv.gridmass_to_msol', a), T.np.log10(a * M * c['solar_masses_per_gram']))
    s = T.real('s', gt=0, gen=(1, 100))
    T.ensure_eq('scalar grid position', T.call('conv.gridpos_to_mpc', s), s * (L / c['Mpc']))


@contract('P02', ['conv.velconvert'])
def initial_state(T):
    cv = T.mod('conv')
    m = T.mod('const')
    c = {k: getattr(m, k) for k in FIXED + ('h', 'Omega0', 'rho_matter', 'H0')}
    T.ensure_eq('initial mesh', cv.nbox_fine, TABLE[244])
    formulas(T, c, cv, T.real('z', lo=0, gen=(0, 30)), 'on import')
