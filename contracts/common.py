"""shared preconditions and specification functions"""
import math


def derived(c, np, lam=None):
    """the representation invariant of module const (property P01): every derived constant as a function of the primaries"""
    H0 = 100.0 * c['h']
    lam = 1.0 - c['Omega0'] if lam is None else lam
    H0cgs = H0 * c['kms'] / c['Mpc']
    rho = 3.0 * H0cgs * H0cgs / (8.0 * np.pi * c['G_grav'])
    num = (1 - c['abu_he_mass']) * c['OmegaB'] * rho / c['m_p']
    lambda0 = c['lambda0']
    return dict(H0=H0, lam=lam, OmegaL=lam, q0=0.5 * c['Omega0'] - lam, H0cgs=H0cgs, rho_crit_0=rho, rho_matter=rho * c['Omega0'],
                abu_h_mass=1 - c['abu_he_mass'], mean_molecular=1.0 / (1.0 - c['abu_he_mass']), num_h_0=num,
                meandt=3.0 * lambda0 * lambda0 * lambda0 / (32. * np.pi) * c['A10'] * c['Tstar'] * num / (H0cgs / c['h']) * 1000.)


FIXED = ('kms', 'Mpc', 'G_grav', 'm_p', 'lambda0', 'A10', 'Tstar', 'c', 'nu0', 'Tcmb0', 'abu_he', 'c_light_cgs', 'c_light_SI', 'KB_SI', 'janskytowatt', 'yr_in_sec', 'solar_masses_per_gram', 'pc')


def prim(T):
    """arbitrary physical primary parameters"""
    return dict(h=T.real('h', gt=0.1, lt=3, gen=(0.5, 0.9)), Omega0=T.real('Omega0', gt=0.001, lt=1, gen=(0.15, 0.5)),
                OmegaB=T.real('OmegaB', gt=0.001, lt=0.5, gen=(0.02, 0.08)), abu_he_mass=T.real('abu_he_mass', lo=0, lt=0.9, gen=(0.1, 0.3)))


def cosmo(T):
    """put module const into an arbitrary state satisfying the P01 invariant; returns the constants as a dict"""
    m = T.mod('const')
    c = {k: getattr(m, k) for k in FIXED}
    c.update(prim(T))
    if T.sym:
        # weaker precondition than the invariant: derived constants arbitrary (positive), only flatness kept
        for k in ('H0', 'H0cgs', 'rho_crit_0', 'num_h_0', 'meandt', 'mean_molecular', 'abu_h_mass'):
            c[k] = T.real('const.' + k, gt=0)
        c['lam'] = c['OmegaL'] = 1 - c['Omega0']
        c['q0'] = c['Omega0'] / 2 - c['lam']
        c['rho_matter'] = c['rho_crit_0'] * c['Omega0']
    else:
        c.update(derived(c, T.np))
    T.setmod('const', **{k: v for k, v in c.items() if k not in FIXED})
    return c


def box(T, LB=None):
    """arbitrary comoving box length in module conv"""
    v = T.real('LB', gt=1, gen=(50, 600)) if LB is None else LB
    T.setmod('conv', LB=v)
    return v


def E2(c, z):
    """squared dimensionless Hubble rate of the flat model"""
    return c['Omega0'] * (1 + z) * (1 + z) * (1 + z) + c['lam']


def shape3(T, lo=1, g=(1, 5)):
    return T.int('nx', lo, gen=(max(lo, g[0]), g[1])), T.int('ny', lo, gen=(max(lo, g[0]), g[1])), T.int('nz', lo, gen=(max(lo, g[0]), g[1]))


def scalar_or(T, name, n, **k):
    """the documented containers of a numeric argument: scalar, list, array (float or int)"""
    pass


def abstract_distances():
    """callee contracts of the distance conversions (verified under P03/P04): functions of one number, applied elementwise,
    a single-element array giving a scalar"""
    from pyded.vals import as_arr, elementwise, kf_float, zr, wrap, raw, is_z3, CTX, z, Arr
    from pyded.sym import fn, RL

    def mk(name):
        f = fn(name, RL, RL)

        def ov(w, fv, args, kw):
            x = args[0] if args else list(kw.values())[0]
            r = elementwise(lambda v: f(zr(v)), kf_float, x)
            if isinstance(r, Arr) and r.ndim == 1:
                n = r.shape[0]
                one = n == 1 if isinstance(n, int) else CTX.decide(z(n) == 1)
                if one:
                    return wrap(r.get((0,)))
            return r
        return ov
    return {'cosmo.z_to_cdist': mk('Dc'), 'cosmo.cdist_to_z': mk('Dc_inv')}
