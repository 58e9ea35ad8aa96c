import os
from pyded.kit import contract
from contracts.common import *

N = 'nbody_file.'
G = N + 'halo_list_to_grid'
H2 = [N + 'Halo2Grid.__init__', N + 'Halo2Grid.set_halo_pos', N + 'Halo2Grid.set_halo_mass', N + 'Halo2Grid.value_on_grid']


def haloes(T, gen=6):
    """haloes anywhere in the box, away from the rounding of the cell edges"""
    h = T.int('haloes', 1, gen=(1, 12))
    n = T.int('n_grid', 1, gen=(1, gen))
    L = T.real('box', gt=0, gen=(10, 500))
    x = T.array('positions', (h, 3), lo=0, hi=1, gen=(0, 1)) * L
    m = T.array('mass', (h,), gt=0, gen=(1, 99))
    T.given((h, 3), lambda i, k: T.at(x, i, k) < L)
    if not T.sym:
        T.clear(x * n / L)
    return h, n, L, x, m


def cell(T, x, n, L, i, k):
    return T.floor(T.at(x, i, k) * n / L)


def inside(T, x, n, L, i, a, b, c):
    return T.land(cell(T, x, n, L, i, 0) == a, cell(T, x, n, L, i, 1) == b, cell(T, x, n, L, i, 2) == c)


@contract('P25', [G] + H2, frame=True)
def gridded(T):
    h, n, L, x, m = haloes(T)
    r = T.call(G, m, x, L, n)
    if T.frame:
        return
    g = r[0]
    T.ensure('shape', T.land(len(T.shape(g)) == 3, *[d == n for d in T.shape(g)]))
    T.forall('mass of the haloes inside the cell', (n, n, n), lambda a, b, c: ('eq', T.at(g, a, b, c), T.sum((h,), lambda i: T.ite(inside(T, x, n, L, i, a, b, c), T.at(m, i), 0.0))))
    if not T.sym:
        T.ensure_eq('total mass', T.sum((n, n, n), lambda a, b, c: T.at(g, a, b, c)), T.sum((h,), lambda i: T.at(m, i)))


@contract('P25', H2 + [N + 'Halo2Grid.pos_mpc_to_grid', N + 'Halo2Grid.pos_cm_to_grid'], frame=True)
def units_of_positions(T):
    h, n, L, x, m = haloes(T)
    g = T.call(N + 'Halo2Grid', L, n)
    u = T.choice('unit', ['Mpc', 'mpc', 'cm', 'grid', None])
    f = 3.085677581491367e+24 if u == 'cm' else n / L if u in ('grid', None) else 1.0
    T.method(g, 'set_halo_pos', x * f, **({} if u is None and T.bool('no unit') else dict(unit=u)))
    p = T.attr(g, 'pos_grid')
    w = T.choice('mass unit', ['Msun', 'kg', 'g', 'gram'])
    q = {'Msun': 1.0, 'kg': 1.988409870698051e+30, 'g': 1.988409870698051e+33, 'gram': 1.988409870698051e+33}[w]
    T.method(g, 'set_halo_mass', m * q, unit=w)
    mm = T.attr(g, 'mass_Msun')
    if T.frame:
        return
    T.forall('positions in cells', (h, 3), lambda i, k: ('eq', T.at(p, i, k), T.at(x, i, k) * n / L))
    T.forall('masses in solar masses', (h,), lambda i: ('eq', T.at(mm, i), T.at(m, i)))


BND = 'up to 12 haloes, up to 6 cells a side'


@contract('P25', H2 + [N + 'Halo2Grid.halo_mass_on_grid', N + 'Halo2Grid.halo_value_on_grid'], bounded=BND)
def lists_of_cells(T):
    np = T.np
    h, n, L, x, m = haloes(T)
    g = T.call(N + 'Halo2Grid', L, n)
    T.method(g, 'set_halo_pos', x, unit='Mpc')
    T.method(g, 'set_halo_mass', m, unit='Msun')
    want = np.zeros((n, n, n))
    np.add.at(want, tuple(np.floor(x * n / L).astype(int).T), m)
    how = T.choice('how', ['stored', 'given', 'value', 'binned'])
    if how == 'stored':
        pos, val = T.method(g, 'halo_mass_on_grid')
    elif how == 'given':
        pos, val = T.method(g, 'halo_mass_on_grid', pos=x * n / L, mass=m)
    elif how == 'value':
        pos, val = T.method(g, 'halo_value_on_grid', m)
    else:
        pos, val = T.method(g, 'halo_mass_on_grid', binned_mass=want)
    out = np.zeros((n, n, n))
    out[tuple(pos.T)] = val
    T.ensure_eq('listed cells make up the grid', out, want, atol=1e-9)
    T.ensure('each cell once, none empty', len(np.unique(pos, axis=0)) == len(pos) and (val > 0).all())
    cnt = np.zeros((n, n, n))
    np.add.at(cnt, tuple(np.floor(x * n / L).astype(int).T), 1)
    T.ensure_eq('numbers of haloes', T.method(g, 'value_on_grid', x * n / L, m, statistic='count')[0], cnt)


@contract('P25', [G] + H2, bounded=BND + ', positions exactly on cell edges')
def on_edges(T):
    np = T.np
    h, n = T.int('haloes', 1, 12), T.int('n_grid', 1, 6)
    k = T.array('cells', (h, 3), kind='i', lo=0, gen=(0, 5)) % n
    m = T.array('mass', (h,), gt=0, gen=(1, 99))
    want = np.zeros((n, n, n))
    np.add.at(want, tuple(k.T), m)
    r = T.call(G, m, k * 2.0, 2.0 * n, n)
    T.ensure_eq('lower edges belong to the cell', r[0], want, atol=1e-9)


def with_units(T, how, x, m, L):
    from astropy import units as u
    x = {'none': x, 'Mpc': x * u.Mpc, 'kpc': x * 1000 * u.kpc}[how['positions']]
    m = {'none': m, 'Msun': m * u.Msun, 'kg': (m * u.Msun).to('kg')}[how['masses']]
    L = {'none': L, 'Mpc': L * u.Mpc, 'kpc': L * 1000 * u.kpc}[how['box']]
    return x, m, L


def some_units(T):
    return {k: T.choice('unit of ' + k, o) for k, o in (('positions', ['none', 'Mpc', 'kpc']), ('masses', ['none', 'Msun', 'kg']), ('box', ['none', 'Mpc', 'kpc']))}


@contract('P25', [G], bounded=BND)
def quantities(T):
    np = T.np
    h, n, L, x, m = haloes(T)
    X, M, B = with_units(T, some_units(T), x, m, L)
    want = np.zeros((n, n, n))
    np.add.at(want, tuple(np.floor(x * n / L).astype(int).T), m)
    T.ensure_eq('mass of the haloes inside the cell', np.asarray(T.call(G, M, X, B, n)[0]), want, atol=1e-9)


LI = 'line_intensity.'


@contract('P25', [LI + 'M_HI_on_grid', LI + 'L_CII_on_grid', G], bounded=BND)
def lines(T):
    np = T.np
    from astropy import units as u, cosmology
    h, n, L, x, m = haloes(T)
    m = m * 10 ** T.real('scale', lo=7, hi=11)
    z = T.real('z', lo=3, hi=12)
    X, M, B = with_units(T, some_units(T), x, m, L)
    cs = T.choice('cosmology', [None, 'Planck13', 'WMAP7'])
    kw = {} if cs is None else dict(cosmo=getattr(cosmology, cs))
    c = cosmology.Planck18 if cs is None else getattr(cosmology, cs)
    at = tuple(np.floor(x * n / L).astype(int).T)
    al, be, v0, yp = 0.9, -0.58, 10 ** 1.56, 0.249
    if T.bool('parameters given'):
        al, be, yp, v0 = T.real('alpha', gen=(.1, 2)), T.real('beta', gen=(-1, 1)), T.real('Y_p', gen=(.1, .3)), T.real('v_c0', gen=(10, 60))
        kw.update(alpha=al, beta=be, Y_p=yp, v_c0=v0 * u.km / u.s)
    vc = 96.6 * (178 * c.Om0 / 54.4) ** (1 / 6) * ((1 + z) / 3.3) ** .5 * (m / 1e11) ** (1 / 3)
    hi = al * (1 - yp) * c.Ob0 / c.Om0 * m * (m / c.h / 1e11) ** be * np.exp(-(v0 / vc) ** 3)
    want = np.zeros((n, n, n))
    np.add.at(want, at, hi)
    r = T.call(LI + 'M_HI_on_grid', z, M, X, B, n, **kw)
    T.ensure_eq('hydrogen mass of the haloes in the cell', r.to('Msun').value, want, atol=1e-9 * abs(want).max())
    q = T.choice('recipe', ['Silva2015m1', 'silva2015m2', 'silva2015m3', 'Silva2015m4'])
    a, b = {'1': (0.8475, 7.2203), '2': (1., 6.9647), '3': (0.8727, 6.725), '4': (0.9231, 6.5234)}[q[-1]]
    if T.bool('own SFR'):
        s = T.real('sfr', gen=(.1, 5))
        sfr, kw = s * m / 1e8, dict(SFR=lambda M, z: s * M / (1e8 * u.yr))
    else:
        kw = {}
        sfr = 2.25e-26 * (1 + (z - 7) * 7.5e-2) * m ** 2.59 * (1 + m / 8e8) ** -0.62 * (1 + m / 7e9) ** 0.4 * (1 + m / 1e11) ** -2.25
    T.assume(sfr.min() > 0)
    want = np.zeros((n, n, n))
    np.add.at(want, at, 10 ** (a * np.log10(sfr) + b))
    r = T.call(LI + 'L_CII_on_grid', z, M, X, B, n, recipe=q, **kw)
    T.ensure_eq('CII luminosity of the haloes in the cell', r.to('Lsun').value, want, atol=1e-9 * abs(want).max())
    T.ensure('unknown recipes refused', not T.try_call(LI + 'M_HI_on_grid', z, M, X, B, n, recipe='x')[0])


HL = 'halo_list.'


def columns(T, grid_mass, extra):
    """one line of a halo list: 22 columns or more, the mass of the selection third from the end"""
    v = T.np.round(T.np.random.RandomState(int(grid_mass * 7) % 1000).uniform(-50, 50, 22 + extra), 4)
    v[16] = abs(v[16]) + 1
    v[-3] = grid_mass
    return v


@contract('P25', [HL + 'HaloList.read_from_file', HL + 'HaloCubeP3MFull.read_from_file'], bounded='up to 12 haloes')
def selected(T):
    np = T.np
    full = T.bool('full catalogue')
    n = T.int('haloes', 0, 12)
    gm = [round(float(v), 3) for v in T.array('grid masses', (n,), gt=0, gen=(1, 100))]
    rows = [columns(T, g, 1) for g in gm]
    z = T.choice('z', [6.1, 7.859, 12.048])
    T.call('conv.set_sim_constants', 114 if not full else T.choice('box', [114, 244, 425]))
    c, k = T.mod('conv'), T.mod('const')
    unit = c.M_grid * k.solar_masses_per_gram
    d = T.folder()
    f = os.path.join(d, '%.3fhalos.dat' % z)
    single = 0
    with open(f, 'w') as o:
        for r in rows:
            if full and single < 3 and T.bool('single column before %d' % single):
                o.write('17\n')
                single += 1
            o.write(' '.join(repr(float(v)) for v in r) + '\n')
    lo = hi = None
    kw = {}
    if T.bool('lower mass'):
        lo = T.real('lo', gen=(0, 80)) + 0.0005
        kw['min_select_mass'] = lo * unit
    if T.bool('upper mass'):
        hi = T.real('hi', gen=(20, 120)) + 0.0005
        T.assume(hi > 0)
        kw['max_select_mass'] = hi * unit
    lim = -1
    if T.bool('limit'):
        lim = kw['max_select_number'] = T.int('number', -1, 12)
    start = 0
    if not full and T.bool('start line'):
        start = kw['startline'] = T.int('line', 0, 14)
    T.assume(all(abs(g - b) > 1e-6 for g in gm for b in (lo, hi) if b is not None))
    want = [r for r in rows[max(start - 1, 0):] if (lo is None or r[-3] > lo) and (hi is None or r[-3] < hi)]
    if lim >= 0:
        want = want[:lim]
    if full:
        H = T.call(HL + 'HaloCubeP3MFull', f, box_len=c.LB * k.h, **kw)
    elif T.bool('method'):
        H = T.call(HL + 'HaloList')
        T.method(H, 'read_from_file', f, **kw)
    else:
        H = T.call(HL + 'HaloList', f, **kw)
    T.ensure('redshift of the file', abs(H.z - z) < 1e-9)
    T.ensure('haloes of the range in file order up to the limit', len(H.halos) == len(want) and all(abs(x.solar_masses / (r[-3] * unit) - 1) < 1e-9 for x, r in zip(H.halos, want)), '%d haloes, expected %d' % (len(H.halos), len(want)))
    if not full:
        for x, r in zip(H.halos, want):
            T.ensure('columns', np.allclose(x.pos, r[:3]) and np.allclose(x.pos_cm, r[3:6]) and np.allclose(x.vel, r[6:9]) and np.allclose(x.l, r[9:12]) and np.allclose(x.vel_disp, r[12:15]) and x.m == r[16] and x.mp == r[17])


@contract('P25', [HL + 'HaloRockstar.read_from_file', HL + 'HaloRockstar.get'], bounded='up to 10 haloes')
def rockstar(T):
    np = T.np
    ext = T.choice('format', ['list', 'ascii'])
    md = T.choice('mass definition', ['vir', '200c'])
    n = T.int('haloes', 0, 10)
    if ext == 'list':
        names = '#ID DescID M%s Vmax Vrms R%s Rs Np X Y Z VX VY VZ JX JY JZ Spin' % (md, md)
        key = dict(pos='X', vel='VX', l='JX', vel_disp='Vrms', r='R' + md, m='M' + md)
        last, cosm, part = 15, 2, 5
    else:
        names = '#id num_p m%s mbound_%s r%s vmax rvmax vrms x y z vx vy vz Jx Jy Jz E Spin' % (md, md, md)
        key = dict(pos='x', vel='vx', l='Jx', vel_disp='vrms', r='r' + md, m='m' + md)
        last, cosm, part = 19, 3, 6
    col = names.split()
    v = T.array('table', (n, len(col)), gt=0, gen=(1, 100))
    a = T.real('a', lo=0.05, hi=1)
    head = [names, '#a = %r' % float(a)] + ['# comment'] * (last - 1)
    head[cosm] = '#Om = 0.27; Ol = 0.73; h = 0.7'
    pm = 2.5
    head[part] = '#Particle mass: %s Msun/h' % pm
    f = os.path.join(T.folder(), 'halos.' + ext)
    with open(f, 'w') as o:
        o.write('\n'.join(head) + '\n' + ''.join(' '.join(repr(float(x)) for x in r) + '\n' for r in v))
    kw, k = dict(mass_def=md), n
    if T.bool('limit'):
        kw['max_select_number'] = T.int('number', -1, 12)
        k = n if kw['max_select_number'] < 0 else min(n, kw['max_select_number'])
    H = T.call(HL + 'HaloRockstar', f, **kw)
    T.ensure('haloes in file order up to the limit', len(H.halos) == k, '%d haloes, expected %d' % (len(H.halos), k))
    for nm in key:
        i = col.index(key[nm])
        want = v[:k, i:i + 3] if nm in ('pos', 'vel', 'l') else v[:k, i]
        if k:
            T.ensure_eq(nm, T.method(H, 'get', nm), want)
    T.ensure('header', abs(H.z - (1 / a - 1)) < 1e-9 and (H.Om, H.Ol, H.h, H.part_mass) == (0.27, 0.73, 0.7, pm))
    T.ensure('numbers of particles', all(x.mp == round(x.m / pm) for x in H.halos))
    g = os.path.join(T.folder(), 'halos.txt')
    os.link(f, g) if not os.path.exists(g) else None
    T.ensure('unknown formats refused', not T.try_call(HL + 'HaloRockstar', g)[0])


@contract('P25', [HL + 'HaloCubeP3M.read_from_file', HL + 'HaloCubeP3M.get'], bounded='up to 4 nodes of 5 haloes')
def nodes(T):
    np = T.np
    z = T.choice('z', [6.1, 7.859])
    k = T.int('nodes', 1, 4)
    pid = T.bool('particles')
    d = T.folder()
    rows, per = [], []
    for i in range(k):
        n = T.int('haloes on node %d' % i, 0, 5)
        v = T.array('node %d' % i, (n, 22), gen=(1, 100)).astype('f4')
        os.makedirs(os.path.join(d, 'node%d' % i))
        with open(os.path.join(d, 'node%d' % i, '%.3fhalo%d.dat' % (z, i)), 'wb') as f:
            np.array([n], 'i4').tofile(f)
            np.array([178, 200], 'f4').tofile(f)
            for r in v:
                r.tofile(f)
                (np.arange(50, dtype='i8').tofile(f), np.zeros(300, 'f4').tofile(f)) if pid else np.zeros(6, 'f4').tofile(f)
        per.append(v)
    node = T.int('node', 0, 3) % k if T.bool('one node') else None
    v = np.concatenate(per) if node is None else per[node]
    md = T.choice('mass', ['vir', 'odc'])
    if not d.endswith('/') and T.bool('slash'):
        d += '/'
    H = T.call(HL + 'HaloCubeP3M', d, z=z, node=node, mass_def=md, pid_flag=pid, cosm_unit=False)
    T.ensure('all haloes of the nodes in order', len(H.halos) == len(v) and H.nhalo == len(v))
    if len(v):
        j = 0 if md == 'vir' else 1
        for nm, w in (('pos', v[:, :3]), ('m', v[:, 3 + j]), ('r', v[:, 5 + j]), ('pos_cm', v[:, 7:10]), ('vel', v[:, 10:13]), ('l', v[:, 13:16]), ('vel_disp', np.sqrt((v[:, 16:19].astype(float) ** 2).sum(1)))):
            T.ensure_eq(nm, np.asarray(T.method(H, 'get', nm), float), w.astype(float), rtol=1e-5)
