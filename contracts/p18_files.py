from pyded.kit import contract
from contracts.common import *

H = 'helper_functions.'
ZS = ['7.305', '10.000', '6', '24.5']


def units(T):
    conv = T.mod('conv')
    T.setmod('conv', nbox_fine=T.real('nbox_fine', gt=0.5, gen=(1, 3000)), LB=T.real('LB', gt=0.1, gen=(10, 700)),
             M_grid=T.real('M_grid', gt=1, gen=(1e38, 1e42)))
    return conv


def same(T, name, got, want, shp):
    T.ensure_eq(name + ': shape', T.np.zeros(T.shape(got)), T.np.zeros(shp))
    T.forall(name, shp, lambda *ix: ('eq', T.at(got, *ix), T.at(want, *ix), 0.0))


@contract('P18', ['helper_functions.save_cbin', 'helper_functions.read_cbin'], weight=2)
def cbin(T):
    nd = T.choice('dimensions', [3, 2, 1, 4])
    shp = tuple(T.int('n%d' % k, 1, gen=(1, 5)) for k in range(nd))
    a = T.array('data', shp)
    bits, order = T.choice('bits', [32, 64]), T.choice('order', ['C', 'F'])
    f = T.folder() + '/box.cbin'
    T.call(H + 'save_cbin', f, a, bits, order)
    r = T.call(H + 'read_cbin', f, bits, order, nd)
    if T.frame:
        return
    same(T, 'values in the same positions', r, T.single(a) if bits == 32 else a, shp)
    if nd == 3:
        m = T.call(H + 'get_mesh_size', f)
        for k in range(3):
            T.ensure_eq('mesh %d' % k, m[k], shp[k])


@contract('P18', ['helper_functions.save_raw_binary', 'helper_functions.read_raw_binary'])
def raw_binary(T):
    n = T.int('n', 1, gen=(1, 12))
    a = T.array('data', (n, n, n))
    bits, order = T.choice('bits', [32, 64]), T.choice('order', ['C', 'F'])
    f = T.folder() + '/box.bin'
    T.call(H + 'save_raw_binary', f, a, bits, order)
    r = T.call(H + 'read_raw_binary', f, bits, order)
    same(T, 'values in the same positions', r, T.single(a) if bits == 32 else a, (n, n, n))


@contract('P18', ['density_file.DensityFile.write_to_file', 'density_file.DensityFile.read_from_file'], weight=2)
def density(T):
    c = cosmo(T)
    conv = units(T)
    shp = shape3(T)
    a = T.array('data', shp, gt=0, gen=(0.1, 50))
    cgs = T.bool('cgs')
    z = T.choice('z', ZS)
    f = T.folder() + '/%sn_all.dat' % z
    w = T.call('density_file.DensityFile')
    T.method(w, 'write_to_file', f, **({'cgs_density': a} if cgs else {'raw_density': a}))
    r = T.call('density_file.DensityFile', f)
    if T.frame:
        return
    k = c['rho_crit_0'] * c['OmegaB'] * (shp[0] / conv.nbox_fine) ** 3
    # the simulation-unit value is what the file holds; the physical one follows from it
    want = T.single(a / k if cgs else a)
    T.forall('density in simulation units', shp, lambda *ix: ('eq', T.at(T.attr(r, 'raw_density'), *ix), T.at(want, *ix), 0.0)) if not cgs or T.sym else \
        T.ensure_eq('density in simulation units', T.attr(r, 'raw_density') * 1.0, want, rtol=1e-6)
    T.ensure_eq('physical density', T.attr(r, 'cgs_density'), T.attr(r, 'raw_density') * k, rtol=1e-6) if not T.sym else \
        T.forall('physical density', shp, lambda *ix: ('eq', T.at(T.attr(r, 'cgs_density'), *ix), T.at(T.attr(r, 'raw_density'), *ix) * k, 0.0))
    T.ensure_eq('shape', T.np.zeros(T.shape(T.attr(r, 'raw_density'))), T.np.zeros(shp))
    T.forall('the writer holds both densities', shp, lambda *ix: ('eq', T.at(T.attr(w, 'cgs_density'), *ix), T.at(T.attr(w, 'raw_density'), *ix) * k, 0.0 if T.sym else 1e-6 * float(k) * 1e4))
    T.ensure('writer and reader agree on the mesh', T.land(*[T.attr(w, 'mesh_' + q) == T.attr(r, 'mesh_' + q) for q in 'xyz']))
    T.ensure_eq('redshift', T.attr(r, 'z'), float(z))
    m = T.call(H + 'get_mesh_size', f)
    for q in range(3):
        T.ensure_eq('mesh %d' % q, m[q], shp[q])


@contract('P18', ['density_file.ClumpingFile.write_to_file', 'density_file.ClumpingFile.read_from_file'])
def clumping(T):
    shp = shape3(T)
    a = T.array('data', shp, gt=0, gen=(1, 50))
    z = T.choice('z', ZS)
    d = T.folder()
    f, g = d + '/%sc_all.dat' % z, d + '/copy_%sc_all.dat' % z
    w = T.call('density_file.ClumpingFile')
    T.method(w, 'write_to_file', f, a)
    r = T.call('density_file.ClumpingFile', f)
    T.method(r, 'write_to_file', g)
    r2 = T.call('density_file.ClumpingFile', g)
    if T.frame:
        return
    same(T, 'clumping', T.attr(r, 'raw_clumping'), T.single(a), shp)
    same(T, 'a loaded file can be written again', T.attr(r2, 'raw_clumping'), T.single(a), shp)
    T.ensure_eq('redshift', T.attr(T.call('density_file.ClumpingFile', f), 'z'), float(z))


@contract('P18', ['vel_file.VelocityFile.write_to_file', 'vel_file.VelocityFile.read_from_file', 'vel_file.VelocityFile.get_kms_from_density', 'conv.velconvert'])
def velocity(T):
    c = cosmo(T)
    units(T)
    shp = shape3(T)
    a = T.array('data', (3,) + tuple(shp), gen=(-50, 50))
    rho = T.array('rho', shp, gt=0, gen=(0.1, 50))
    z = T.choice('z', ZS)
    d = T.folder()
    f, g = d + '/%sv_all.dat' % z, d + '/copy_%sv_all.dat' % z
    w = T.call('vel_file.VelocityFile')
    T.method(w, 'write_to_file', f, a)
    r = T.call('vel_file.VelocityFile', f)
    v = T.method(r, 'get_kms_from_density', rho)
    if T.frame:
        return
    same(T, 'momentum', T.attr(r, 'raw_velocity'), T.single(a), (3,) + tuple(shp))
    T.ensure_eq('redshift', T.attr(r, 'z'), float(z))
    k = T.call('conv.velconvert', float(z))
    p = T.single(a)
    T.forall('velocity is momentum over density', (3,) + tuple(shp), lambda q, *ix: ('eq', T.at(v, q, *ix) * T.at(rho, *ix), 8 * k * T.at(p, q, *ix), 1e-9))
    T.method(r, 'write_to_file', g)
    same(T, 'a loaded file can be written again', T.attr(T.call('vel_file.VelocityFile', g), 'raw_velocity'), p, (3,) + tuple(shp))


@contract('P18', ['xfrac_file.XfracFile.write_to_file', 'xfrac_file.XfracFile.read_from_file'], weight=2)
def xfrac(T):
    shp = shape3(T)
    a = T.array('data', shp, lo=0, hi=1)
    old, neutral, binary = T.bool('old_format'), T.bool('neutral'), T.bool('binary_format')
    z = T.choice('z', ZS)
    f = T.folder() + '/xfrac3d_%s.bin' % z
    w = T.call('xfrac_file.XfracFile')
    T.method(w, 'write_to_file', f, a, old_format=old, neutral=neutral, binary_format=binary)
    r = T.call('xfrac_file.XfracFile', f, old_format=old, neutral=neutral, binary_format=binary)
    if T.frame:
        return
    want = 1 - a if neutral else a
    want = T.single(want) if old else want
    other = T.call('xfrac_file.XfracFile', f, old_format=old, neutral=not neutral, binary_format=binary)
    if neutral:
        want, x = 1 - want, want
    else:
        x = 1 - want
    T.forall('ionised fraction', shp, lambda *ix: ('eq', T.at(T.attr(r, 'xi'), *ix), T.at(want, *ix), 1e-7))
    T.forall('neutral option reads one minus the other option', shp, lambda *ix: ('eq', T.at(T.attr(other, 'xi'), *ix), T.at(x, *ix), 1e-7))
    if not old:
        T.forall('64-bit files keep every digit that 1-(1-x) keeps', shp, lambda *ix: ('eq', T.at(T.attr(r, 'xi'), *ix), T.at(a, *ix), 1e-15))
    T.ensure_eq('shape', T.np.zeros(T.shape(T.attr(r, 'xi'))), T.np.zeros(shp))
    T.ensure_eq('redshift', T.attr(r, 'z'), float(z))
    T.ensure('mesh', T.land(*[T.attr(r, 'mesh_' + q) == n for q, n in zip('xyz', shp)]))


@contract('P18', ['temper_file.TemperFile.read_from_file', 'irate_file.IonRateFile.read_from_file'], weight=2)
def c2ray_reader(T):
    """files in the layout the simulation writes: record markers around the mesh and around the data"""
    shp = shape3(T)
    kind = T.choice('kind', ['temper', 'irate', 'irate_binary'])
    a = T.array('data', shp, gt=0, gen=(1, 5e4))
    old, mark = T.bool('old_format'), T.bool('trailing marker')
    z = T.choice('z', ZS)
    n = 4 * shp[0] * shp[1] * shp[2]
    head = [(list(shp), 'i4')] if kind == 'irate_binary' else [([12] + list(shp) + [12, n], 'i4')]
    f = T.folder() + ('/Temper3D_%s.bin' if kind == 'temper' else '/IonRates3_%s.bin') % z
    T.write_file(f, head + [(a, 'f4')] + ([([n], 'i4')] if mark and kind != 'irate_binary' else []))
    if kind == 'temper':
        r = T.call('temper_file.TemperFile', f, old)
        got = T.attr(r, 'temper')
        m = T.call(H + 'get_mesh_size', f)
        for q in range(3):
            T.ensure_eq('mesh %d' % q, m[q], shp[q])
    else:
        r = T.call('irate_file.IonRateFile', f, old, kind == 'irate_binary')
        got = T.attr(r, 'irate')
    if T.frame:
        return
    same(T, 'values', got, T.single(a), shp)
    T.ensure_eq('redshift', T.attr(r, 'z'), float(z))


@contract('P18', ['source_file.SourceFile.write_to_file', 'source_file.SourceFile.read_from_file', 'source_file.SourceFile.grid_sources', 'conv.gridmass_to_msol'],
          bounded='up to 30 sources on meshes of up to 20 cells per side')
def sources(T):
    np = T.np
    units(T)
    n, mesh = T.int('sources', 1, 30), T.int('mesh', 4, 20)
    kind, cols = T.choice('mass', ['hm', 'lm', 'both']), T.choice('columns', [4, 5])
    T.assume(kind != 'both' or cols == 5)
    seed = T.seed()
    rng = np.random.RandomState(seed)
    cells = np.stack(np.unravel_index(rng.choice(mesh ** 3, min(n, mesh ** 3), replace=False), (mesh,) * 3), 1)
    m = 10 ** T.array('log10 masses', (len(cells), cols - 3), gen=(5, 12))
    if T.bool('some zero'):
        m[0, 0] = 0
    src = np.concatenate([cells, m], 1)
    d = T.folder()
    f, g = d + '/7.305-coarsest_wsubgrid_sources.dat', d + '/6.000-coarsest.dat'
    w = T.call('source_file.SourceFile', None, kind)
    T.method(w, 'write_to_file', f, src)
    r = T.call('source_file.SourceFile', f, kind)
    want = src if cols == 4 else src[:, [0, 1, 2, 3]] if kind == 'hm' else src[:, [0, 1, 2, 4]] if kind == 'lm' else src
    T.ensure_eq('source list', r.sources_list, want, rtol=1e-9)
    T.ensure_eq('redshift', r.z, 7.305)
    T.method(r, 'write_to_file', g)
    T.ensure_eq('a loaded file can be written again', T.call('source_file.SourceFile', g, kind).sources_list, want, rtol=1e-9)
    T.method(r, 'grid_sources', mesh)
    grid = np.zeros((mesh,) * 3)
    for row in want:
        grid[tuple(row[:3].astype(int))] = row[3]
    T.ensure_eq('gridded sources', r.sources_coeval, grid, rtol=1e-9)


@contract('P18', ['helper_functions.save_fits', 'helper_functions.read_fits', 'helper_functions.save_data', 'helper_functions.get_data_and_type', 'helper_functions.determine_filetype'],
          bounded='boxes of up to 6 cells per side, every format of save_data')
def generic(T):
    np = T.np
    shp = tuple(T.int('n%d' % k, 1, 6) for k in range(3))
    a = T.array('data', shp)
    fmt, explicit = T.choice('format', ['npy', 'pkl', 'cbin', 'fits', 'bin']), T.bool('format given')
    T.assume(fmt != 'bin' or len(set(shp)) == 1)
    d = T.folder()
    f = d + ('/box' if explicit and fmt != 'npy' else '/box.' + fmt)
    bits = T.choice('bits', [32, 64])
    kw = dict(filetype=fmt) if explicit else {}
    if fmt in ('cbin', 'bin'):
        kw['bits'] = bits
    T.ensure('saved', T.call(H + 'save_data', f, a, **kw))
    if fmt == 'npy':
        r = np.load(f)
    elif fmt == 'pkl':
        import pickle
        with open(f, 'rb') as h:
            r = pickle.load(h)
    elif fmt == 'fits':
        r, hdr = T.call(H + 'read_fits', f)
        T.ensure_eq('without header', T.call(H + 'read_fits', f, header=False), a)
        from astropy.io import fits
        h = fits.Header()
        h['REDSHIFT'] = 7.5
        T.call(H + 'save_fits', a, f, header=h)
        r, hdr = T.call(H + 'read_fits', f, header=True)
        T.ensure('header kept', hdr['REDSHIFT'] == 7.5)
    elif fmt == 'cbin':
        r = T.call(H + 'read_cbin', f, bits)
        if not explicit:
            r2, t = T.call(H + 'get_data_and_type', f, bits)
            T.ensure('recognised', t == 'cbin')
            T.ensure_eq('read by name', r2, r, rtol=0)
    else:
        r = T.call(H + 'read_raw_binary', f, bits)
    T.ensure_eq('values in the same positions', r, T.single(a) if fmt in ('cbin', 'bin') and bits == 32 else a, rtol=0, atol=0)


@contract('P18', ['helper_functions.get_data_and_type', 'helper_functions.determine_filetype', 'read_files.read_c2ray_files', 'read_files.read_21cmfast_files', 'read_files.read_grizzly_files'],
          bounded='boxes of up to 5 cells per side')
def by_name(T):
    """a file is read as what its name says"""
    np = T.np
    cosmo(T)
    units(T)
    shp = tuple(T.int('n%d' % k, 1, 5) for k in range(3))
    x, rho = T.array('x', shp, lo=0, hi=1), T.array('rho', shp, gt=0, gen=(0.1, 9))
    d = T.folder()
    fx, fd, fv = d + '/xfrac3d_7.3.bin', d + '/7.3n_all.dat', d + '/7.3v_all.dat'
    T.method(T.call('xfrac_file.XfracFile'), 'write_to_file', fx, x)
    T.method(T.call('density_file.DensityFile'), 'write_to_file', fd, raw_density=rho)
    v = T.array('v', (3,) + shp)
    T.method(T.call('vel_file.VelocityFile'), 'write_to_file', fv, v)
    r, t = T.call(H + 'get_data_and_type', fx)
    T.ensure('xfrac by name', t == 'xfrac')
    T.ensure_eq('xfrac', r, x, rtol=0)
    r, t = T.call(H + 'get_data_and_type', fd, raw_density=True)
    T.ensure('density by name', t == 'density')
    D = T.call('density_file.DensityFile', fd)
    r, t = T.call(H + 'get_data_and_type', D, raw_density=True)
    T.ensure_eq('raw density', r, T.single(rho), rtol=0)
    r, t = T.call(H + 'get_data_and_type', D)
    T.ensure_eq('density', r, D.cgs_density, rtol=0)
    T.ensure_eq('ionised fraction by read_c2ray_files', T.call('read_files.read_c2ray_files', fx, 'xfrac'), x, rtol=0)
    T.ensure_eq('ionised fraction by read_grizzly_files', T.call('read_files.read_grizzly_files', fx), x, rtol=0)
    T.ensure_eq('density by read_c2ray_files', T.call('read_files.read_c2ray_files', fd, 'dens'), D.cgs_density, rtol=1e-6)
    T.ensure_eq('velocity by read_c2ray_files', T.call('read_files.read_c2ray_files', fv, 'vel', fd),
                T.call('conv.velconvert', 7.3) * T.single(v) / (T.single(rho) / 8), rtol=1e-6)
    n = shp[0]
    c = T.array('cube', (n, n, n))
    T.write_file(d + '/delta_T', [(np.transpose(c), 'f4')])
    T.ensure_eq('21cmFAST cube', T.call('read_files.read_21cmfast_files', d + '/delta_T'), T.single(c), rtol=0)


@contract('P18', ['read_files.write_dictionary_data', 'read_files.read_dictionary_data'], bounded='dictionaries of up to 4 keys per level')
def dictionaries(T):
    np = T.np
    fmt = T.choice('format', ['pkl', 'pickle', 'json', 'yaml', 'yml', 'npz', 'csv', 'PKL', 'JSON'])
    given = T.bool('format given')
    f = T.folder() + '/d' + ('' if given and fmt != 'npz' else '.' + fmt)
    arr = T.array('values', (T.int('len', 1, 5),))
    num, flag = T.real('number', gen=(-1e6, 1e6)), T.bool('flag')
    if fmt == 'npz':
        data = {'a': arr, 'b': T.array('m', (2, 3), kind='c'), 'n': num, 'k': np.array([1, 2, 3])}
    elif fmt == 'csv':
        data = {'a': [float(v) for v in arr], 'b b': list(range(len(arr))), 'c': ['s%d' % k for k in range(len(arr))]}
    else:
        data = {'a': [float(v) for v in arr], 'n': float(num), 'b': bool(flag), 's': 'text: "quoted"\n', 'none': None, 'sub': {'x': 1, 'y': [1, [2.5, 'z']]}}
        if fmt.lower() in ('pkl', 'pickle'):
            data['arr'] = arr
    kw = dict(format=fmt) if given else {}
    T.call('read_files.write_dictionary_data', data, f, **kw)
    r = T.call('read_files.read_dictionary_data', f, **kw)
    T.ensure('the same keys', list(r) == list(data) if fmt != 'yaml' and fmt != 'yml' else sorted(r) == sorted(data))
    tol = 1e-14 if fmt == 'csv' else 0
    for k, v in data.items():
        if isinstance(v, (np.ndarray, float)) or (k == 'a'):
            T.ensure_eq('value of %s' % k, np.asarray(r[k]), np.asarray(v), rtol=tol, atol=0)
        else:
            T.ensure('value of %s' % k, np.array_equal(r[k], v) if isinstance(v, np.ndarray) else r[k] == v)
