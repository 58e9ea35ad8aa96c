from pyded.kit import contract
from contracts.common import *
from contracts.p18_files import units

H = 'helper_functions.'
TEXTS = ['%.3f', '%.2f', '%.1f']


def shuffled(T, *mods):
    """directory listings come in an arbitrary order"""
    import glob
    rng = T.np.random.RandomState(T.seed('listing'))

    class G:
        @staticmethod
        def glob(p, *a, **k):
            x = sorted(glob.glob(p, *a, **k))
            rng.shuffle(x)
            return x
    for m in mods:
        T.setmod(m, glob=G)


def redshifts(T, lo, hi, name='z'):
    np = T.np
    n = T.int('files', lo, hi)
    fmt = T.choice('digits', TEXTS)
    zs = np.unique([float(fmt % v) for v in T.array(name, (n,), lo=5.6, hi=13.5)])
    T.assume(len(zs) == n)
    order = np.random.RandomState(T.seed('creation')).permutation(n)
    return [zs[k] for k in order], fmt


def wanted(T, zs):
    np = T.np
    s = sorted(zs)
    k = T.int('bracket', 0, gen=(0, 6))
    T.assume(k < len(s) - 1)
    f = T.choice('where', ['on', 'in', 'in', 'top'])
    if f == 'in':
        z = s[k] + (s[k + 1] - s[k]) * T.real('fraction', gt=0.001, lt=0.999)
    else:
        z = s[k] if f == 'on' else s[-1]
    return z, s


def between(T, z, s, cube):
    """the file at z, or the interpolation in time between its neighbours"""
    if z in s:
        return cube(z)
    lo, hi = max(v for v in s if v < z), min(v for v in s if v > z)
    w = (z - lo) / (hi - lo)
    return cube(hi) * w + cube(lo) * (1 - w)


@contract('P19', ['usefuls.coeval_xfrac', 'read_files.coeval_xfrac_c2ray', 'usefuls.get_zs_list'], bounded='folders of up to 7 files, cubes of up to 4 cells per side')
def ionised_fraction(T):
    np = T.np
    shuffled(T, 'usefuls', 'read_files')
    zs, fmt = redshifts(T, 2, 7)
    shp = tuple(T.int('n%d' % k, 1, 4) for k in range(3))
    d = T.folder()
    x = {}
    for k, z in enumerate(zs):
        x[z] = T.array('x%d' % k, shp, lo=0, hi=1)
        T.method(T.call('xfrac_file.XfracFile'), 'write_to_file', d + '/xfrac3d_' + fmt % z + '.bin', x[z])
    z, s = wanted(T, zs)
    want = between(T, z, s, lambda q: x[q])
    T.ensure_eq('usefuls', T.call('usefuls.coeval_xfrac', d, z), want, rtol=1e-9)
    T.ensure_eq('read_files', T.call('read_files.coeval_xfrac_c2ray', d, z), want, rtol=1e-9)
    T.ensure_eq('redshifts in increasing order', T.call('usefuls.get_zs_list', d), s, rtol=0)
    T.ensure('outside the files', not T.try_call('usefuls.coeval_xfrac', d, s[-1] + 0.5)[0] and not T.try_call('usefuls.coeval_xfrac', d, s[0] - 0.5)[0])


@contract('P19', ['usefuls.coeval_dens', 'usefuls.coeval_overdens', 'usefuls.coeval_vel', 'read_files.coeval_dens_c2ray'], bounded='folders of up to 6 files, cubes of up to 4 cells per side')
def density_velocity(T):
    np = T.np
    cosmo(T)
    units(T)
    shuffled(T, 'usefuls', 'read_files')
    zs, fmt = redshifts(T, 2, 6)
    shp = tuple(T.int('n%d' % k, 1, 4) for k in range(3))
    d = T.folder()
    rho, vel = {}, {}
    for k, z in enumerate(zs):
        f = d + '/' + fmt % z
        T.method(T.call('density_file.DensityFile'), 'write_to_file', f + 'n_all.dat', raw_density=T.array('rho%d' % k, shp, gt=0, gen=(.1, 9)))
        T.method(T.call('vel_file.VelocityFile'), 'write_to_file', f + 'v_all.dat', T.array('v%d' % k, (3,) + shp))
        D = T.call('density_file.DensityFile', f + 'n_all.dat')
        rho[z] = D.cgs_density.astype(np.float64)
        vel[z] = T.call('vel_file.VelocityFile', f + 'v_all.dat').kmsrho8 / (D.raw_density / 8)
    z, s = wanted(T, zs)
    want = between(T, z, s, lambda q: rho[q])
    T.ensure_eq('density', T.call('usefuls.coeval_dens', d, z), want, rtol=1e-6)
    T.ensure_eq('overdensity', T.call('usefuls.coeval_overdens', d, z), want / want.mean() - 1, rtol=1e-5, atol=1e-5)
    T.ensure_eq('velocity', T.call('usefuls.coeval_vel', d, d, z), between(T, z, s, lambda q: vel[q]), rtol=1e-5, atol=1e-5 * max(abs(v).max() for v in vel.values()))
    c = T.call('read_files.coeval_dens_c2ray', d, z)
    up = rho[min(v for v in s if v >= z)]
    T.ensure_eq('density of the file or of the next earlier one, rescaled', c / c.mean(), up / up.mean(), rtol=1e-5)
    if z in s:
        T.ensure_eq('density of the file', c, up, rtol=1e-6)


@contract('P19', ['usefuls.coeval_21cm', 'read_files.coeval_21cm_c2ray', 'temperature.calc_dt'], bounded='folders of up to 5 files, cubes of up to 4 cells per side')
def signal(T):
    np = T.np
    cosmo(T)
    units(T)
    shuffled(T, 'usefuls', 'read_files')
    zs, fmt = redshifts(T, 2, 5)
    shp = tuple(T.int('n%d' % k, 1, 4) for k in range(3))
    d = T.folder()
    for k, z in enumerate(zs):
        f = d + '/' + fmt % z
        T.method(T.call('density_file.DensityFile'), 'write_to_file', f + 'n_all.dat', raw_density=T.array('rho%d' % k, shp, gt=0, gen=(.1, 9)))
        T.method(T.call('xfrac_file.XfracFile'), 'write_to_file', d + '/xfrac3d_' + fmt % z + '.bin', T.array('x%d' % k, shp, lo=0, hi=1))
    z, s = wanted(T, zs)
    sub = T.bool('mean_subtract')
    x, r = T.call('usefuls.coeval_xfrac', d, z), T.call('usefuls.coeval_dens', d, z)
    dt = T.call('temperature.calc_dt', x, r, z)
    T.ensure_eq('signal of the cubes at that redshift', T.call('usefuls.coeval_21cm', d, d, z, mean_subtract=sub), dt - dt.mean() if sub else dt, atol=1e-8)
    r = T.call('read_files.coeval_dens_c2ray', d, z)
    dt = T.call('temperature.calc_dt', x, r, z)
    T.ensure_eq('read_files', T.call('read_files.coeval_21cm_c2ray', d, d, z, mean_subtract=sub), dt - dt.mean((0, 1)) if sub else dt, atol=1e-8)
    q = zs[0]
    f, g = d + '/xfrac3d_' + fmt % q + '.bin', d + '/' + fmt % q + 'n_all.dat'
    if fmt == '%.3f':
        T.ensure_eq('redshift from the file name', T.call('temperature.calc_dt', f, g), T.call('temperature.calc_dt', f, g, q), rtol=1e-9)


@contract('P19', ['helper_functions._get_redshifts_in_range', 'helper_functions.get_xfrac_redshifts', 'helper_functions.get_dens_redshifts'], bounded='folders of up to 8 files')
def in_range(T):
    np = T.np
    shuffled(T, 'helper_functions')
    zs, fmt = redshifts(T, 1, 8)
    d = T.folder()
    for z in zs:
        for f in ('/xfrac3d_' + fmt % z + '.bin', '/' + fmt % z + 'n_all.dat'):
            open(d + f, 'w').close()
    for junk in ('/xfrac_note.bin', '/readme_n_all.dat', '/12.0v_all.dat'):
        open(d + junk, 'w').close()
    s = np.sort(zs)
    lo = T.real('z_low', gen=(4, 14))
    hi = T.real('z_high', gen=(4, 14))
    T.assume(lo <= hi)
    if T.bool('low on a file'):
        lo = min(zs[0], hi)
    if T.bool('high on a file'):
        hi = max(zs[-1], lo)
    for fn in ('get_xfrac_redshifts', 'get_dens_redshifts'):
        T.ensure_eq(fn + ': all', T.call(H + fn, d), s, rtol=0)
        T.ensure_eq(fn + ': range', T.call(H + fn, d, lo, hi), s[(s >= lo) & (s <= hi)], rtol=0)
        T.ensure_eq(fn + ': from', T.call(H + fn, d, z_low=lo), s[s >= lo], rtol=0)
        T.ensure_eq(fn + ': to', T.call(H + fn, d, z_high=hi), s[s <= hi], rtol=0)
        ok, r = T.try_call(H + fn, d, lo, hi, True)
        if lo < s[0] or hi > s[-1]:
            T.ensure(fn + ': no files to bracket', not ok)
        else:
            T.ensure_eq(fn + ': bracket', r, s[(s >= s[s <= lo].max()) & (s <= s[s >= hi].min())], rtol=0)
    e = T.folder()
    T.ensure('empty folder', len(T.call(H + 'get_xfrac_redshifts', e)) == 0)


@contract('P19', ['helper_functions.determine_redshift_from_filename'], bounded='file names of up to 5 words')
def from_name(T):
    rng = T.np.random.RandomState(T.seed())
    letters = 'abcdefghijklmnopqrstuvwxyzABC'
    word = lambda: ''.join(letters[k] for k in rng.randint(0, len(letters), rng.randint(1, 8)))
    nums, parts = [], []
    for k in range(rng.randint(0, 4)):
        v = rng.choice(['%d', '%.1f', '%.2f', '%.3f']) % (rng.rand() * 10 ** rng.randint(0, 4))
        nums.append(v)
        parts += [word() + rng.choice(['', '_', '-', '.']), v]
    parts.append(rng.choice(['', '_', '-']) + word() + rng.choice(['', '_', '.' + word()]))
    name = ''.join(parts)
    import re
    ext = T.choice('extension', ['.bin', '.dat', '.cbin', '.fits'])
    folder = T.choice('folder', ['', '/data/run123456/', './', '/a.b/256Mpc_11.987654/'])
    r = T.call(H + 'determine_redshift_from_filename', folder + name + ext)
    # numbers separated by a lone dot cannot be told apart: left out
    for v in re.findall('[0-9.]+', name):
        T.assume(v.strip('.').count('.') <= 1)
    got = [v.strip('.') for v in re.findall('[0-9.]+', name)]
    got = [v for v in got if v]
    if not got:
        T.ensure('no number', r == -1)
    else:
        n = max(len(v) for v in got)
        T.ensure_eq('the longest number of the name', r, float([v for v in got if len(v) == n][0]), rtol=0)


@contract('P19', ['lightcone.make_lightcone', 'lightcone.make_velocity_lightcone', 'lightcone._get_filenames', 'lightcone._get_file_redshifts'], bounded='folders of up to 5 files, cubes of up to 4 cells per side')
def lightcone_files(T):
    """a lightcone is the same from files, however they are named to it, and from the cubes themselves"""
    np = T.np
    cosmo(T)
    units(T)
    T.setmod('conv', LB=T.real('box', gt=20, gen=(60, 200)))

    class NoSleep:
        def __getattr__(self, n):
            import time
            return (lambda *a: None) if n == 'sleep' else getattr(time, n)
    T.setmod('lightcone', time=NoSleep())
    shuffled(T, 'lightcone')
    zs, fmt = redshifts(T, 2, 5)
    s = sorted(zs)
    T.assume(s[-1] - s[0] < 3 and min(b - a for a, b in zip(s, s[1:])) > 0.05)
    n = T.int('n', 2, 4)
    d = T.folder()
    names, cubes = [], {}
    for k, z in enumerate(zs):
        f = d + '/xfrac3d_' + fmt % z + '.bin'
        cubes[z] = T.array('x%d' % k, (n, n, n), lo=0, hi=1)
        T.method(T.call('xfrac_file.XfracFile'), 'write_to_file', f, cubes[z])
        names.append(f)
    ax = T.choice('los_axis', [0, 1, 2])
    mode = T.choice('interpolation', ['linear', 'step', 'sigmoid'])
    want, wz = T.call('lightcone.make_lightcone', cubes, interpolation=mode, los_axis=ax)
    how = T.choice('files', ['list', 'array', 'folder', 'list file'])
    src = names if how == 'list' else np.array(names) if how == 'array' else d
    kw = {}
    if how == 'list file':
        src = T.folder() + '/names.txt'
        with open(src, 'w') as h:
            h.write('\n'.join(names) + '\n')
    if how != 'folder':
        rz = T.choice('redshifts', ['names', 'list', 'array', 'file'])
        if rz in ('list', 'array'):
            kw['file_redshifts'] = zs if rz == 'list' else np.array(zs)
        elif rz == 'file':
            kw['file_redshifts'] = T.folder() + '/z.txt'
            np.savetxt(kw['file_redshifts'], zs)
    got, gz = T.call('lightcone.make_lightcone', src, interpolation=mode, los_axis=ax, **kw)
    T.ensure_eq('redshifts', gz, wz, rtol=1e-12)
    T.ensure_eq('slices', got, want, rtol=1e-6, atol=1e-6)
    rd, vd, vel = T.folder(), T.folder(), {}
    dn, vn, dens = [], [], {}
    for k, z in enumerate(zs):
        T.method(T.call('density_file.DensityFile'), 'write_to_file', rd + '/' + fmt % z + 'n_all.dat', raw_density=T.array('rho%d' % k, (n, n, n), gt=0, gen=(.1, 9)))
        T.method(T.call('vel_file.VelocityFile'), 'write_to_file', vd + '/' + fmt % z + 'v_all.dat', T.array('v%d' % k, (3, n, n, n)))
        dn.append(rd + '/' + fmt % z + 'n_all.dat')
        vn.append(vd + '/' + fmt % z + 'v_all.dat')
        D = T.call('density_file.DensityFile', dn[-1])
        vel[z] = T.method(T.call('vel_file.VelocityFile', vn[-1]), 'get_kms_from_density', D)
        dens[z] = D.cgs_density
    a = (vd, rd) if how == 'folder' else (vn, dn)
    got, gz = T.call('lightcone.make_velocity_lightcone', a[0], a[1], los_axis=ax)
    want, wz = T.call('lightcone.make_velocity_lightcone', vel, dens, los_axis=ax)
    T.ensure_eq('velocity redshifts', gz, wz, rtol=1e-12)
    T.ensure_eq('velocity', got, want, rtol=1e-5, atol=1e-5 * max(abs(v).max() for v in vel.values()))
