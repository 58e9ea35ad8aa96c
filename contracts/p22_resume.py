import os
from pyded.kit import contract
from contracts.common import *

N = 'radio_telescope_noise.'
LC = N + 'get_uv_map_lightcone'


class Stop(Exception):
    pass


class Watch:
    """counts the maps computed and stops at the k-th one, or in the middle of the k-th write of the file"""

    def __init__(self, T):
        m = T.mod('radio_telescope_noise')
        self.map0, self.write0 = m.get_uv_map, m.write_dictionary_data
        self.T, self.maps, self.stop_map, self.stop_write, self.torn = T, [], None, None, 0
        T.setmod('radio_telescope_noise', get_uv_map=self.map, write_dictionary_data=self.write)

    def map(self, *a, **k):
        if self.stop_map is not None and len(self.maps) >= self.stop_map:
            raise Stop('interrupted')
        self.maps.append(float(a[1] if len(a) > 1 else k['z']))
        return self.map0(*a, **k)

    def write(self, d, f, *a, **k):
        self.write0(d, f, *a, **k)
        if self.stop_write is not None:
            if self.stop_write == 0:
                n = os.path.getsize(f)
                with open(f, 'r+b') as h:
                    h.truncate(int(n * self.torn))
                raise Stop('interrupted while writing')
            self.stop_write -= 1

    def arm(self, stop_map=None, stop_write=None, torn=0):
        self.maps, self.stop_map, self.stop_write, self.torn = [], stop_map, stop_write, torn


def key(z):
    return '{:.3f}'.format(z)


def setting(T):
    np = T.np
    cosmo(T)
    lb = box(T)
    n = T.int('ncells', 2, 4)
    A = T.array('antxyz', (T.int('antennas', 2, 3), 3), gen=(-90, 90))
    zs = [round(float(v), 3) for v in T.array('zs', (T.int('slices', 1, 7),), lo=6, hi=12)]
    if T.bool('one twice'):
        zs.append(zs[0])
    kw = dict(subarray_type=A, total_int_time=1., int_time=1800., declination=T.real('declination', lo=-90, hi=90), verbose=False)
    if T.bool('box given'):
        kw['boxsize'] = lb
    if T.bool('list'):
        Z = list(zs)
    else:
        Z = np.array(zs)
    run = dict(n_jobs=T.int('jobs', 1, 3), checkpoint=T.choice('checkpoint', [1, 2, 3, 16, None]))
    f = T.folder() + '/uv.' + T.choice('format', ['pkl', 'npz', 'pickle'])
    return n, A, zs, Z, kw, run, f


def expected(T, n, zs, kw):
    k = {a: b for a, b in kw.items()}
    return {key(z): T.call(N + 'get_uv_map', n, z, **k)[0] for z in zs}


def check(T, uvs, want, what):
    T.ensure(what + ': a map for every redshift', all(k in uvs for k in want))
    for k in want:
        T.ensure_eq(what + ': map at ' + k, uvs[k], want[k], rtol=1e-6)


def stored(T, f):
    return T.call('read_files.read_dictionary_data', f)


def same(T, a, b):
    return T.np.asarray(a).shape == T.np.asarray(b).shape and bool((T.np.asarray(a) == T.np.asarray(b)).all())


@contract('P22', [LC, N + 'get_uv_map', 'read_files.read_dictionary_data', 'read_files.write_dictionary_data'], bounded='up to 8 redshifts, one or two interruptions, 3 antennas, grids of up to 4 cells', weight=3)
def resume(T):
    np = T.np
    n, A, zs, Z, kw, run, f = setting(T)
    want = expected(T, n, zs, kw)
    W = Watch(T)
    for cut in range(T.int('interruptions', 1, 2)):
        before = stored(T, f) if os.path.exists(f) else {}
        how = T.choice('where%d' % cut, ['map', 'write'])
        k = T.int('point%d' % cut, 0, gen=(0, 6))
        if how == 'map':
            W.arm(stop_map=k)
        else:
            W.arm(stop_write=k, torn=T.real('torn%d' % cut, lo=0, hi=0.99))
        ok, r = T.try_call(LC, n, Z, save_uvmap=f, **kw, **run)
        if ok:
            check(T, r, want, 'not reached')
        if os.path.exists(f):
            after = stored(T, f)
            T.ensure('stored maps survive an interruption', all(q in after and same(T, after[q], before[q]) for q in before))
            T.ensure('only right maps stored', all(same(T, after[q], want[q]) for q in want if q in after))
            if how == 'map' and run['checkpoint'] and run['n_jobs'] == 1 and not ok:
                new = len([q for q in want if q in after and q not in before])
                T.ensure('no more than a checkpoint interval lost', len(set(W.maps)) - new < run['checkpoint'] + (len(zs) - len(set(zs))))
    have = [q for q in want if q in stored(T, f)] if os.path.exists(f) else []
    W.arm()
    r = T.call(LC, n, Z, save_uvmap=f, **kw, **run)
    check(T, r, want, 'resumed')
    check(T, stored(T, f), want, 'file')
    T.ensure('nothing stored computed again', not [z for z in W.maps if key(z) in have])
    W.arm()
    r = T.call(LC, n, Z, save_uvmap=f, **kw, **run)
    check(T, r, want, 'complete')
    T.ensure('nothing left to compute', not W.maps)


@contract('P22', [LC, N + 'get_uv_map'], bounded='up to 8 redshifts, 3 antennas, grids of up to 4 cells')
def one_shot(T):
    n, A, zs, Z, kw, run, f = setting(T)
    want = expected(T, n, zs, kw)
    r = T.call(LC, n, Z, **kw, **run)
    check(T, r, want, 'without file')
    T.ensure('parameters', r['ncells'] == n and r['N_ant'] == len(A) and r['int_time'] == 1800. and r['total_int_time'] == 1. and r['declination'] == kw['declination'])
    T.ensure_eq('box', r['boxsize'], kw.get('boxsize', T.mod('conv').LB))


@contract('P22', [LC], bounded='up to 16 redshifts, 3 antennas, grids of up to 4 cells')
def others_kept(T):
    n, A, zs, Z, kw, run, f = setting(T)
    k = T.int('first', 1, gen=(1, 8))
    a, b = zs[:k], zs[k:] + ([zs[0]] if T.bool('overlap') else [])
    T.assume(len(b) > 0)
    want = expected(T, n, zs, kw)
    T.call(LC, n, T.np.array(a), save_uvmap=f, **kw, **run)
    W = Watch(T)
    r = T.call(LC, n, T.np.array(b), save_uvmap=f, **kw, **run)
    check(T, r, want, 'both requests')
    check(T, stored(T, f), want, 'file')
    T.ensure('only the new redshifts computed', not [z for z in W.maps if key(z) in [key(q) for q in a]])


@contract('P22', [LC], bounded='up to 8 redshifts, 3 antennas, grids of up to 4 cells')
def refused(T):
    np = T.np
    n, A, zs, Z, kw, run, f = setting(T)
    T.call(LC, n, Z, save_uvmap=f, **kw, **run)
    with open(f, 'rb') as h:
        before = h.read()
    k2 = dict(kw)
    m = n
    what = T.choice('different', ['cells', 'box', 'hours', 'step', 'declination', 'antennas', 'layout', 'default box'])
    if what == 'cells':
        m = n + 1
    if what == 'box':
        k2['boxsize'] = T.mod('conv').LB * 1.5
    if what == 'default box':
        k2.pop('boxsize', None)
        T.setmod('conv', LB=T.mod('conv').LB * 1.5)
    if what == 'hours':
        k2['total_int_time'] = 1.5
    if what == 'step':
        k2['int_time'] = 900.
    if what == 'declination':
        k2['declination'] = kw['declination'] + 1
    if what == 'antennas':
        k2['subarray_type'] = np.vstack([A, A[:1] + 1.])
    if what == 'layout':
        k2['subarray_type'] = A + np.arange(3)
    W = Watch(T)
    q = np.array(list(zs) + [13.0]) if T.bool('further redshift') else Z
    ok, r = T.try_call(LC, m, q, save_uvmap=f, **k2, **run)
    T.ensure('refused', not ok)
    T.ensure('nothing computed', not W.maps)
    with open(f, 'rb') as h:
        T.ensure('file untouched', h.read() == before)


@contract('P22', [LC], bounded='built-in layouts AA0.5 and AA1, 2 redshifts')
def named_layouts(T):
    cosmo(T)
    box(T)
    f = T.folder() + '/uv.' + T.choice('format', ['pkl', 'npz'])
    name, other = T.choice('names', [('AA0.5', 'AA1'), ('AA1', 'AA0.5')])
    kw = dict(total_int_time=1., int_time=1800., verbose=False, n_jobs=T.int('jobs', 1, 2))
    zs = T.np.array([7.25, 8.5])
    a = T.call(LC, 3, zs[:1], subarray_type=name, save_uvmap=f, **kw)
    b = T.call(LC, 3, zs, subarray_type=name, save_uvmap=f, **kw)
    for z in zs:
        T.ensure_eq('map at %s' % key(z), b[key(z)], T.call(N + 'get_uv_map', 3, z, subarray_type=name, total_int_time=1., int_time=1800., verbose=False)[0], rtol=1e-6)
    T.ensure('another layout refused', not T.try_call(LC, 3, zs, subarray_type=other, save_uvmap=f, **kw)[0])
