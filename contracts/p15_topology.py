import fcntl, hashlib, importlib.util, os, subprocess, sys, tempfile
from pyded.kit import contract
from contracts.common import *

V = 'ViteBetti.'
B = 'topology.'
_MOD = {}


def fresh_cython():
    """the extension compiled from the .pyx of the current tree (the .so beside it may be older)"""
    if 'm' in _MOD:
        return _MOD['m']
    src = os.path.join(os.environ.get('PYDED_SRC', '/repo/src'), 'tools21cm', 'ViteBetti_cython.pyx')
    if not os.path.exists(src):
        return None
    text = open(src, 'rb').read()
    d = os.path.join(tempfile.gettempdir(), 'pyded-cy-%d-%s' % (os.getuid(), hashlib.sha256(text).hexdigest()[:16]))
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'ViteBetti_cython.so')
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so):
            import sysconfig
            import numpy
            pyx = os.path.join(d, 'ViteBetti_cython.pyx')
            open(pyx, 'wb').write(text)
            env = dict(os.environ)
            subprocess.run([sys.executable, '-c', 'import sys;from Cython.Compiler.Main import main;main(command_line=1)', '-3', '--cplus', pyx], check=True, env=env, capture_output=True)
            subprocess.run(['g++', '-O1', '-fPIC', '-shared', '-w', '-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(), pyx[:-3] + 'cpp', '-o', so + '.tmp'], check=True, capture_output=True)
            os.rename(so + '.tmp', so)
    spec = importlib.util.spec_from_file_location('ViteBetti_cython', so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    _MOD['m'] = m
    return m


def use_fresh(T):
    m = fresh_cython()
    if m is not None:
        T.setmod('ViteBetti', cython_CubeMap=m.CubeMap, CubeMap_cython=m.CubeMap, cython_available=True)
    return m


def complex_of(T, A):
    """the cubical complex of the true cells on the doubled periodic grid: a cell with d odd coordinates is a d-cube,
    present when all 2^d cells around it are"""
    np = T.np
    nx, ny, nz = A.shape
    out = np.zeros((2 * nx, 2 * ny, 2 * nz), int)
    for p in np.ndindex(2, 2, 2):
        m = A.copy()
        for ax in range(3):
            if p[ax]:
                m = m & np.roll(m, -1, ax)
        out[p[0]::2, p[1]::2, p[2]::2] = m * (1 + sum(p))
    return out


def chi_of(T, A):
    C = complex_of(T, A)
    return sum((-1) ** d * (C == d + 1).sum() for d in range(4))


def corners(T, A, n, *x):
    """are all cells around the point x of the doubled periodic grid true?"""
    two = [(v // 2, T.ite(v + 1 == 2 * m, 0, (v + 1) // 2)) for v, m in zip(x, n)]
    return T.land(*[T.at(A, i, j, k) != 0 for i in two[0] for j in two[1] for k in two[2]])


def mark(T, A, n, top, *x):
    """the marker of the point x: its dimension (number of odd coordinates) plus one, when it belongs to the complex and has at most top dimensions"""
    d = x[0] % 2 + x[1] % 2 + x[2] % 2
    return T.ite(T.land(d <= top, corners(T, A, n, *x)), d + 1, 0)


def lex(T, ix, p):
    """is the point p before the indices ix in the order of the loops?"""
    c = False
    for k in reversed(range(3)):
        if k < len(ix):
            c = T.lor(p[k] < ix[k], T.land(p[k] == ix[k], c))
    return c


def stages(T, func, A, n):
    """loop invariants of the four sweeps: the points before the current one (in the order of the loops) carry the
    markers of up to this dimension, the others those of the previous sweep"""
    N = [2 * k for k in n]

    def inv(stage, depth):
        def f(i, pre):
            ix = [pre[v] for v in 'ijk'[:depth]] + [i]

            def cell(*x):
                q = [v // 2 for v in x] if stage == 0 else x
                return T.ite(lex(T, ix, q), mark(T, A, n, stage, *x), mark(T, A, n, stage - 1, *x))
            return dict(cubemap=T.build(N, cell, 'i'))
        return f
    for stage in range(4):
        for depth in range(3):
            T.loop(func, inv(stage, depth), k=3 * stage + depth)


@contract('P15', [V + 'CubeMap'], budget=200)
def map_of_any_box(T):
    """the pure Python map of a box of any size: every point of the doubled periodic grid carries one plus its
    dimension if all the cells around it are true, else zero"""
    n = shape3(T, g=(1, 4))
    A = T.array('cells', n, kind='i', gen=(0, 2), vals=(0, 1))
    if T.sym:
        stages(T, V + 'CubeMap', A, n)
    C = T.call(V + 'CubeMap', A)
    T.forall('marker', [2 * k for k in n], lambda *x: ('eq', T.at(C, *x), mark(T, A, n, 3, *x)))


def map_contract():
    """callee contract of the maps (proved by map_of_any_box and compiled_map_of_any_box): the argument must be the cells
    the contract under proof names (T.inside), the result is their array of markers (T.marker)"""
    def ov(w, fv, args, kw):
        T, A = w.T, args[0]
        n = T.shape(T.inside)
        T.forall('cells handed to the map', n, lambda *x: ('eq', T.at(A, *x), T.at(T.inside, *x)))
        return T.build([2 * k for k in n], T.marker, 'i')
    return {V + 'CubeMap': ov, 'ViteBetti_cython.CubeMap': ov, V + 'CubeMap_joblib': ov}


@contract('P15', [B + 'EulerCharacteristic'], overrides=map_contract)
def euler_of_any_box(T):
    """vertices - edges + faces - cells of the periodic cubical complex of the cells above the threshold (below it for
    the other neighbour rules), for a box of any size"""
    n = shape3(T, g=(1, 4))
    A = T.array('field', n, gen=(0, 1))
    t = T.real('threshold', gen=(0.2, 0.8))
    nb = T.choice('neighbors', [6, 4, 26])
    how = T.choice('speed_up', ['cython', 'numba', 'python', 'parallel'])
    inside = T.build(n, lambda *x: T.ite((T.at(A, *x) > t) if nb in (4, 6) else T.lnot(T.at(A, *x) > t), 1, 0), 'i')
    if T.sym:
        T.inside, T.marker = inside, T.ghost('marker', 1, 1, 1)
    else:
        use_fresh(T)
        T.marker = lambda *x: mark(T, inside, n, 3, *x)
    more = dict(speed_up=how)
    if how == 'parallel':
        if not T.sym and not T.choice('really', [True] + [False] * 40):
            return
        more = dict(speed_up='python', n_jobs=2)
    chi = T.call(B + 'EulerCharacteristic', A, thres=t, neighbors=nb, verbose=False, **more)

    def sign(m):
        return sum((-1) ** d * T.ite(m == d + 1, 1, 0) for d in range(4))
    T.ensure_eq('Euler characteristic', chi, T.sum([2 * k for k in n], lambda *x: sign(T.marker(*x))))


MARKS = (1, 2, 3, 4)
STAGES = ['vertices', 'edges', 'faces', 'cubes']


class Segment:
    """a block of shared memory holding the given array"""
    def __init__(self, T, arr):
        if T.sym:
            from pyded.models import Shm
            self.s = Shm(T.w, 'segment')
            self.s.arr, self.s.bits = arr, 32
            self.name, self.view = 'segment', arr
        else:
            from multiprocessing import shared_memory
            self.s = shared_memory.SharedMemory(create=True, size=max(1, arr.size * 4))
            self.view = T.np.ndarray(arr.shape, dtype=T.np.int32, buffer=self.s.buf)
            self.view[...] = arr
            self.name = self.s.name
        self.T = T

    def free(self):
        r = self.view
        if not self.T.sym:
            r = r.copy()
            self.view = None
            self.s.close()
            self.s.unlink()
        return r


@contract('P15', [V + '_CubeMap_joblib_worker'], budget=200)
def worker_of_any_box(T):
    """one worker of one parallel sweep: whatever points other workers have already done, its own rows of the shared map get
    the markers of this sweep and all other points keep their values"""
    n = shape3(T, g=(1, 4))
    N = [2 * k for k in n]
    A = T.array('cells', n, kind='i', gen=(0, 2), vals=(0, 1))
    k = T.choice('stage', [0, 1, 2, 3])
    rows = (N if k else n)[0]
    i0 = T.int('first row', 0, gen=(0, 4))
    i1 = T.int('end row', 0, gen=(0, 8))
    T.assume(T.land(i0 <= i1, i1 <= rows))
    done = T.array('done by others', N, kind='b')
    seg = Segment(T, T.build(N, lambda *x: T.ite(T.at(done, *x), mark(T, A, n, k, *x), mark(T, A, n, k - 1, *x)), 'i'))

    def old(*x):
        return T.ite(T.at(done, *x), mark(T, A, n, k, *x), mark(T, A, n, k - 1, *x))

    def row(x):
        return x if k else x // 2
    if T.sym:
        def inv(depth):
            def f(i, pre):
                ix = [pre[v] for v in 'ijk'[:depth]] + [i]
                if depth == 0:
                    ix[0] = i0 + i

                def cell(*x):
                    q = [row(v) for v in x]
                    return T.ite(T.land(q[0] >= i0, lex(T, ix, q)), mark(T, A, n, k, *x), old(*x))
                return dict(cubemap=T.build(N, cell, 'i'))
            return f
        for depth in range(3):
            T.loop(V + '_CubeMap_joblib_worker', inv(depth), k=3 * k + depth)
    T.call(V + '_CubeMap_joblib_worker', seg.name, tuple(N), i0, i1, A, MARKS, STAGES[k])
    C = seg.free()
    T.forall('rows of the worker', N, lambda *x: ('eq', T.at(C, *x), T.ite(T.land(row(x[0]) >= i0, row(x[0]) < i1), mark(T, A, n, k, *x), old(*x))))


def sweep_rule(T, A, n, jobs):
    """a parallel sweep of workers under their contract (worker_of_any_box): each task, at a moment when any of the others
    may or may not be done, must be a worker of this sweep for rows of the map; every row must belong to some task"""
    from pyded.vals import setitem, wrap
    N = [2 * v for v in n]
    S = [lambda *x: 0] + [T.ghost('level%d' % k, 1, 1, 1) for k in range(4)]
    T.level, T.sweep = S[4], -1

    def rule(tasks):
        T.sweep += 1
        k = T.sweep
        i = T.int('task %d' % k, 0)
        T.assume(i < jobs)
        T.ensure('as many tasks as jobs', wrap(tasks.n) == jobs)
        f, (name, shp, i0, i1, cells, marks, stage), kw = tasks.at(i.e)
        T.ensure('the worker of this sweep', f.name == '_CubeMap_joblib_worker' and f.mod.name.endswith('ViteBetti') and not kw and STAGES[k] == stage and tuple(marks) == MARKS)
        for d in range(3):
            T.ensure('shape of the map', shp[d] == N[d])
        T.forall('cells handed to the worker', n, lambda *x: ('eq', T.at(cells, *x), T.at(A, *x)))
        rows = (N if k else n)[0]
        T.ensure('rows', T.land(i0 >= 0, T.lor(i1 <= i0, i1 <= rows)))
        seg = T.w.shm[name].arr
        T.forall('map after the previous sweep', N, lambda *x: ('eq', T.at(seg, *x), S[k](*x)))
        size = (rows + jobs - 1) // jobs

        def owned(r):
            j = r // size
            _, (_, _, j0, j1, _, _, _), _ = tasks.at(j.e)
            return T.land(j >= 0, j < jobs, j0 <= r, r < j1)
        T.forall('every row has a worker', [rows], owned)
        setitem(seg, Ellipsis, T.build(N, S[k + 1], 'i'))
        return [None]
    T.parallel_rule = rule


@contract('P15', [V + 'CubeMap_joblib'], minruns=4, maxruns=8)
def parallel_of_any_box(T):
    """the parallel map with any number of jobs: its sweeps cover every row, each after the one before is complete"""
    n = shape3(T, g=(1, 4))
    A = T.array('cells', n, kind='i', gen=(0, 2), vals=(0, 1))
    jobs = T.int('jobs', 1, gen=(1, 4))
    if T.sym:
        sweep_rule(T, A, n, jobs)
    C = T.call(V + 'CubeMap_joblib', A if T.sym else A.astype(T.np.int32), n_jobs=jobs)
    T.forall('marker', [2 * k for k in n], lambda *x: ('eq', T.at(C, *x), T.level(*x) if T.sym else mark(T, A, n, 3, *x)))


@contract('P15', ['ViteBetti_cython.CubeMap', V + 'CubeMap_cython'], budget=200)
def compiled_map_of_any_box(T):
    """the same of the Cython version: its statements with the C types taken away"""
    n = shape3(T, g=(1, 4))
    A = T.array('cells', n, kind='i', gen=(0, 2), vals=(0, 1))
    if T.sym:
        stages(T, 'ViteBetti_cython.CubeMap', A, n)
    else:
        use_fresh(T)
        A = A.astype(T.np.int32)
    C = T.call(V + 'CubeMap_cython', A)
    T.forall('marker', [2 * k for k in n], lambda *x: ('eq', T.at(C, *x), mark(T, A, n, 3, *x)))


@contract('P15', [V + 'CubeMap', V + 'CubeMap_numba', 'ViteBetti_cython.CubeMap'], frame=True, bounded='boxes of up to 6 cells a side', minruns=100)
def maps(T):
    np = T.np
    shp = shape3(T, g=(1, 6))
    A = T.array('cells', shp, kind='b')
    use_fresh(T)
    which = T.choice('implementation', ['CubeMap', 'CubeMap_numba', 'CubeMap_cython'])
    D = T.track('argument', A.astype(np.int32))
    C = T.call(V + which, D)
    if T.frame:
        return
    T.ensure_eq('cells of every dimension are marked', C, complex_of(T, A))


def given_counts():
    """callee contracts under proof: the Euler characteristic and the other Betti numbers are some numbers"""
    def ov(k):
        return lambda w, fv, args, kw: w.T.numbers[k](args, kw)
    return {B + 'EulerCharacteristic': ov(0), B + 'betti0': ov(1), B + 'betti2': ov(2)}


@contract('P15', [B + 'betti1'], overrides=given_counts)
def first_betti(T):
    """the first Betti number is the sum of the other two minus the Euler characteristic, all of the same cells by the same
    rule, unless they are passed in"""
    n = shape3(T, g=(1, 4))
    A = T.array('field', n, gen=(0, 1))
    t = T.real('threshold', gen=(0.2, 0.8))
    nb = T.choice('neighbors', [6, 4, 26])
    given = T.choice('given', [(), ('b0',), ('b2', 'chi'), ('b0', 'b2', 'chi')])
    kw = {k: T.int(k, gen=(-5, 9)) for k in given}
    if T.sym:
        own = [T.int('own %d' % k) for k in range(3)]

        def number(k):
            def f(args, q):
                T.forall('the cells counted', n, lambda *x: ('eq', T.at(args[0], *x), T.at(A, *x)))
                pos = list(args[1:]) + [None] * 3
                T.ensure('threshold and neighbours of the count', T.land(q.get('thres', pos[0]) == t, q.get('neighbors', pos[1]) == nb))
                return own[k]
            return f
        T.numbers = [number(k) for k in range(3)]
    else:
        use_fresh(T)
        own = [T.call(B + 'EulerCharacteristic', A, thres=t, neighbors=nb, verbose=False), T.call(B + 'betti0', A, thres=t, neighbors=nb), T.call(B + 'betti2', A, thres=t, neighbors=nb)]
    chi, b0, b2 = [kw.get(k, own[i]) for i, k in enumerate(['chi', 'b0', 'b2'])]
    b1 = T.call(B + 'betti1', A, thres=t, neighbors=nb, verbose=False, **kw)
    T.ensure_eq('b0 + b2 - chi', b1, b0 + b2 - chi)


@contract('P15', [B + 'EulerCharacteristic', B + 'betti0', B + 'betti1', B + 'betti2'], frame=True, bounded='boxes of up to 6 cells a side', minruns=100)
def euler(T):
    np = T.np
    shp = shape3(T, g=(1, 6))
    binary = T.choice('input', ['field', 'binary', 'bool'])
    t = 0.5
    if binary == 'field':
        t = T.real('threshold', gen=(0.2, 0.8))
        a = T.array('field', shp, gen=(0, 1))
    else:
        a = T.array('cells', shp, kind='b')
        if binary == 'binary':
            a = T.track('binary field', a * 1.0)
    nb = T.choice('neighbors', [6, 4, 26])
    how = T.choice('speed_up', ['numpy', 'cython', 'numba', 'python', 'Numpy'])
    use_fresh(T)
    kw = dict(neighbors=nb)
    if binary == 'field' or T.choice('threshold given', [True, False]):
        kw['thres'] = t
    chi = T.call(B + 'EulerCharacteristic', a, speed_up=how, verbose=False, **kw)
    if T.frame:
        T.call(B + 'betti0', a, **kw)
        T.call(B + 'betti2', a, **kw)
        T.call(B + 'betti1', a, speed_up=how, verbose=False, **kw)
        return
    A = a > t
    want = chi_of(T, A if nb in (4, 6) else ~A)
    T.ensure('vertices - edges + faces - cells', chi == want)
    move = T.choice('symmetry', ['shift', 'swap', 'flip'])
    if move == 'shift':
        m = np.roll(a, [T.int('shift%d' % i, gen=(-3, 3)) for i in range(3)], (0, 1, 2))
    elif move == 'swap':
        m = a.transpose(T.choice('order', [(1, 0, 2), (0, 2, 1), (2, 1, 0), (1, 2, 0)]))
    else:
        m = np.flip(a, T.choice('axis', [0, 1, 2]))
    T.ensure('unchanged by a symmetry of the box', T.call(B + 'EulerCharacteristic', m, speed_up=how, verbose=False, **kw) == want)
    b0 = T.call(B + 'betti0', a, **kw)
    b2 = T.call(B + 'betti2', a, **kw)
    b1 = T.call(B + 'betti1', a, speed_up=how, verbose=False, **kw)
    T.ensure('zeroth - first + second Betti number', b0 - b1 + b2 == chi)
    T.ensure('Betti numbers passed in are used', T.call(B + 'betti1', a, b0=b0 + 3, b2=b2, chi=chi, verbose=False, **kw) == b1 + 3)
    if nb in (4, 6):
        T.ensure('components of the cells', b0 == components(T, A))
        T.ensure('components of the rest', b2 == components(T, ~A))


def components(T, A):
    from scipy import ndimage
    return ndimage.label(A)[1]
