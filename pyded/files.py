"""Assumed contract on the file system: a file is the sequence of array segments written to it.

np.fromfile returns a segment only when it is asked for the type and the number of elements that were written;
32-bit floats are the uninterpreted rounding f32(x), idempotent."""
import fnmatch, os.path as osp
from fractions import Fraction
import z3
from . import npm
from .sym import Unsupported, fn, is_z3, zr, num, RL
from .vals import *

ON = [False]
_f32 = fn('f32', RL, RL)


def single(x):
    x = num(x)
    if is_z3(x) and z3.is_app(x) and x.decl().name() == 'f32':
        return x
    if isinstance(x, int):
        return x if abs(x) <= 2 ** 24 else _f32(zr(x))
    return _f32(zr(x))


def round_single(a):
    f = a.frozen()
    meta = a.meta
    r = Arr(a.shape, lambda idx: single(f(idx)), 'f')
    r.buf.bits = 32
    if meta and meta[0] == 'flat':
        r.meta = ('flat', round_single(meta[1]), meta[2])
    return r


class FileV:
    def __init__(self, w, path, mode):
        self.w, self.path, self.pos = w, path, 0
        self.text = 'b' not in mode
        if 'w' in mode:
            w.fs[path] = []
        elif 'a' in mode:
            w.fs.setdefault(path, [])
        elif path not in w.fs:
            raise PyExc('FileNotFoundError', path)
        self.segs = w.fs[path]

    def attr_model(self, w, n):
        if n in ('close', 'flush'):
            return lambda *a: None
        if n == 'name':
            return self.path
        if n == 'write':
            return lambda x: self.segs.append(('text', x))
        raise Unsupported('file.' + n)


def b_open(w, path, mode='r', *a, **k):
    if isinstance(path, (Arr, list, tuple, dict, Fraction)) or path is None:
        raise PyExc('TypeError', 'expected str, bytes or os.PathLike object')
    if not isinstance(path, str):
        raise Unsupported('open of a symbolic name')
    return FileV(w, osp.normpath(path), mode)


def tofile(w, a, f, *r, **k):
    if r or k:
        raise Unsupported('tofile options')
    a = as_arr(a)
    if isinstance(f, str):
        f = b_open(w, f, 'wb')
    if not isinstance(f, FileV):
        raise Unsupported('tofile target')
    b = npm.flatten(a) if a.ndim != 1 else a
    c = b.copy()
    c.meta = b.meta
    bits = getattr(a.buf, 'bits', None) or 64
    f.segs.append(('arr', a.kind, bits, c))


def fromfile(w, f, dtype=None, count=-1, sep='', offset=0, **k):
    d = npm.dt(dtype) if dtype is not None else npm.F64
    if isinstance(f, str):
        f = b_open(w, f, 'rb')
    if not isinstance(f, FileV) or sep or offset:
        raise Unsupported('fromfile')
    cnt = dsimp(raw(unwrap0(count)))
    if f.pos >= len(f.segs):
        if isinstance(cnt, int) and cnt <= 0:
            return npm.zeros((0,))
        raise Unsupported('read past the end')
    s = f.segs[f.pos]
    if s[0] != 'arr' or (s[1], s[2]) != (d.kind, d.bits):
        raise Unsupported('file read with another type than written')
    a = s[3]
    if isinstance(cnt, int) and cnt == -1:
        if f.pos != len(f.segs) - 1:
            raise Unsupported('read of several segments')
    elif not dim_same(cnt, a.shape[0]):
        raise Unsupported('read of a part of a segment')
    f.pos += 1
    r = a.copy()
    r.meta = a.meta
    r.buf.bits = d.bits
    return r


def pathish(f):
    def g(w, *a, **k):
        if not all(isinstance(x, (str, list)) for x in a):
            raise Unsupported('os.path of a symbolic name')
        return f(*a, **k)
    return g


def exists(w, p):
    if not isinstance(p, str):
        raise Unsupported('os.path of a symbolic name')
    return osp.normpath(p) in w.fs


def glob_(w, pat, *a, **k):
    return [p for p in w.fs if fnmatch.fnmatch(p, osp.normpath(pat)) and osp.dirname(p) == osp.dirname(osp.normpath(pat))]


def install(w):
    from .interp import WithWorld as W
    w.fs = {}
    path = npm.NS('os.path', {n: W(pathish(getattr(osp, n))) for n in ('split', 'basename', 'dirname', 'splitext', 'join', 'normpath')} | {
        'exists': W(exists), 'isfile': W(exists), 'sep': '/'})
    w.models['os'] = npm.NS('os', {'path': path, 'sep': '/'})
    w.models['os.path'] = path
    w.models['glob'] = npm.NS('glob', {'glob': W(glob_)})
    w.np.d['fromfile'] = W(fromfile)
